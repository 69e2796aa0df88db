/* Runtime contract driver: concrete search for an input on which the real code breaks a
 * contract that the deductive check could not discharge (and bounded stand-in for functions
 * outside the verifier's reach).  Oracles are tolerance based and independent of the code. */
#ifndef RT_H
#define RT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <time.h>
typedef long double ld;
extern uint64_t rt_s;
extern double rt_consts[4096]; extern int rt_nconsts;
extern long rt_evals, rt_nontriv; extern char rt_sample[4096];
static inline uint64_t rnd(void){ uint64_t z=(rt_s+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31);}
static inline double rnd01(void){ return (double)(rnd()>>11)/9007199254740992.0; }
static inline int rndi(int lo,int hi){ return hi<=lo?lo:lo+(int)(rnd()%(uint64_t)(hi-lo+1)); }
static inline double rndu(double a,double b){ return a+(b-a)*rnd01(); }
static inline int coin(int n){ return rnd()%(uint64_t)n==0; }
/* a real from a mixture that includes special and source-mined values */
static inline double rreal(void){
  switch(rndi(0,9)){
    case 0: return rndi(-4,4);
    case 1: return rndu(-1e3,1e3);
    case 2: { static const double sp[]={0,1,-1,0.5,-0.5,2,-2,0.25,3,-3,10,-10,100,-100,1e-3,-1e-3}; return sp[rndi(0,15)]; }
    case 3: if(rt_nconsts){ double c=rt_consts[rndi(0,rt_nconsts-1)]; if(fabs(c)>1e6) c=1e6; if(c!=0&&fabs(c)<1e-6) c=copysign(1e-6,c); switch(rndi(0,4)){case 0:return c;case 1:return -c;case 2:return c*1.01;case 3:return c*0.99;default:return c+rndi(-1,1);} } /* fallthrough */
    default: return rndu(-2,2);
  }
}
static inline int rint_any(int lo,int hi){ /* biased to the boundaries and mined constants */
  int k=rndi(0,7);
  if(k==0) return lo; if(k==1) return hi; if(k==2) return lo+(hi>lo); if(k==3) return hi-(hi>lo);
  if(k==4&&rt_nconsts){ double c=rt_consts[rndi(0,rt_nconsts-1)]; if(c>=lo-1&&c<=hi+1&&c==(int)c){ int v=(int)c+rndi(-1,1); return v<lo?lo:v>hi?hi:v; } }
  if(k==5) return rndi(lo, lo+12<hi?lo+12:hi);
  return rndi(lo,hi);
}
void rt_fail(const char *fmt, ...) __attribute__((format(printf,1,2),noreturn));
void rt_ctx(const char *fmt, ...) __attribute__((format(printf,1,2)));   /* describe the case being run */
void rt_ctx_add(const char *fmt, ...) __attribute__((format(printf,1,2)));
int rt_time_up(void);
void rt_count(int nontrivial);
typedef void (*rt_fn)(void);
struct rt_test { const char *name; rt_fn fn; };
extern const struct rt_test rt_tests[];
static inline int close_to(double a, ld b, ld scale, double tol){ if(isnan(a)||isnan((double)b)) return isnan(a)&&isnan((double)b); if(isinf((double)b)||fabsl(b)>1e300L) return 1; return fabsl((ld)a-b) <= tol*(fabsl(b)+scale)+1e-290L; }
#endif
