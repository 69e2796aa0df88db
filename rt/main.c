#include "rt.h"
#include <unistd.h>
uint64_t rt_s; double rt_consts[4096]; int rt_nconsts; long rt_evals, rt_nontriv; char rt_sample[4096];
static char ctx[1<<16]; static double t_end; static long max_evals; static const char *failfile;
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
void rt_ctx(const char *fmt, ...){ va_list a; va_start(a,fmt); vsnprintf(ctx,sizeof ctx,fmt,a); va_end(a); }
void rt_ctx_add(const char *fmt, ...){ size_t n=strlen(ctx); va_list a; va_start(a,fmt); vsnprintf(ctx+n,sizeof ctx-n,fmt,a); va_end(a); }
static void dump(const char*msg){ FILE*f=failfile?fopen(failfile,"w"):NULL; FILE*o=f?f:stdout; fprintf(o,"RTFAIL %s\ninput: %s\n",msg,ctx); if(f) fclose(f); }
void rt_fail(const char *fmt, ...){ char m[8192]; va_list a; va_start(a,fmt); vsnprintf(m,sizeof m,fmt,a); va_end(a); dump(m); fprintf(stderr,"RTFAIL %s\n",m); _exit(3); }
#if defined(__SANITIZE_ADDRESS__)
void __asan_on_error(void){ dump("memory error reported by AddressSanitizer while running this input"); }
#endif
void rt_crash_note(void){ dump("crash"); }
#include <signal.h>
static void onsig(int s){ char b[80]; snprintf(b,sizeof b,"the call did not return normally (signal %d%s)",s,s==SIGALRM?": no progress, non-termination":""); dump(b); _exit(3); }
int rt_time_up(void){ alarm(20); return now()>t_end || (max_evals>0 && rt_evals>=max_evals); }
void rt_count(int nt){ rt_evals++; if(nt){ rt_nontriv++; if(rt_nontriv==7||!rt_sample[0]) { strncpy(rt_sample,ctx,600); } } }
int main(int argc,char**argv){
  /* rt <test> <seed> <seconds> <max_evals> <failfile> [constsfile] */
  if(argc<6) return 2;
  rt_s=strtoull(argv[2],0,10)*7919+17; t_end=now()+atof(argv[3]); max_evals=atol(argv[4]); failfile=argv[5];
  if(argc>6){ FILE*f=fopen(argv[6],"r"); if(f){ while(rt_nconsts<4096&&fscanf(f,"%lf",&rt_consts[rt_nconsts])==1) rt_nconsts++; fclose(f);} }
  signal(SIGSEGV,onsig); signal(SIGFPE,onsig); signal(SIGABRT,onsig); signal(SIGBUS,onsig); signal(SIGALRM,onsig);
  for(const struct rt_test*t=rt_tests;t->name;++t) if(!strcmp(t->name,argv[1])){ fclose(stdin); t->fn(); alarm(0);
    printf("RTDONE evals=%ld nontrivial=%ld\nRTSAMPLE %s\n",rt_evals,rt_nontriv,rt_sample); return 0; }
  fprintf(stderr,"no test %s\n",argv[1]); return 2;
}
