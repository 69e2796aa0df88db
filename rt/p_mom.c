#include "geom.h"
void r2d_shift_moments(r2d_real*,r2d_int,r2d_rvec2); void r3d_shift_moments(r3d_real*,r3d_int,r3d_rvec3);
r2d_rvec2 r2d_poly_center(r2d_poly*); r3d_rvec3 r3d_poly_center(r3d_poly*);
#define MAXO 8
static int gord(void){ return coin(12)?rndi(0,MAXO):rndi(0,5); }
static double tolm(int o){ return 1e-9*(1+o*o); }
static void t_mom2(void){ static r2d_poly P,Q; static ld m[NM2(MAXO)],sc[NM2(MAXO)],sh[NM2(MAXO)]; 
  while(!rt_time_up()){ int o=gord(),n=NM2(o); double*g=malloc(sizeof(double)*n); for(int i=0;i<n;++i) g[i]=1e77;
    if(coin(20)){ memset(&P,0,sizeof P); if(coin(2)) P.nverts=0; } else gen_poly2(&P,coin(8)?R2D_MAX_VERTS:40,0);
    if(coin(6)&&P.nverts){ double f=exp(rndu(-25,8)); r2d_scale(&P,f); }
    if(coin(4)&&P.nverts){ /* orientation reversed */ for(int v=0;v<P.nverts;++v){ int t=P.verts[v].pnbrs[0]; P.verts[v].pnbrs[0]=P.verts[v].pnbrs[1]; P.verts[v].pnbrs[1]=t; } }
    if(coin(6)&&P.nverts>0&&P.nverts<=R2D_MAX_VERTS/2){ /* two components */ int k=P.nverts; double dx=rndi(-3,3),dy=rndu(-3,3); for(int v=0;v<k;++v){ P.verts[v+k]=P.verts[v]; P.verts[v+k].pos.x+=dx; P.verts[v+k].pos.y+=dy; P.verts[v+k].pnbrs[0]+=k; P.verts[v+k].pnbrs[1]+=k; } P.nverts=2*k; }
    Q=P; rt_ctx("order %d ",o); ctx_poly2("polygon",&P); r2d_reduce(&P,g,o); poly2_moments(&P,o,0,m,sc);
    if(P.nverts!=Q.nverts||memcmp(P.verts,Q.verts,sizeof(P.verts[0])*P.nverts)) rt_fail("r2d_reduce changed the polygon");
    ld A=0; for(int v=0;v<P.nverts;++v) A=fmaxl(A,fmaxl(fabsl(P2(&P,v)[0]),fabsl(P2(&P,v)[1])));
    int q=0; for(int c=0;c<=o;++c) for(int i=c;i>=0;--i,++q) if(!(fabsl(g[q]-m[q])<=tolm(o)*(sc[q]+A*A*ipow(A,c))+1e-290L)) rt_fail("moment x^%d y^%d is %.17g, expected %.17Lg",i,c-i,g[q],m[q]);
    free(g); rt_count(P.nverts>0); } }
static void t_mom3(void){ static r3d_poly P,Q; static ld m[NM3(MAXO)],sc[NM3(MAXO)];
  while(!rt_time_up()){ int o=coin(12)?rndi(0,6):rndi(0,4),n=NM3(o); double*g=malloc(sizeof(double)*n); for(int i=0;i<n;++i) g[i]=1e77;
    if(coin(20)) memset(&P,0,sizeof P); else { if(coin(25)) gen_prism(&P,R3D_MAX_VERTS/2,1); else gen_poly3(&P,60,1); if(!simple3p(&P)||valid3p(&P)){ free(g); continue; } }
    if(coin(6)){ double f=exp(rndu(-25,8)); r3d_scale(&P,f); }
    if(coin(5)) for(int v=0;v<P.nverts;++v){ int t=P.verts[v].pnbrs[0]; P.verts[v].pnbrs[0]=P.verts[v].pnbrs[1]; P.verts[v].pnbrs[1]=t; }
    if(coin(6)&&P.nverts>0&&P.nverts<=R3D_MAX_VERTS/2){ int k=P.nverts; double d[3]={rndi(-3,3),rndu(-3,3),rndu(-3,3)}; for(int v=0;v<k;++v){ P.verts[v+k]=P.verts[v]; for(int a=0;a<3;++a){ P.verts[v+k].pos.xyz[a]+=d[a]; P.verts[v+k].pnbrs[a]+=k; } } P.nverts=2*k; while(P.nverts>0&&P.nverts<=R3D_MAX_VERTS/2&&coin(2)){ k=P.nverts; for(int v=0;v<k;++v){ P.verts[v+k]=P.verts[v]; for(int a=0;a<3;++a){ P.verts[v+k].pos.xyz[a]+=d[a]; P.verts[v+k].pnbrs[a]+=k; } } P.nverts=2*k; } }
    Q=P; rt_ctx("order %d ",o); ctx_poly3("polyhedron",&P); r3d_reduce(&P,g,o); ld z0[3]={0,0,0}; if(P.nverts) for(int a=0;a<3;++a) z0[a]=P3(&P,0)[a]; poly3_moments(&P,o,z0,m,sc);
    if(P.nverts!=Q.nverts||memcmp(P.verts,Q.verts,sizeof(P.verts[0])*P.nverts)) rt_fail("r3d_reduce changed the polyhedron");
    ld A=0; for(int v=0;v<P.nverts;++v) for(int a=0;a<3;++a) A=fmaxl(A,fabsl(P3(&P,v)[a]));
    int q=0; for(int c=0;c<=o;++c) for(int i=c;i>=0;--i) for(int j=c-i;j>=0;--j,++q) if(!(fabsl(g[q]-m[q])<=tolm(o)*(sc[q]+A*A*A*ipow(A,c))+1e-290L)) rt_fail("moment x^%d y^%d z^%d is %.17g, expected %.17Lg",i,j,c-i-j,g[q],m[q]);
    free(g); rt_count(P.nverts>0); } }
static ld bin(int n,int k){ ld r=1; for(int i=0;i<k;++i) r=r*(n-i)/(i+1); return r; }
static int ix2(int i,int j){ int c=i+j; return c*(c+1)/2+j; }
static int ix3(int i,int j,int k){ int c=i+j+k,s=j+k; return c*(c+1)*(c+2)/6+s*(s+1)/2+k; }
static void t_shift(void){ static r2d_poly P; static r3d_poly S;
  while(!rt_time_up()){ int op=rndi(0,3);
    if(op==0){ int o=rndi(0,MAXO),n=NM2(o); double*g=malloc(sizeof(double)*n),*h=malloc(sizeof(double)*n); r2d_rvec2 vc={{coin(5)?0:rndu(-2,2),coin(5)?0:rndu(-2,2)}}; for(int i=0;i<n;++i) g[i]=h[i]=coin(10)?0:rndu(-3,3); rt_ctx("r2d_shift_moments order %d vc (%.17g,%.17g)",o,vc.x,vc.y); for(int i=0;i<n;++i) rt_ctx_add(" %.17g",g[i]); r2d_shift_moments(g,o,vc);
      for(int i=0;i<=o;++i) for(int j=0;i+j<=o;++j){ ld e=0,sc=0; for(int a=0;a<=i;++a) for(int b=0;b<=j;++b){ ld t=bin(i,a)*bin(j,b)*ipow(vc.x,i-a)*ipow(vc.y,j-b)*h[ix2(a,b)]; e+=t; sc+=fabsl(t); } if(!(fabsl(g[ix2(i,j)]-e)<=1e-12L*sc+1e-280L)) rt_fail("shifted moment x^%d y^%d is %.17g, expected %.17Lg",i,j,g[ix2(i,j)],e); }
      free(g); free(h); rt_count(1); }
    else if(op==1){ int o=rndi(0,6),n=NM3(o); double*g=malloc(sizeof(double)*n),*h=malloc(sizeof(double)*n); r3d_rvec3 vc; for(int k=0;k<3;++k) vc.xyz[k]=coin(5)?0:rndu(-2,2); for(int i=0;i<n;++i) g[i]=h[i]=coin(10)?0:rndu(-3,3); rt_ctx("r3d_shift_moments order %d vc (%.17g,%.17g,%.17g)",o,vc.x,vc.y,vc.z); for(int i=0;i<n;++i) rt_ctx_add(" %.17g",g[i]); r3d_shift_moments(g,o,vc);
      for(int i=0;i<=o;++i) for(int j=0;i+j<=o;++j) for(int k=0;i+j+k<=o;++k){ ld e=0,sc=0; for(int a=0;a<=i;++a) for(int b=0;b<=j;++b) for(int c=0;c<=k;++c){ ld t=bin(i,a)*bin(j,b)*bin(k,c)*ipow(vc.x,i-a)*ipow(vc.y,j-b)*ipow(vc.z,k-c)*h[ix3(a,b,c)]; e+=t; sc+=fabsl(t); } if(!(fabsl(g[ix3(i,j,k)]-e)<=1e-12L*sc+1e-280L)) rt_fail("shifted moment x^%d y^%d z^%d is %.17g, expected %.17Lg",i,j,k,g[ix3(i,j,k)],e); }
      free(g); free(h); rt_count(1); }
    else if(op==2){ gen_poly2(&P,coin(8)?R2D_MAX_VERTS:40,0); r2d_poly*Q=malloc(sizeof *Q); *Q=P; rt_ctx("r2d_poly_center "); ctx_poly2("polygon",&P); r2d_rvec2 c=r2d_poly_center(&P); for(int k=0;k<2;++k){ ld s=0,a=0; for(int v=0;v<P.nverts;++v){ s+=P2(&P,v)[k]; a+=fabsl(P2(&P,v)[k]); } if(!(fabsl(c.xy[k]-s/P.nverts)<=1e-12L*a/P.nverts+1e-290L)) rt_fail("centre coordinate %d is %.17g, mean is %.17Lg",k,c.xy[k],s/P.nverts); } if(memcmp(Q,&P,sizeof P)) rt_fail("r2d_poly_center changed the polygon"); free(Q); rt_count(1); }
    else { gen_poly3(&S,60,1); if(S.nverts<=0) continue; r3d_poly*Q=malloc(sizeof *Q); *Q=S; rt_ctx("r3d_poly_center "); ctx_poly3("polyhedron",&S); r3d_rvec3 c=r3d_poly_center(&S); for(int k=0;k<3;++k){ ld s=0,a=0; for(int v=0;v<S.nverts;++v){ s+=P3(&S,v)[k]; a+=fabsl(P3(&S,v)[k]); } if(!(fabsl(c.xyz[k]-s/S.nverts)<=1e-12L*a/S.nverts+1e-290L)) rt_fail("centre coordinate %d is %.17g, mean is %.17Lg",k,c.xyz[k],s/S.nverts); } if(memcmp(Q,&S,sizeof S)) rt_fail("r3d_poly_center changed the polyhedron"); free(Q); rt_count(1); }
  } }
const struct rt_test rt_tests[]={{"mom2",t_mom2},{"mom3",t_mom3},{"shift",t_shift},{0,0}};
