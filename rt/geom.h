/* independent geometry for the oracles: extended precision, written from the definitions */
#ifndef GEOM_H
#define GEOM_H
#include "rt.h"
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#define P2(p,v) ((p)->verts[v].pos.xy)
#define P3(p,v) ((p)->verts[v].pos.xyz)
#define NM2(o) (((o)+1)*((o)+2)/2)
#define NM3(o) (((o)+1)*((o)+2)*((o)+3)/6)
/* Gauss-Legendre on [0,1] */
static ld gl_x[24][24], gl_w[24][24];
static void gl_init(void){ static int done; if(done) return; done=1;
  for(int n=1;n<24;++n) for(int i=0;i<n;++i){ ld x=cosl(3.14159265358979323846264338327950288L*(i+0.75L)/(n+0.5L)),dp=1;
    for(int it=0;it<100;++it){ ld p0=1,p1=x; for(int k=2;k<=n;++k){ ld p2=((2*k-1)*x*p1-(k-1)*p0)/k; p0=p1; p1=p2; } if(n==1){p1=x;p0=1;} dp=n*(x*p1-p0)/(x*x-1); ld dx=p1/dp; x-=dx; if(fabsl(dx)<1e-19L) break; }
    gl_x[n][i]=(1+x)/2; gl_w[n][i]=1/((1-x*x)*dp*dp); } }
static inline ld ipow(ld x,int n){ ld r=1; while(n-->0) r*=x; return r; }
/* add the signed moments of triangle (c,a,b) */
static void tri_moments(const ld*c,const ld*a,const ld*b,int ord,ld*m,ld*sc){ gl_init();
  int n=ord/2+2; ld cr=(a[0]-c[0])*(b[1]-c[1])-(a[1]-c[1])*(b[0]-c[0]);
  for(int i=0;i<n;++i) for(int j=0;j<n;++j){ ld s=gl_x[n][i],t=gl_x[n][j],w=gl_w[n][i]*gl_w[n][j]*s*cr; ld P[2]; for(int k=0;k<2;++k) P[k]=c[k]+s*((a[k]-c[k])+t*(b[k]-a[k]));
    int q=0; for(int o=0;o<=ord;++o) for(int x=o;x>=0;--x){ ld v=w*ipow(P[0],x)*ipow(P[1],o-x); m[q]+=v; if(sc) sc[q]+=fabsl(v); ++q; } } }
static void tet_moments(const ld*c,const ld*a,const ld*b,const ld*d,int ord,ld*m,ld*sc){ gl_init();
  int n=ord/2+2; ld e[3][3]; for(int k=0;k<3;++k){ e[0][k]=a[k]-c[k]; e[1][k]=b[k]-c[k]; e[2][k]=d[k]-c[k]; }
  ld det=e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1])-e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0])+e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]);
  for(int i=0;i<n;++i) for(int j=0;j<n;++j) for(int l=0;l<n;++l){ ld s=gl_x[n][i],t=gl_x[n][j],r=gl_x[n][l],w=gl_w[n][i]*gl_w[n][j]*gl_w[n][l]*s*s*t*det; ld P[3];
    for(int k=0;k<3;++k) P[k]=c[k]+s*(e[0][k]+t*((e[1][k]-e[0][k])+r*(e[2][k]-e[1][k])));
    int q=0; for(int o=0;o<=ord;++o) for(int x=o;x>=0;--x) for(int y=o-x;y>=0;--y){ ld v=w*ipow(P[0],x)*ipow(P[1],y)*ipow(P[2],o-x-y); m[q]+=v; if(sc) sc[q]+=fabsl(v); ++q; } } }
/* moments of a polygon from its vertex links; c is the fan apex */
static void poly2_moments(const r2d_poly*p,int ord,const ld*c0,ld*m,ld*sc){ ld z[2]={0,0}; const ld*c=c0?c0:z; for(int q=0;q<NM2(ord);++q){ m[q]=0; if(sc)sc[q]=0; }
  for(int v=0;v<p->nverts;++v){ int w=p->verts[v].pnbrs[0]; if(w<0||w>=p->nverts) continue; ld a[2]={P2(p,v)[0],P2(p,v)[1]},b[2]={P2(p,w)[0],P2(p,w)[1]}; tri_moments(c,a,b,ord,m,sc); } }
/* face loops of a polyhedron: (v,np) -> next half-edge */
static int he_next(const r3d_poly*p,int v,int np,int*nv,int*nnp){ int t=p->verts[v].pnbrs[np]; if(t<0||t>=p->nverts) return 0; int b; for(b=0;b<3;++b) if(p->verts[t].pnbrs[b]==v) break; if(b==3) return 0; *nv=t; *nnp=(b+1)%3; return 1; }
typedef struct { int nf; int off[3*R3D_MAX_VERTS+1]; int v[3*R3D_MAX_VERTS]; } faces3;
static int get_faces(const r3d_poly*p,faces3*f){ static char mk[R3D_MAX_VERTS][3]; memset(mk,0,sizeof mk); f->nf=0; f->off[0]=0; int tot=0;
  for(int v=0;v<p->nverts;++v) for(int q=0;q<3;++q) if(!mk[v][q]){ int a=v,b=q; do{ if(mk[a][b]) return 0; mk[a][b]=1; f->v[tot++]=a; int na,nb; if(!he_next(p,a,b,&na,&nb)) return 0; a=na; b=nb; }while(!(a==v&&b==q)); f->off[++f->nf]=tot; }
  return 1; }
static void poly3_moments(const r3d_poly*p,int ord,const ld*c0,ld*m,ld*sc){ static faces3 F; ld z[3]={0,0,0}; const ld*c=c0?c0:z; for(int q=0;q<NM3(ord);++q){ m[q]=0; if(sc)sc[q]=0; }
  if(p->nverts<=0||!get_faces(p,&F)) return;
  for(int f=0;f<F.nf;++f){ int*L=F.v+F.off[f],n=F.off[f+1]-F.off[f]; for(int i=1;i+1<n;++i){ ld A[3][3]; int id[3]={L[0],L[i],L[i+1]}; for(int q=0;q<3;++q) for(int k=0;k<3;++k) A[q][k]=P3(p,id[q])[k]; tet_moments(c,A[0],A[2],A[1],ord,m,sc); } } }
/* --- validity of the vertex graph */
static const char*valid2p(const r2d_poly*p){ static char b[200]; if(p->nverts<0||p->nverts>R2D_MAX_VERTS){ sprintf(b,"vertex count %d",p->nverts); return b; }
  for(int v=0;v<p->nverts;++v) for(int q=0;q<2;++q){ int t=p->verts[v].pnbrs[q]; if(t<0||t>=p->nverts){ sprintf(b,"link %d of vertex %d is %d with %d vertices",q,v,t,p->nverts); return b; } if(p->verts[t].pnbrs[1-q]!=v){ sprintf(b,"link %d of vertex %d goes to %d, which does not link back",q,v,t); return b; } }
  return 0; }
static const char*valid3p(const r3d_poly*p){ static char b[200]; static faces3 F; if(p->nverts<0||p->nverts>R3D_MAX_VERTS){ sprintf(b,"vertex count %d",p->nverts); return b; }
  for(int v=0;v<p->nverts;++v) for(int q=0;q<3;++q){ int t=p->verts[v].pnbrs[q]; if(t<0||t>=p->nverts){ sprintf(b,"neighbour %d of vertex %d is %d with %d vertices",q,v,t,p->nverts); return b; } int k=0; for(int r=0;r<3;++r) k+=p->verts[t].pnbrs[r]==v; int k2=0; for(int r=0;r<3;++r) k2+=p->verts[v].pnbrs[r]==t; if(k!=k2){ sprintf(b,"edge %d-%d is not mutual",v,t); return b; } }
  return 0; }
/* --- generators */
static double gscale(void){ switch(rndi(0,5)){ case 0: return rndu(0.01,0.1); case 1: return rndu(5,50); default: return rndu(0.5,3); } }
/* polygon: convex or star shaped, counter-clockwise */
static void gen_poly2(r2d_poly*p,int maxn,int convex_only){ static r2d_rvec2 V[R2D_MAX_VERTS]; memset(p,0,sizeof *p); int n; double S=gscale(),cx=coin(2)?0:rndu(-4,4),cy=coin(2)?0:rndu(-4,4); int cvx=convex_only||coin(2);
  if(coin(8)){ r2d_rvec2 b[2]; for(int k=0;k<2;++k){ b[0].xy[k]=rndi(-3,2); b[1].xy[k]=b[0].xy[k]+rndi(1,4); } r2d_init_box(p,b); return; }
  n=coin(12)?maxn:coin(3)?rndi(3,maxn):rndi(3,maxn<14?maxn:14); double a0=rndu(0,6.3),ell=rndu(0.2,1);
  for(int i=0;i<n;++i){ double t=a0+6.283185307179586*(i+(cvx?0:rndu(-.3,.3)))/n, r=cvx?1:rndu(0.15,1.2); V[i].x=cx+S*r*cos(t); V[i].y=cy+S*ell*r*sin(t); if(coin(40)&&n<20){ V[i].x=rint(V[i].x); } }
  if(coin(4)&&n<=20) for(int i=0;i<n;++i){ V[i].x=rint(V[i].x*4)/4; V[i].y=rint(V[i].y*4)/4; }
  if(coin(3)){ int k=rndi(0,n-1); static r2d_rvec2 W[R2D_MAX_VERTS]; for(int i=0;i<n;++i) W[i]=V[(i+k)%n]; memcpy(V,W,sizeof(V[0])*n); }
  r2d_init_poly(p,V,n);
  if(coin(3)){ /* scramble the vertex numbering */ static r2d_poly q; q=*p; int perm[R2D_MAX_VERTS]; for(int i=0;i<n;++i) perm[i]=i; for(int i=n-1;i>0;--i){ int j=rndi(0,i),t=perm[i]; perm[i]=perm[j]; perm[j]=t; }
    for(int i=0;i<n;++i){ p->verts[perm[i]].pos=q.verts[i].pos; for(int k=0;k<2;++k) p->verts[perm[i]].pnbrs[k]=perm[q.verts[i].pnbrs[k]]; } }
}
static r2d_plane gen_plane2(const r2d_poly*p){ r2d_plane h; double t=coin(4)?rndi(0,7)*0.78539816339744828:rndu(0,6.3); h.n.x=cos(t); h.n.y=sin(t); if(fabs(h.n.x)<1e-9)h.n.x=0; if(fabs(h.n.y)<1e-9)h.n.y=0;
  double c[2]={0,0}; if(p->nverts>0){ double w=0; for(int i=0;i<3;++i){ int v=rndi(0,p->nverts-1); double u=rnd01(); w+=u; c[0]+=u*P2(p,v)[0]; c[1]+=u*P2(p,v)[1]; } c[0]/=w+1e-300; c[1]/=w+1e-300; if(coin(5)){ int v=rndi(0,p->nverts-1); c[0]=P2(p,v)[0]; c[1]=P2(p,v)[1]; } }
  h.d=-(h.n.x*c[0]+h.n.y*c[1]); if(coin(12)) h.d+=rndu(-3,3); if(coin(10)){ double s=coin(2)?rndu(0.1,5):exp(rndu(-8,8)); h.n.x*=s; h.n.y*=s; h.d*=s; } return h; }
static r3d_plane gen_plane3(const r3d_poly*p){ r3d_plane h; if(coin(4)){ h.n.x=h.n.y=h.n.z=0; h.n.xyz[rndi(0,2)]=coin(2)?1:-1; } else { double l=0; for(int k=0;k<3;++k){ h.n.xyz[k]=coin(6)?0:rndu(-1,1); l+=h.n.xyz[k]*h.n.xyz[k]; } if(l<1e-6){ h.n.x=1; l=0; for(int k=0;k<3;++k) l+=h.n.xyz[k]*h.n.xyz[k]; } for(int k=0;k<3;++k) h.n.xyz[k]/=sqrt(l); }
  double c[3]={0,0,0}; if(p->nverts>0){ double w=0; for(int i=0;i<4;++i){ int v=rndi(0,p->nverts-1); double u=rnd01(); w+=u; for(int k=0;k<3;++k) c[k]+=u*P3(p,v)[k]; } for(int k=0;k<3;++k) c[k]/=w+1e-300; if(coin(6)){ int v=rndi(0,p->nverts-1); for(int k=0;k<3;++k) c[k]=P3(p,v)[k]; } }
  h.d=0; for(int k=0;k<3;++k) h.d-=h.n.xyz[k]*c[k]; if(coin(12)) h.d+=rndu(-3,3); if(coin(10)){ double s=coin(2)?rndu(0.1,5):exp(rndu(-8,8)); for(int k=0;k<3;++k) h.n.xyz[k]*=s; h.d*=s; } return h; }
/* prism over an n-gon (convex or star shaped base) */
static void gen_prism(r3d_poly*p,int n,int cvx){ memset(p,0,sizeof *p); double S=gscale(),h=rndu(0.3,2)*S,a0=rndu(0,6.3),c[3]; for(int k=0;k<3;++k) c[k]=coin(2)?0:rndu(-3,3); p->nverts=2*n;
  for(int i=0;i<n;++i){ double t=a0+6.283185307179586*(i+(cvx?0:rndu(-.3,.3)))/n,r=cvx?1:rndu(0.2,1.2); for(int l=0;l<2;++l){ r3d_vertex*v=&p->verts[i+l*n]; v->pos.x=c[0]+S*r*cos(t); v->pos.y=c[1]+S*r*sin(t); v->pos.z=c[2]+(l?h:0); int nx=(i+1)%n+l*n,pv=(i+n-1)%n+l*n,ot=i+(1-l)*n;
      /* same cyclic order as r3d_init_box: seen from outside */
      v->pnbrs[0]=nx; v->pnbrs[1]=l?pv:ot; v->pnbrs[2]=l?ot:pv; } }
  /* rotate so that nothing is axis aligned */
  if(coin(2)){ r3d_rotate(p,rndu(0,6),0); r3d_rotate(p,rndu(0,6),1); } }
/* bounded tetrahedron / box / prism, optionally cut down by random planes */
static int gen_poly3(r3d_poly*p,int maxv,int allow_nonconvex){ int cvx=1; memset(p,0,sizeof *p);
  switch(rndi(0,5)){ case 0: { r3d_rvec3 b[2]; for(int k=0;k<3;++k){ b[0].xyz[k]=coin(2)?rndi(-3,2):rndu(-3,2); b[1].xyz[k]=b[0].xyz[k]+(coin(2)?rndi(1,4):rndu(0.2,3)); } r3d_init_box(p,b); break; }
    case 1: case 2: { r3d_rvec3 v[4]; double det; do{ for(int i=0;i<4;++i) for(int k=0;k<3;++k) v[i].xyz[k]=coin(3)?rndi(-2,2):rndu(-2,2); double e[3][3]; for(int i=0;i<3;++i) for(int k=0;k<3;++k) e[i][k]=v[i+1].xyz[k]-v[0].xyz[k];
        det=e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1])-e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0])+e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]); }while(fabs(det)<0.05); if(det>0){ r3d_rvec3 t=v[0]; v[0]=v[1]; v[1]=t; } r3d_init_tet(p,v); break; }
    default: { int mn=maxv/2; int n=coin(10)?rndi(3,mn):rndi(3,mn<9?mn:9); cvx=!allow_nonconvex||coin(2); gen_prism(p,n,cvx); } }
  int cuts=coin(3)?0:rndi(0,coin(6)?25:6);
  for(int i=0;i<cuts&&p->nverts>0&&p->nverts<maxv*2/3;++i){ static r3d_poly q; q=*p; r3d_plane h=gen_plane3(p); /* keep a point well inside */ 
     double c[3]={0,0,0}; for(int v=0;v<p->nverts;++v) for(int k=0;k<3;++k) c[k]+=P3(p,v)[k]/p->nverts; double L=sqrt(h.n.x*h.n.x+h.n.y*h.n.y+h.n.z*h.n.z); for(int k=0;k<3;++k) h.n.xyz[k]/=L; h.d/=L; double s=h.d+h.n.x*c[0]+h.n.y*c[1]+h.n.z*c[2]; if(s<0){ for(int k=0;k<3;++k) h.n.xyz[k]*=-1; h.d=-h.d; }
     if(cvx||1){ int cross=0; for(int v=0;v<p->nverts;++v) for(int q2=0;q2<3;++q2){ int t=p->verts[v].pnbrs[q2]; double sv=h.d,st=h.d; for(int k=0;k<3;++k){ sv+=h.n.xyz[k]*P3(p,v)[k]; st+=h.n.xyz[k]*P3(p,t)[k]; } if(sv>=0&&st<0) cross++; } if(p->nverts+cross>R3D_MAX_VERTS) continue; }
     if(!r3d_clip(p,&h,1)||p->nverts<=0||valid3p(p)) { *p=q; } }
  if(coin(4)&&p->nverts>0){ static r3d_poly q; q=*p; int n=p->nverts,perm[R3D_MAX_VERTS]; for(int i=0;i<n;++i) perm[i]=i; for(int i=n-1;i>0;--i){ int j=rndi(0,i),t=perm[i]; perm[i]=perm[j]; perm[j]=t; }
    for(int i=0;i<n;++i){ int r=rndi(0,2); p->verts[perm[i]].pos=q.verts[i].pos; for(int k=0;k<3;++k) p->verts[perm[i]].pnbrs[k]=perm[q.verts[i].pnbrs[(k+r)%3]]; } }
  return cvx; }
static int simple3p(const r3d_poly*p){ for(int v=0;v<p->nverts;++v) for(int q=0;q<3;++q) if(p->verts[v].pnbrs[q]==v||p->verts[v].pnbrs[q]==p->verts[v].pnbrs[(q+1)%3]) return 0; return 1; }
/* --- describe */
static void ctx_poly2(const char*n,const r2d_poly*p){ rt_ctx_add("%s nverts=%d ",n,p->nverts); for(int v=0;v<p->nverts&&v<40;++v) rt_ctx_add("[%d: (%.17g,%.17g) nbrs %d %d]",v,P2(p,v)[0],P2(p,v)[1],p->verts[v].pnbrs[0],p->verts[v].pnbrs[1]); }
static void ctx_poly3(const char*n,const r3d_poly*p){ rt_ctx_add("%s nverts=%d ",n,p->nverts); for(int v=0;v<p->nverts&&v<60;++v) rt_ctx_add("[%d: (%.17g,%.17g,%.17g) nbrs %d %d %d]",v,P3(p,v)[0],P3(p,v)[1],P3(p,v)[2],p->verts[v].pnbrs[0],p->verts[v].pnbrs[1],p->verts[v].pnbrs[2]); }
#endif
