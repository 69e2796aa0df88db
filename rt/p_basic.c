#include "geom.h"
#include "v2d.h"
#include "v3d.h"
#include "vNd.h"
rNd_real rNd_det(rNd_real mat[RND_DIM][RND_DIM]);
static ld detn(int n,ld a[6][6]){ ld d=1; ld m[6][6]; memcpy(m,a,sizeof m); for(int c=0;c<n;++c){ int p=c; for(int r=c+1;r<n;++r) if(fabsl(m[r][c])>fabsl(m[p][c])) p=r; if(m[p][c]==0) return 0; if(p!=c){ for(int k=0;k<n;++k){ ld t=m[p][k]; m[p][k]=m[c][k]; m[c][k]=t; } d=-d; } d*=m[c][c]; for(int r=c+1;r<n;++r){ ld f=m[r][c]/m[c][c]; for(int k=c;k<n;++k) m[r][k]-=f*m[c][k]; } } return d; }
static ld had(int n,ld a[6][6]){ ld s=1; for(int i=0;i<n;++i){ ld r=0; for(int k=0;k<n;++k) r+=fabsl(a[i][k]); s*=r+1e-3L; } return s; }
static double rco(void){ return coin(40)?rndu(-1e4,1e4):rreal(); }
static void t_orient(void){
  while(!rt_time_up()){
    double v[6][4]; for(int i=0;i<6;++i) for(int k=0;k<4;++k) v[i][k]=rco(); if(coin(4)) for(int i=1;i<6;++i) for(int k=0;k<4;++k) v[i][k]=v[0][k]+rndi(-1,1);
    ld mx=0; for(int i=0;i<5;++i) for(int k=0;k<4;++k) mx=fmaxl(mx,fabsl(v[i][k]));
    rt_ctx("points"); for(int i=0;i<5;++i) rt_ctx_add(" (%.17g,%.17g,%.17g,%.17g)",v[i][0],v[i][1],v[i][2],v[i][3]);
    ld A[6][6]; double f[5]={1,1,2,6,24};
    for(int D=2;D<=4;++D){ for(int i=0;i<D;++i) for(int k=0;k<D;++k) A[i][k]=(ld)v[i+1][k]-v[0][k]; ld e=detn(D,A)/f[D],tol=1e-12L*(had(D,A)+ipow(mx,D))+1e-250L; double g;
      if(D==2){ r2d_rvec2 p[3]; for(int i=0;i<3;++i) for(int k=0;k<2;++k) p[i].xy[k]=v[i][k]; g=r2d_orient(p[0],p[1],p[2]); }
      else if(D==3){ r3d_rvec3 p[4]; for(int i=0;i<4;++i) for(int k=0;k<3;++k) p[i].xyz[k]=v[i][k]; g=r3d_orient(p); }
      else { rNd_rvec p[5]; for(int i=0;i<5;++i) for(int k=0;k<4;++k) p[i].xyz[k]=v[i][k]; g=rNd_orient(p); }
      if(!(fabsl(g-e)<=tol)) rt_fail("signed volume in %dD is %.17g, expected %.17Lg",D,g,e); }
    double M[4][4],M0[4][4]; for(int i=0;i<4;++i) for(int k=0;k<4;++k){ M0[i][k]=M[i][k]=v[i][k]; A[i][k]=M[i][k]; }
    double g=rNd_det(M); ld e=detn(4,A); if(!(fabsl(g-e)<=1e-12L*had(4,A)+1e-250L)) rt_fail("rNd_det is %.17g, determinant of the first four points is %.17Lg",g,e);
    if(memcmp(M,M0,sizeof M)) rt_fail("rNd_det changed its matrix");
    rt_count(1);
  } }
/* ---------------------------------------------------------------- faces */
static void t_faces(void){
  static r3d_poly P; static faces3 F;
  while(!rt_time_up()){
    int op=rndi(0,4);
    if(op==0){ r2d_rvec2 b[2]; r2d_plane f[4]; for(int k=0;k<2;++k){ b[0].xy[k]=rco(); b[1].xy[k]=b[0].xy[k]+rndu(0,3); } rt_ctx("r2d box (%.17g,%.17g)-(%.17g,%.17g)",b[0].x,b[0].y,b[1].x,b[1].y);
      r2d_box_faces_from_verts(f,b); for(int i=0;i<4;++i) if(fabs(f[i].n.x*f[i].n.x+f[i].n.y*f[i].n.y-1)>1e-14) rt_fail("face %d normal (%.17g,%.17g) is not a unit vector",i,f[i].n.x,f[i].n.y);
      for(int t=0;t<20;++t){ double x[2]; int in=1,on=1; for(int k=0;k<2;++k){ x[k]=b[0].xy[k]+rndu(-1,2)*(b[1].xy[k]-b[0].xy[k]+0.01); if(x[k]<b[0].xy[k]||x[k]>b[1].xy[k]) in=0; }
        double m=1e300; for(int i=0;i<4;++i) m=fmin(m,f[i].d+f[i].n.x*x[0]+f[i].n.y*x[1]); double d=1e300; for(int k=0;k<2;++k) d=fmin(d,fmin(x[k]-b[0].xy[k],b[1].xy[k]-x[k]));
        if(fabs(m-d)>1e-9*(1+fabs(x[0])+fabs(x[1]))) rt_fail("point (%.17g,%.17g): smallest face distance %.17g, expected %.17g",x[0],x[1],m,d); (void)in;(void)on; } rt_count(1); }
    else if(op==1){ r3d_rvec3 b[2]; r3d_plane f[6]; for(int k=0;k<3;++k){ b[0].xyz[k]=rco(); b[1].xyz[k]=b[0].xyz[k]+rndu(0,3); } rt_ctx("r3d box (%.17g,%.17g,%.17g)-(%.17g,%.17g,%.17g)",b[0].x,b[0].y,b[0].z,b[1].x,b[1].y,b[1].z);
      r3d_box_faces_from_verts(f,b);
      for(int t=0;t<20;++t){ double x[3]; for(int k=0;k<3;++k) x[k]=b[0].xyz[k]+rndu(-1,2)*(b[1].xyz[k]-b[0].xyz[k]+0.01);
        double m=1e300; for(int i=0;i<6;++i) m=fmin(m,f[i].d+f[i].n.x*x[0]+f[i].n.y*x[1]+f[i].n.z*x[2]); double d=1e300; for(int k=0;k<3;++k) d=fmin(d,fmin(x[k]-b[0].xyz[k],b[1].xyz[k]-x[k]));
        if(fabs(m-d)>1e-9*(1+fabs(x[0])+fabs(x[1])+fabs(x[2]))) rt_fail("point (%.17g,%.17g,%.17g): smallest face distance %.17g, expected %.17g",x[0],x[1],x[2],m,d); } rt_count(1); }
    else if(op==2){ r3d_rvec3 v[4]; r3d_plane f[4]; double s=coin(6)?1e-3:1; for(int i=0;i<4;++i) for(int k=0;k<3;++k) v[i].xyz[k]=s*(coin(8)?rreal():rndu(-2,2)); ld A[6][6]; for(int i=0;i<3;++i) for(int k=0;k<3;++k) A[i][k]=(ld)v[i+1].xyz[k]-v[0].xyz[k]; ld vol=detn(3,A);
      rt_ctx("tet"); ld mx=0; for(int i=0;i<4;++i){ rt_ctx_add(" (%.17g,%.17g,%.17g)",v[i].x,v[i].y,v[i].z); for(int k=0;k<3;++k) mx=fmaxl(mx,fabsl(v[i].xyz[k])); }
      if(mx>1e3||fabsl(vol)<1e-4L*mx*mx*mx) continue;
      r3d_tet_faces_from_verts(f,v); static const int fo[4][3]={{1,2,3},{2,3,0},{3,0,1},{0,1,2}};
      for(int i=0;i<4;++i){ if(fabs(f[i].n.x*f[i].n.x+f[i].n.y*f[i].n.y+f[i].n.z*f[i].n.z-1)>1e-12) rt_fail("face %d normal is not a unit vector: (%.17g,%.17g,%.17g)",i,f[i].n.x,f[i].n.y,f[i].n.z);
        for(int j=0;j<3;++j){ r3d_rvec3 p=v[fo[i][j]]; double r=f[i].d+f[i].n.x*p.x+f[i].n.y*p.y+f[i].n.z*p.z; if(fabs(r)>1e-9*mx) rt_fail("face %d misses its vertex %d by %.17g",i,fo[i][j],r); }
        double r=f[i].d+f[i].n.x*v[i].x+f[i].n.y*v[i].y+f[i].n.z*v[i].z; if((r>0)!=(vol>0)) rt_fail("face %d: opposite vertex at signed distance %.17g of a tetrahedron of signed volume %.17Lg",i,r,vol/6); } rt_count(1); }
    else if(op==3){ int n=coin(3)?rndi(1,4):rndi(1,60); r2d_rvec2*v=malloc(sizeof *v*n); r2d_plane*f=malloc(sizeof *f*n); for(int i=0;i<n;++i) for(int k=0;k<2;++k) v[i].xy[k]=coin(8)?rreal():rndu(-2,2); rt_ctx("polygon of %d vertices",n); for(int i=0;i<n;++i) rt_ctx_add(" (%.17g,%.17g)",v[i].x,v[i].y);
      r2d_poly_faces_from_verts(f,v,n);
      for(int i=0;i<n;++i){ int j=i+1==n?0:i+1; ld ex=(ld)v[j].x-v[i].x,ey=(ld)v[j].y-v[i].y,l=sqrtl(ex*ex+ey*ey); if(l<1e-6L||fabs(v[i].x)+fabs(v[i].y)+fabs(v[j].x)+fabs(v[j].y)>1e4) continue; ld nx=-ey/l,ny=ex/l;
        if(fabsl(f[i].n.x-nx)>1e-8L||fabsl(f[i].n.y-ny)>1e-8L) rt_fail("edge %d: normal (%.17g,%.17g), left-hand unit normal is (%.17Lg,%.17Lg)",i,f[i].n.x,f[i].n.y,nx,ny);
        ld d=-(nx*v[i].x+ny*v[i].y); if(fabsl(f[i].d-d)>1e-7L*(1+fabsl(v[i].x)+fabsl(v[i].y))) rt_fail("edge %d: offset %.17g, expected %.17Lg",i,f[i].d,d); }
      free(v); free(f); rt_count(n>2); }
    else { if(!gen_poly3(&P,120,0)||P.nverts<4||valid3p(&P)||!get_faces(&P,&F)) continue; int nf=F.nf; r3d_rvec3*v=malloc(sizeof *v*P.nverts); for(int i=0;i<P.nverts;++i) v[i]=P.verts[i].pos; r3d_int**fi=malloc(sizeof *fi*nf),*cnt=malloc(sizeof *cnt*nf); int deg=0;
      for(int f=0;f<nf;++f){ cnt[f]=F.off[f+1]-F.off[f]; if(cnt[f]<3) deg=1; fi[f]=malloc(sizeof(int)*cnt[f]); for(int i=0;i<cnt[f];++i) fi[f][i]=F.v[F.off[f]+i]; }
      if(!deg){ r3d_plane*fc=malloc(sizeof *fc*nf); rt_ctx("polyhedron faces of "); ctx_poly3("poly",&P); r3d_poly_faces_from_verts(fc,v,P.nverts,fi,cnt,nf);
        for(int f=0;f<nf;++f){ ld N[3]={0,0,0},mx=1e-3L; for(int i=0;i<cnt[f];++i){ r3d_rvec3 a=v[fi[f][i]],b=v[fi[f][(i+1)%cnt[f]]]; N[0]+=(ld)a.y*b.z-(ld)a.z*b.y; N[1]+=(ld)a.z*b.x-(ld)a.x*b.z; N[2]+=(ld)a.x*b.y-(ld)a.y*b.x; for(int k=0;k<3;++k) mx=fmaxl(mx,fabsl(a.xyz[k])); }
          ld l=sqrtl(N[0]*N[0]+N[1]*N[1]+N[2]*N[2]); ld per=0,mn=1e300L; for(int i=0;i<cnt[f];++i){ r3d_rvec3 a=v[fi[f][i]],b=v[fi[f][(i+1)%cnt[f]]]; ld q=0; for(int k=0;k<3;++k) q+=((ld)a.xyz[k]-b.xyz[k])*((ld)a.xyz[k]-b.xyz[k]); q=sqrtl(q); per+=q; mn=fminl(mn,q); }
          if(mn<1e-3L*mx||l<1e-3L*mx*mx) continue;
          ld worst=0; for(int i=0;i<cnt[f];++i){ ld r=0; for(int k=0;k<3;++k) r+=N[k]/l*((ld)v[fi[f][i]].xyz[k]-v[fi[f][0]].xyz[k]); worst=fmaxl(worst,fabsl(r)); } if(worst>1e-10L*mx) continue;
          if(fabs(fc[f].n.x*fc[f].n.x+fc[f].n.y*fc[f].n.y+fc[f].n.z*fc[f].n.z-1)>1e-9) rt_fail("face %d normal is not a unit vector",f);
          ld dt=0; for(int k=0;k<3;++k) dt+=N[k]/l*fc[f].n.xyz[k]; if(dt<1-1e-6L) rt_fail("face %d: normal (%.17g,%.17g,%.17g), expected (%.17Lg,%.17Lg,%.17Lg)",f,fc[f].n.x,fc[f].n.y,fc[f].n.z,N[0]/l,N[1]/l,N[2]/l);
          for(int i=0;i<cnt[f];++i){ double r=fc[f].d; for(int k=0;k<3;++k) r+=fc[f].n.xyz[k]*v[fi[f][i]].xyz[k]; if(fabsl(r)>1e-5L*mx) rt_fail("face %d misses its corner %d by %.17g",f,fi[f][i],r); } }
        free(fc); }
      for(int f=0;f<nf;++f) free(fi[f]); free(fi); free(cnt); free(v); rt_count(1); }
  } }
/* ---------------------------------------------------------------- constructors */
static void t_init(void){
  static r2d_poly p2; static r3d_poly p3; static rNd_poly pn; static char seen[64];
  while(!rt_time_up()){
    int op=rndi(0,5); double lo[4],hi[4]; for(int k=0;k<4;++k){ lo[k]=rco(); hi[k]=lo[k]+(coin(10)?0:fabs(rreal())); } 
    memset(&p2,coin(2)?0:0x5a,sizeof p2); memset(&p3,coin(2)?0:0x5a,sizeof p3); memset(&pn,coin(2)?0:0x5a,sizeof pn);
    ld w[4]; for(int k=0;k<4;++k) w[k]=(ld)hi[k]-lo[k];
    rt_ctx("constructor %d bounds (%.17g,%.17g,%.17g,%.17g)-(%.17g,%.17g,%.17g,%.17g)",op,lo[0],lo[1],lo[2],lo[3],hi[0],hi[1],hi[2],hi[3]);
    if(op==0){ r2d_rvec2 b[2]; for(int k=0;k<2;++k){ b[0].xy[k]=lo[k]; b[1].xy[k]=hi[k]; } r2d_init_box(&p2,b); const char*e; if(p2.nverts!=4) rt_fail("r2d_init_box: %d vertices",p2.nverts); if((e=valid2p(&p2))) rt_fail("r2d_init_box: %s",e);
      memset(seen,0,64); for(int v=0;v<4;++v){ int c=0; for(int k=0;k<2;++k){ if(p2.verts[v].pos.xy[k]==hi[k]&&p2.verts[v].pos.xy[k]!=lo[k]) c|=1<<k; else if(p2.verts[v].pos.xy[k]!=lo[k]) rt_fail("r2d_init_box: vertex %d is no corner",v); } seen[c]++; }
      if(w[0]>0&&w[1]>0) for(int c=0;c<4;++c) if(seen[c]!=1) rt_fail("r2d_init_box: corner %d occurs %d times",c,seen[c]);
      for(int v=0;v<4;++v){ double*a=P2(&p2,v),*b2=P2(&p2,p2.verts[v].pnbrs[0]),*c=P2(&p2,p2.verts[v].pnbrs[1]); ld cr=((ld)b2[0]-a[0])*((ld)c[1]-a[1])-((ld)b2[1]-a[1])*((ld)c[0]-a[0]); if(!close_to((double)cr,w[0]*w[1],0,1e-9)) rt_fail("r2d_init_box: vertex %d is not a counter-clockwise right angle",v); } rt_count(1); }
    else if(op==1){ r3d_rvec3 b[2]; for(int k=0;k<3;++k){ b[0].xyz[k]=lo[k]; b[1].xyz[k]=hi[k]; } r3d_init_box(&p3,b); const char*e; if(p3.nverts!=8) rt_fail("r3d_init_box: %d vertices",p3.nverts); if((e=valid3p(&p3))) rt_fail("r3d_init_box: %s",e);
      memset(seen,0,64); for(int v=0;v<8;++v){ int c=0; for(int k=0;k<3;++k){ if(P3(&p3,v)[k]==hi[k]&&hi[k]!=lo[k]) c|=1<<k; else if(P3(&p3,v)[k]!=lo[k]) rt_fail("r3d_init_box: vertex %d is no corner",v); } seen[c]++; }
      if(w[0]>0&&w[1]>0&&w[2]>0) for(int c=0;c<8;++c) if(seen[c]!=1) rt_fail("r3d_init_box: corner %d occurs %d times",c,seen[c]);
      for(int v=0;v<8;++v){ ld A[6][6]; for(int q=0;q<3;++q) for(int k=0;k<3;++k) A[q][k]=(ld)P3(&p3,p3.verts[v].pnbrs[q])[k]-P3(&p3,v)[k]; ld d=detn(3,A); if(fabsl(d+w[0]*w[1]*w[2])>1e-9L*w[0]*w[1]*w[2]) rt_fail("r3d_init_box: edges of vertex %d have orientation %.17Lg, expected %.17Lg",v,d,-w[0]*w[1]*w[2]); }
      static faces3 F; if(!get_faces(&p3,&F)||F.nf!=6) rt_fail("r3d_init_box: does not have six faces"); rt_count(1); }
    else if(op==2){ rNd_rvec b[2]; for(int k=0;k<4;++k){ b[0].xyz[k]=lo[k]; hi[k]=lo[k]+fabs(rreal())+0.1; b[1].xyz[k]=hi[k]; } rNd_init_box(&pn,b); if(pn.nverts!=16||pn.nfaces!=6) rt_fail("rNd_init_box: %d vertices %d faces",pn.nverts,pn.nfaces);
      memset(seen,0,64); int tag[16]; for(int v=0;v<16;++v){ int c=0; for(int k=0;k<4;++k){ double x=pn.verts[v].pos.xyz[k]; if(x==hi[k]) c|=1<<k; else if(x!=lo[k]) rt_fail("rNd_init_box: vertex %d is no corner",v); } tag[v]=c; if(seen[c]++) rt_fail("rNd_init_box: corner repeated"); }
      int id[16]; memset(id,-1,sizeof id); for(int v=0;v<16;++v) for(int i=0;i<4;++i){ int t=pn.verts[v].pnbrs[i]; if(t<0||t>15) rt_fail("rNd_init_box: neighbour out of range"); int x=tag[v]^tag[t]; if(x==0||(x&(x-1))) rt_fail("rNd_init_box: edge %d-%d is no box edge",v,t);
        for(int j=0;j<4;++j) if(j!=i){ int t2=pn.verts[v].pnbrs[j]; if(t2==t) rt_fail("rNd_init_box: doubled edge"); int y=x|(tag[v]^tag[t2&15]); int f=pn.verts[v].finds[i][j]; if(f<0||f>=6) rt_fail("rNd_init_box: face number %d",f); if(id[y]<0) id[y]=f; else if(id[y]!=f) rt_fail("rNd_init_box: face of vertex %d slots %d,%d numbered %d and %d",v,i,j,f,id[y]); } }
      for(int a=0;a<16;++a) for(int c=0;c<a;++c) if(id[a]>=0&&id[a]==id[c]) rt_fail("rNd_init_box: two axis pairs share face number %d",id[a]); rt_count(1); }
    else if(op==3){ r3d_rvec3 v[4]; for(int i=0;i<4;++i) for(int k=0;k<3;++k) v[i].xyz[k]=rndu(-2,2)*(coin(5)?50:1); rt_ctx_add(" tet"); for(int i=0;i<4;++i) rt_ctx_add(" (%.17g,%.17g,%.17g)",v[i].x,v[i].y,v[i].z); r3d_init_tet(&p3,v); if(p3.nverts!=4) rt_fail("r3d_init_tet: %d vertices",p3.nverts); const char*e; if((e=valid3p(&p3))) rt_fail("r3d_init_tet: %s",e);
      int m=0; for(int i=0;i<4;++i){ int h=0; for(int u=0;u<4;++u) if(!memcmp(&v[i],&p3.verts[u].pos,sizeof v[i])) h++; if(h!=1) rt_fail("r3d_init_tet: given point %d occurs %d times",i,h); m++; }
      if(!simple3p(&p3)) rt_fail("r3d_init_tet: neighbours of a vertex are not distinct");
      ld B[6][6]; for(int q=0;q<3;++q) for(int k=0;k<3;++k) B[q][k]=(ld)v[q+1].xyz[k]-v[0].xyz[k]; ld vol=detn(3,B),hd=had(3,B);
      for(int u=0;u<4;++u){ ld A[6][6]; for(int q=0;q<3;++q) for(int k=0;k<3;++k) A[q][k]=(ld)P3(&p3,p3.verts[u].pnbrs[q])[k]-P3(&p3,u)[k]; ld d=detn(3,A); if(fabsl(d+vol)>1e-10L*(hd+had(3,A))) rt_fail("r3d_init_tet: edges of vertex %d have orientation %.17Lg, expected %.17Lg",u,d,-vol); } rt_count(1); }
    else if(op==4){ rNd_rvec v[5]; for(int i=0;i<5;++i) for(int k=0;k<4;++k) v[i].xyz[k]=rndu(-2,2); rNd_init_simplex(&pn,v); if(pn.nverts!=5||pn.nfaces!=10) rt_fail("rNd_init_simplex: %d vertices %d faces",pn.nverts,pn.nfaces); int at[5];
      for(int i=0;i<5;++i){ int h=0; for(int u=0;u<5;++u) if(!memcmp(&v[i],&pn.verts[u].pos,sizeof v[i])) h++,at[i]=u; if(h!=1) rt_fail("rNd_init_simplex: given point %d occurs %d times",i,h); }
      int id[32]; memset(id,-1,sizeof id); for(int u=0;u<5;++u) for(int i=0;i<4;++i){ int t=pn.verts[u].pnbrs[i]; if(t<0||t>4||t==u) rt_fail("rNd_init_simplex: neighbour %d of vertex %d is %d",i,u,t); for(int j=0;j<4;++j) if(j!=i){ int t2=pn.verts[u].pnbrs[j]; if(t2==t) rt_fail("rNd_init_simplex: doubled edge"); int y=(1<<u)|(1<<t)|(1<<(t2&7)),f=pn.verts[u].finds[i][j]; if(f<0||f>=10) rt_fail("rNd_init_simplex: face number %d",f); y&=31; if(id[y]<0) id[y]=f; else if(id[y]!=f) rt_fail("rNd_init_simplex: face numbered %d and %d",f,id[y]); } }
      for(int a=0;a<32;++a) for(int c=0;c<a;++c) if(id[a]>=0&&id[a]==id[c]) rt_fail("rNd_init_simplex: two faces share number %d",id[a]); (void)at; rt_count(1); }
    else { int n=rint_any(0,R2D_MAX_VERTS); r2d_rvec2*v=malloc(sizeof *v*(n+1)); for(int i=0;i<n;++i) for(int k=0;k<2;++k) v[i].xy[k]=rco(); rt_ctx("r2d_init_poly of %d vertices",n); r2d_init_poly(&p2,v,n); if(p2.nverts!=n) rt_fail("r2d_init_poly: %d vertices",p2.nverts);
      for(int i=0;i<n;++i){ if(memcmp(&p2.verts[i].pos,&v[i],sizeof v[i])) rt_fail("r2d_init_poly: vertex %d moved",i); if(p2.verts[i].pnbrs[0]!=(i+1==n?0:i+1)||p2.verts[i].pnbrs[1]!=(i==0?n-1:i-1)) rt_fail("r2d_init_poly: vertex %d of %d is linked to %d and %d",i,n,p2.verts[i].pnbrs[0],p2.verts[i].pnbrs[1]); }
      free(v); rt_count(n>0); }
  } }
/* ---------------------------------------------------------------- index boxes */
static ld brute_in(int D,int n,double (*pos)[4],const double*x){ (void)D;(void)n;(void)pos;(void)x; return 0; }
static void t_ibox(void){
  static r2d_poly p2,q2,s2; static r3d_poly p3,q3,s3; static rNd_poly pn,qn,sn; (void)brute_in;
  while(!rt_time_up()){
    int D=rndi(2,4); double d[4]; for(int k=0;k<4;++k) d[k]=coin(4)?1:rndu(0.05,3); 
    int n=0; 
    if(D==2){ gen_poly2(&p2,60,1); n=p2.nverts; q2=p2; }
    else if(D==3){ if(!gen_poly3(&p3,100,0)) continue; n=p3.nverts; q3=p3; }
    else { rNd_rvec b[2],v[5]; if(coin(2)){ for(int k=0;k<4;++k){ b[0].xyz[k]=rreal(); if(fabs(b[0].xyz[k])>100) b[0].xyz[k]=1; b[1].xyz[k]=b[0].xyz[k]+rndu(0.2,4); } rNd_init_box(&pn,b); } else { for(int i=0;i<5;++i) for(int k=0;k<4;++k) v[i].xyz[k]=rndu(-3,3); rNd_init_simplex(&pn,v); } n=pn.nverts; qn=pn; }
    if(n<=0) continue;
#define X(v,k) (D==2?q2.verts[v].pos.xy[k]:D==3?q3.verts[v].pos.xyz[k]:qn.verts[v].pos.xyz[k])
    int ib[2][4]; rt_ctx("%dD polytope of %d vertices, d=(%.17g,%.17g,%.17g,%.17g)",D,n,d[0],d[1],d[2],d[3]); for(int v=0;v<n&&v<30;++v){ rt_ctx_add(" ("); for(int k=0;k<D;++k) rt_ctx_add("%.17g ",X(v,k)); rt_ctx_add(")"); }
    if(D==2){ r2d_dvec2 b[2]; r2d_rvec2 dd={{d[0],d[1]}}; r2d_get_ibox(&p2,b,dd); for(int s=0;s<2;++s) for(int k=0;k<2;++k) ib[s][k]=b[s].ij[k]; if(memcmp(&p2,&q2,sizeof p2)) rt_fail("r2d_get_ibox changed the polygon"); }
    else if(D==3){ r3d_dvec3 b[2]; r3d_rvec3 dd={{d[0],d[1],d[2]}}; r3d_get_ibox(&p3,b,dd); for(int s=0;s<2;++s) for(int k=0;k<3;++k) ib[s][k]=b[s].ijk[k]; if(memcmp(&p3,&q3,sizeof p3)) rt_fail("r3d_get_ibox changed the polyhedron"); }
    else { rNd_dvec b[2]; rNd_rvec dd; for(int k=0;k<4;++k) dd.xyz[k]=d[k]; rNd_get_ibox(&pn,b,dd); for(int s=0;s<2;++s) for(int k=0;k<4;++k) ib[s][k]=b[s].ijk[k]; if(memcmp(&pn,&qn,sizeof pn)) rt_fail("rNd_get_ibox changed the polytope"); }
    for(int k=0;k<D;++k){ double mn=1e300,mx=-1e300; for(int v=0;v<n;++v){ mn=fmin(mn,X(v,k)); mx=fmax(mx,X(v,k)); } if(ib[0][k]!=(int)floor(mn/d[k])||ib[1][k]!=(int)ceil(mx/d[k])) rt_fail("get_ibox axis %d: [%d,%d), the vertices need [%d,%d)",k,ib[0][k],ib[1][k],(int)floor(mn/d[k]),(int)ceil(mx/d[k])); }
    /* clamp */
    int cb[2][4],nb[2][4]; for(int k=0;k<D;++k){ int w=ib[1][k]-ib[0][k]; int z=rndi(0,7); cb[0][k]=z==0?ib[0][k]:ib[0][k]+rndi(-2,w); cb[1][k]=z==1?ib[1][k]:cb[0][k]+rndi(1,w+2); if(z==2){ cb[0][k]=ib[0][k]-1; cb[1][k]=ib[1][k]+1; } if(coin(25)){ cb[0][k]=ib[1][k]; cb[1][k]=ib[1][k]+2; } if(coin(25)){ cb[1][k]=ib[0][k]; cb[0][k]=cb[1][k]-2; } }
    rt_ctx_add(" ibox"); for(int k=0;k<D;++k) rt_ctx_add(" [%d,%d)",ib[0][k],ib[1][k]); rt_ctx_add(" clampbox"); for(int k=0;k<D;++k) rt_ctx_add(" [%d,%d)",cb[0][k],cb[1][k]);
    int empty=0; for(int k=0;k<D;++k) if(ib[1][k]<=cb[0][k]||ib[0][k]>=cb[1][k]) empty=1;
    int nv;
    if(D==2){ r2d_dvec2 b[2],c[2]; r2d_rvec2 dd={{d[0],d[1]}}; for(int s=0;s<2;++s) for(int k=0;k<2;++k){ b[s].ij[k]=ib[s][k]; c[s].ij[k]=cb[s][k]; } r2d_clamp_ibox(&p2,b,c,dd); for(int s=0;s<2;++s) for(int k=0;k<2;++k){ nb[s][k]=b[s].ij[k]; if(c[s].ij[k]!=cb[s][k]) rt_fail("clampbox changed"); } nv=p2.nverts; }
    else if(D==3){ r3d_dvec3 b[2],c[2]; r3d_rvec3 dd={{d[0],d[1],d[2]}}; for(int s=0;s<2;++s) for(int k=0;k<3;++k){ b[s].ijk[k]=ib[s][k]; c[s].ijk[k]=cb[s][k]; } r3d_clamp_ibox(&p3,b,c,dd); for(int s=0;s<2;++s) for(int k=0;k<3;++k){ nb[s][k]=b[s].ijk[k]; if(c[s].ijk[k]!=cb[s][k]) rt_fail("clampbox changed"); } nv=p3.nverts; }
    else { rNd_dvec b[2],c[2]; rNd_rvec dd; for(int k=0;k<4;++k) dd.xyz[k]=d[k]; for(int s=0;s<2;++s) for(int k=0;k<4;++k){ b[s].ijk[k]=ib[s][k]; c[s].ijk[k]=cb[s][k]; } rNd_clamp_ibox(&pn,b,c,dd); for(int s=0;s<2;++s) for(int k=0;k<4;++k){ nb[s][k]=b[s].ijk[k]; if(c[s].ijk[k]!=cb[s][k]) rt_fail("clampbox changed"); } nv=pn.nverts; }
    for(int k=0;k<D;++k){ int e0=empty?0:(ib[0][k]>cb[0][k]?ib[0][k]:cb[0][k]),e1=empty?0:(ib[1][k]<cb[1][k]?ib[1][k]:cb[1][k]); if(nb[0][k]!=e0||nb[1][k]!=e1) rt_fail("clamped box axis %d is [%d,%d), expected [%d,%d)",k,nb[0][k],nb[1][k],e0,e1); }
    if(empty){ if(nv!=0) rt_fail("index box and clamp box are disjoint but %d vertices remain",nv); rt_count(1); continue; }
    /* the polytope must be its intersection with the clamp box: same as clipping by every clamp face */
    if(D==2){ s2=q2; r2d_plane h[4]; int m=0; for(int k=0;k<2;++k){ memset(&h[m],0,sizeof h[m]); h[m].n.xy[k]=1; h[m].d=-cb[0][k]*d[k]; m++; memset(&h[m],0,sizeof h[m]); h[m].n.xy[k]=-1; h[m].d=cb[1][k]*d[k]; m++; } r2d_clip(&s2,h,4); ld a[3],b[3],sc[3]; poly2_moments(&p2,1,0,a,sc); poly2_moments(&s2,1,0,b,sc); for(int q=0;q<3;++q) if(fabsl(a[q]-b[q])>1e-7L*(sc[q]+1e-3L)) rt_fail("moment %d after clamping is %.17Lg, polygon within the clamp box has %.17Lg",q,a[q],b[q]); }
    else if(D==3){ s3=q3; r3d_plane h[6]; int m=0; for(int k=0;k<3;++k){ memset(&h[m],0,sizeof h[m]); h[m].n.xyz[k]=1; h[m].d=-cb[0][k]*d[k]; m++; memset(&h[m],0,sizeof h[m]); h[m].n.xyz[k]=-1; h[m].d=cb[1][k]*d[k]; m++; } if(!r3d_clip(&s3,h,6)) continue; ld a[4],b[4],sc[4]; poly3_moments(&p3,1,0,a,sc); poly3_moments(&s3,1,0,b,sc); for(int q=0;q<4;++q) if(fabsl(a[q]-b[q])>1e-7L*(sc[q]+1e-3L)) rt_fail("moment %d after clamping is %.17Lg, polyhedron within the clamp box has %.17Lg",q,a[q],b[q]); }
    else { sn=qn; rNd_plane h[8]; int m=0; for(int k=0;k<4;++k){ memset(&h[m],0,sizeof h[m]); h[m].n.xyz[k]=1; h[m].d=-cb[0][k]*d[k]; m++; memset(&h[m],0,sizeof h[m]); h[m].n.xyz[k]=-1; h[m].d=cb[1][k]*d[k]; m++; } rNd_clip(&sn,h,8); double a,b; rNd_reduce(&pn,&a,0); rNd_reduce(&sn,&b,0); if(fabs(a-b)>1e-7*(fabs(b)+1)) rt_fail("hypervolume after clamping is %.17g, polytope within the clamp box has %.17g",a,b); }
    for(int v=0;v<nv;++v) for(int k=0;k<D;++k){ double x=D==2?p2.verts[v].pos.xy[k]:D==3?p3.verts[v].pos.xyz[k]:pn.verts[v].pos.xyz[k]; if(x<nb[0][k]*d[k]-1e-9*(1+fabs(x))||x>nb[1][k]*d[k]+1e-9*(1+fabs(x))) rt_fail("vertex %d coordinate %d = %.17g lies outside the clamped box",v,k,x); }
    rt_count(1);
  } }
const struct rt_test rt_tests[]={{"orient",t_orient},{"faces",t_faces},{"init",t_init},{"ibox",t_ibox},{0,0}};
