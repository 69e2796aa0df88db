/* rasterise / voxelise: every grid cell receives the moments of the intersection of the input with that cell, added to what it held */
#define rt_tests clip_tests
#include "p_clip.c"
#undef rt_tests
#include "v2d.h"
#include "v3d.h"
#include "vNd.h"
static void tri_in_cell(const ld*c,const ld*a,const ld*b,const ld lo[2],const ld hi[2],int ord,ld*m,ld*sc){ ld P[16][2],Q[16][2]; int n=3; memcpy(P[0],c,sizeof P[0]); memcpy(P[1],a,sizeof P[0]); memcpy(P[2],b,sizeof P[0]);
  for(int k=0;k<2;++k) for(int s=0;s<2;++s){ int q=0; for(int i=0;i<n;++i){ ld*u=P[i],*w=P[(i+1)%n]; ld fu=s?hi[k]-u[k]:u[k]-lo[k],fw=s?hi[k]-w[k]:w[k]-lo[k]; if(fu>=0) memcpy(Q[q++],u,sizeof P[0]); if((fu>=0)!=(fw>=0)){ for(int j=0;j<2;++j) Q[q][j]=(u[j]*fw-w[j]*fu)/(fw-fu); q++; } } n=q; memcpy(P,Q,sizeof P); if(n<3) return; }
  for(int i=1;i+1<n;++i) tri_moments(P[0],P[i],P[i+1],ord,m,sc); }
static int gsz(int big){ static const int s[]={1,2,3,4,5,7,8,9,15,16,17,31,33,63,65}; return coin(3)?rndi(1,big):s[rndi(0,14)]; }
static void t_rast2(void){ static r2d_poly P,K; while(!rt_time_up()){ gen_poly2(&P,coin(15)?60:16,0); int o=coin(3)?rndi(0,3):rndi(0,1),nm=NM2(o); double lo[2]={1e300,1e300},hi[2]={-1e300,-1e300}; for(int v=0;v<P.nverts;++v) for(int k=0;k<2;++k){ lo[k]=fmin(lo[k],P2(&P,v)[k]); hi[k]=fmax(hi[k],P2(&P,v)[k]); }
    if(hi[0]-lo[0]<1e-6||hi[1]-lo[1]<1e-6) continue; r2d_rvec2 d; r2d_dvec2 ib[2],ik[2]; int ex=coin(3); for(int k=0;k<2;++k){ int g=gsz(40); d.xy[k]=coin(4)?0.25*rndi(1,8):(hi[k]-lo[k])/g*rndu(0.9,1.3); if((hi[k]-lo[k])/d.xy[k]>70) d.xy[k]=(hi[k]-lo[k])/70; ib[0].ij[k]=floor(lo[k]/d.xy[k])-(ex?rndi(0,2):0); ib[1].ij[k]=ceil(hi[k]/d.xy[k])+(ex?rndi(0,2):0); if(ib[1].ij[k]<=ib[0].ij[k]) ib[1].ij[k]=ib[0].ij[k]+1; }
    int G[2]={ib[1].i-ib[0].i,ib[1].j-ib[0].j}; if((long)G[0]*G[1]>1500) continue; long N=(long)G[0]*G[1]*nm; double*g=malloc(sizeof(double)*N),*g0=malloc(sizeof(double)*N); for(long i=0;i<N;++i) g[i]=g0[i]=coin(2)?0:rndi(-3,3);
    K=P; memcpy(ik,ib,sizeof ib); int bad=coin(25)?rndi(1,4):0; rt_ctx("r2d_rasterize order %d d=(%.17g,%.17g) ibox (%d,%d)-(%d,%d) ",o,d.x,d.y,ib[0].i,ib[0].j,ib[1].i,ib[1].j); ctx_poly2("poly",&P);
    if(bad){ rt_ctx_add(" invalid call %d",bad); if(bad==1) P.nverts=-rndi(0,2); if(bad==4){ int z=rndi(0,1); ib[1].ij[z]=ib[0].ij[z]-rndi(0,3); } K=P; memcpy(ik,ib,sizeof ib); r2d_rasterize(bad==2?0:&P,ib,bad==3?0:g,d,o); if(memcmp(g,g0,sizeof(double)*N)) rt_fail("r2d_rasterize wrote to the grid although the call is invalid (case %d)",bad); }
    else { r2d_rasterize(&P,ib,g,d,o); ld c[2]={P2(&P,0)[0],P2(&P,0)[1]}; ld A=0; for(int k=0;k<2;++k) A=fmaxl(A,fmaxl(fabs(lo[k]),fabs(hi[k])));
      for(int i=0;i<G[0];++i) for(int j=0;j<G[1];++j){ ld m[10]={0},sc[10]={0},l[2]={(ld)d.x*(ib[0].i+i),(ld)d.y*(ib[0].j+j)},h[2]={(ld)d.x*(ib[0].i+i+1),(ld)d.y*(ib[0].j+j+1)}; for(int v=0;v<P.nverts;++v){ int w=P.verts[v].pnbrs[0]; ld a[2]={P2(&P,v)[0],P2(&P,v)[1]},b[2]={P2(&P,w)[0],P2(&P,w)[1]}; tri_in_cell(c,a,b,l,h,o,m,sc); }
        int q=0; for(int z=0;z<=o;++z) for(int x=z;x>=0;--x,++q){ ld got=(ld)g[nm*((long)i*G[1]+j)+q]-g0[nm*((long)i*G[1]+j)+q]; if(!(fabsl(got-m[q])<=1e-9L*(sc[q]+3)+1e-10L*A*A*ipow(A,z))) rt_fail("r2d_rasterize: cell (%d,%d) moment x^%d y^%d: %.15Lg was added, the intersection has %.15Lg",ib[0].i+i,ib[0].j+j,x,z-x,got,m[q]); } } }
    if(P.nverts!=K.nverts||memcmp(P.verts,K.verts,sizeof(P.verts[0])*(K.nverts>0?K.nverts:0))) rt_fail("r2d_rasterize changed its polygon"); if(memcmp(ib,ik,sizeof ib)) rt_fail("r2d_rasterize changed its index box");
    free(g); free(g0); rt_count(!bad); } }
static void t_vox3(void){ static r3d_poly P,K,T; while(!rt_time_up()){ gen_poly3(&P,coin(10)?80:30,1); if(P.nverts<=0||!simple3p(&P)||valid3p(&P)) continue; int o=coin(3)?rndi(0,2):rndi(0,1),nm=NM3(o); double lo[3],hi[3]; for(int k=0;k<3;++k){ lo[k]=1e300; hi[k]=-1e300; for(int v=0;v<P.nverts;++v){ lo[k]=fmin(lo[k],P3(&P,v)[k]); hi[k]=fmax(hi[k],P3(&P,v)[k]); } }
    if(hi[0]-lo[0]<1e-6||hi[1]-lo[1]<1e-6||hi[2]-lo[2]<1e-6) continue; r3d_rvec3 d; r3d_dvec3 ib[2],ik[2]; int ex=coin(3); for(int k=0;k<3;++k){ int g=coin(4)?gsz(10):rndi(1,6); d.xyz[k]=coin(4)?0.25*rndi(1,8):(hi[k]-lo[k])/g*rndu(0.9,1.3); if((hi[k]-lo[k])/d.xyz[k]>70) d.xyz[k]=(hi[k]-lo[k])/70; ib[0].ijk[k]=floor(lo[k]/d.xyz[k])-(ex?rndi(0,2):0); ib[1].ijk[k]=ceil(hi[k]/d.xyz[k])+(ex?rndi(0,2):0); if(ib[1].ijk[k]<=ib[0].ijk[k]) ib[1].ijk[k]=ib[0].ijk[k]+1; }
    int G[3]; for(int k=0;k<3;++k) G[k]=ib[1].ijk[k]-ib[0].ijk[k]; if((long)G[0]*G[1]*G[2]>400) continue; long N=(long)G[0]*G[1]*G[2]*nm; double*g=malloc(sizeof(double)*N),*g0=malloc(sizeof(double)*N); for(long i=0;i<N;++i) g[i]=g0[i]=coin(2)?0:rndi(-3,3);
    K=P; memcpy(ik,ib,sizeof ib); int bad=coin(25)?rndi(1,4):0; rt_ctx("r3d_voxelize order %d d=(%.17g,%.17g,%.17g) ibox (%d,%d,%d)-(%d,%d,%d) ",o,d.x,d.y,d.z,ib[0].i,ib[0].j,ib[0].k,ib[1].i,ib[1].j,ib[1].k); ctx_poly3("poly",&P);
    if(bad){ rt_ctx_add(" invalid call %d",bad); if(bad==1) P.nverts=-rndi(0,2); if(bad==4){ int z=rndi(0,2); ib[1].ijk[z]=ib[0].ijk[z]-rndi(0,3); } K=P; memcpy(ik,ib,sizeof ib); r3d_voxelize(bad==2?0:&P,ib,bad==3?0:g,d,o); if(memcmp(g,g0,sizeof(double)*N)) rt_fail("r3d_voxelize wrote to the grid although the call is invalid (case %d)",bad); }
    else { r3d_voxelize(&P,ib,g,d,o); ld A=0; for(int k=0;k<3;++k) A=fmaxl(A,fmaxl(fabs(lo[k]),fabs(hi[k]))); double tot[10]={0},all[10]; 
      for(int i=0;i<G[0];++i) for(int j=0;j<G[1];++j) for(int k=0;k<G[2];++k){ int id[3]={i,j,k}; T=P; r3d_plane H[6]; memset(H,0,sizeof H); for(int a=0;a<3;++a){ H[2*a].n.xyz[a]=1; H[2*a].d=-d.xyz[a]*(ib[0].ijk[a]+id[a]); H[2*a+1].n.xyz[a]=-1; H[2*a+1].d=d.xyz[a]*(ib[0].ijk[a]+id[a]+1); } double mm[10]={0}; if(r3d_clip(&T,H,6)&&T.nverts>0) r3d_reduce(&T,mm,o);
        long b=nm*(((long)i*G[1]+j)*G[2]+k); int q=0; for(int z=0;z<=o;++z) for(int x=z;x>=0;--x) for(int y=z-x;y>=0;--y,++q){ double got=g[b+q]-g0[b+q]; tot[q]+=got; if(!(fabs(got-mm[q])<=1e-9L*(fabs(mm[q])+3)+1e-10L*A*A*A*ipow(A,z))) rt_fail("r3d_voxelize: cell (%d,%d,%d) moment x^%d y^%d z^%d: %.15g was added, the intersection has %.15g",ib[0].i+i,ib[0].j+j,ib[0].k+k,x,y,z-x-y,got,mm[q]); } }
      r3d_reduce(&P,all,o); int q=0; for(int z=0;z<=o;++z) for(int x=z;x>=0;--x) for(int y=z-x;y>=0;--y,++q) if(!(fabs(tot[q]-all[q])<=1e-8*(fabs(all[q])+N)+1e-9L*A*A*A*ipow(A,z))) rt_fail("r3d_voxelize: the cells add up to %.15g for moment %d, the polyhedron has %.15g",tot[q],q,all[q]); }
    if(P.nverts!=K.nverts||memcmp(P.verts,K.verts,sizeof(P.verts[0])*(K.nverts>0?K.nverts:0))) rt_fail("r3d_voxelize changed its polyhedron"); if(memcmp(ib,ik,sizeof ib)) rt_fail("r3d_voxelize changed its index box");
    free(g); free(g0); rt_count(!bad); } }
static void t_voxN(void){ static rNd_poly P,K,T; static hrep h; while(!rt_time_up()){ if(!gen_hN(&P,&h,MXC)) continue; double lo[ND],hi[ND]; for(int k=0;k<ND;++k){ lo[k]=1e300; hi[k]=-1e300; for(int v=0;v<P.nverts;++v){ lo[k]=fmin(lo[k],P.verts[v].pos.xyz[k]); hi[k]=fmax(hi[k],P.verts[v].pos.xyz[k]); } }
    int simp=P.nverts==ND+1; rNd_rvec d; rNd_dvec ib[2],ik[2]; int ex=coin(3); long N=1; int G[ND]; for(int k=0;k<ND;++k){ int g=coin(8)?rndi(1,9):rndi(1,3); d.xyz[k]=(hi[k]-lo[k])/g*rndu(0.9,1.3); ib[0].ijk[k]=floor(lo[k]/d.xyz[k])-(ex?rndi(0,1):0); ib[1].ijk[k]=ceil(hi[k]/d.xyz[k])+(ex?rndi(0,1):0); if(ib[1].ijk[k]<=ib[0].ijk[k]) ib[1].ijk[k]=ib[0].ijk[k]+1; G[k]=ib[1].ijk[k]-ib[0].ijk[k]; N*=G[k]; } if(N>(simp?60:250)) continue;
    /* skip grids whose lines graze a vertex: only the measure is compared, but degenerate contacts may leave the general-position regime of rNd_clip */
    int graze=0; for(int k=0;k<ND;++k) for(int v=0;v<P.nverts;++v){ double t=P.verts[v].pos.xyz[k]/d.xyz[k]; if(fabs(t-rint(t))<1e-6&&!(P.verts[v].pos.xyz[k]==lo[k]&&0)) graze=1; } if(graze) continue;
    double*g=malloc(sizeof(double)*N),*g0=malloc(sizeof(double)*N); for(long i=0;i<N;++i) g[i]=g0[i]=coin(2)?0:rndi(-3,3); K=P; memcpy(ik,ib,sizeof ib); int bad=coin(25)?rndi(1,4):0; rt_ctx("rNd_voxelize "); for(int k=0;k<ND;++k) rt_ctx_add("axis %d: d=%.17g cells %d..%d ",k,d.xyz[k],ib[0].ijk[k],ib[1].ijk[k]); ctxN(&P);
    if(bad){ rt_ctx_add(" invalid call %d",bad); if(bad==1) P.nverts=-rndi(0,2); if(bad==4){ int z=rndi(0,ND-1); ib[1].ijk[z]=ib[0].ijk[z]-rndi(0,3); } K=P; memcpy(ik,ib,sizeof ib); rNd_voxelize(bad==2?0:&P,ib,bad==3?0:g,d,0); if(memcmp(g,g0,sizeof(double)*N)) rt_fail("rNd_voxelize wrote to the grid although the call is invalid (case %d)",bad); }
    else { rNd_voxelize(&P,ib,g,d,0); double tot=0,all=0,vol=1; for(int k=0;k<ND;++k) vol*=hi[k]-lo[k];
      for(long c=0;c<N;++c){ int id[ND]; long t=c; for(int k=ND-1;k>=0;--k){ id[k]=t%G[k]; t/=G[k]; } T=P; rNd_plane H[2*ND]; memset(H,0,sizeof H); for(int a=0;a<ND;++a){ H[2*a].n.xyz[a]=1; H[2*a].d=-d.xyz[a]*(ib[0].ijk[a]+id[a]); H[2*a+1].n.xyz[a]=-1; H[2*a+1].d=d.xyz[a]*(ib[0].ijk[a]+id[a]+1); }
        double mm=0,want=1; rNd_clip(&T,H,2*ND); if(T.nverts>0) rNd_reduce(&T,&mm,0); if(!simp){ for(int a=0;a<ND;++a){ double l=fmax(lo[a],-H[2*a].d),u=fmin(hi[a],H[2*a+1].d); want*=u>l?u-l:0; } if(P.nverts==1<<ND&&!(fabs(mm-want)<=1e-8*vol)) rt_fail("rNd_clip/rNd_reduce: the cell %ld of a box has volume %.15g instead of %.15g",c,mm,want); }
        double got=g[c]-g0[c]; tot+=got; if(!(fabs(got-mm)<=1e-8*vol+1e-13)) rt_fail("rNd_voxelize: cell number %ld: %.15g was added, the intersection has %.15g",c,got,mm); }
      rNd_reduce(&P,&all,0); if(!(fabs(tot-all)<=1e-8*(vol*N))) rt_fail("rNd_voxelize: the cells add up to %.15g, the polytope has %.15g",tot,all); }
    if(memcmp(&P,&K,sizeof P)) rt_fail("rNd_voxelize changed its polytope"); if(memcmp(ib,ik,sizeof ib)) rt_fail("rNd_voxelize changed its index box");
    free(g); free(g0); rt_count(!bad); } }
const struct rt_test rt_tests[]={{"rast2",t_rast2},{"vox3",t_vox3},{"voxN",t_voxN},{0,0}};
