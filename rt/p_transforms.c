#include "rt.h"
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#define TOL 1e-9
static double rtheta(void){ switch(rndi(0,4)){case 0:return rndu(-7,7);case 1:return rndi(-8,8)*0.78539816339744830962;case 2:return rndu(-1000,1000);case 3:return rndu(-1e-3,1e-3);default:return rreal();} }
static double rco(void){ return coin(50)?rndu(-1e6,1e6):rreal(); }
#define GEN(P,D,MAXV,POSEXPR) \
  static P##_poly P##_p, P##_q; \
  static void P##_gen(void){ memset(&P##_p,0,sizeof P##_p); int n=rint_any(0,MAXV); P##_p.nverts=n; \
    for(int v=0;v<MAXV;++v){ for(int k=0;k<D;++k){ POSEXPR(P##_p,v)[k]=rco(); P##_p.verts[v].pnbrs[k]=n?rndi(0,n-1):0; } } P##_q=P##_p; }
#define POS2(p,v) p.verts[v].pos.xy
#define POS3(p,v) p.verts[v].pos.xyz
GEN(r2d,2,R2D_MAX_VERTS,POS2)
GEN(r3d,3,R3D_MAX_VERTS,POS3)
GEN(rNd,4,RND_MAX_VERTS,POS3)
#define CHECK(P,D,MAXV,POS,NAME) do{ int n=P##_q.nverts; if(P##_p.nverts!=n) rt_fail(NAME ": vertex count changed from %d to %d",n,P##_p.nverts); \
  for(int v=0;v<MAXV;++v) for(int k=0;k<D;++k){ if(P##_p.verts[v].pnbrs[k]!=P##_q.verts[v].pnbrs[k]) rt_fail(NAME ": neighbour %d of vertex %d changed",k,v); \
    ld sc=0; for(int j=0;j<D;++j) sc+=fabsl((ld)POS(P##_q,v)[j]); \
    if(v>=n){ if(memcmp(&POS(P##_p,v)[k],&POS(P##_q,v)[k],8)) rt_fail(NAME ": vertex entry %d beyond nverts=%d changed",v,n); } \
    else { ld e; sc+=extra; { ld *x=img[0]; (void)x; } image(v,img[0]); e=img[0][k]; \
      if(isnan((double)e)||isinf((double)e)) continue; \
      if(!close_to(POS(P##_p,v)[k],e,sc*amp,TOL)) rt_fail(NAME ": vertex %d of %d coordinate %d is %.17g, documented image is %.17Lg",v,n,k,POS(P##_p,v)[k],e); } } }while(0)
static ld img[1][8]; static ld extra, amp;
static void (*image)(int,ld*);
/* parameters of the current case */
static double th, sh[4], scl, scv[4], shr, M[5][5]; static int ax, ab, as_;
static void i_rot2(int v,ld*o){ ld x=r2d_q.verts[v].pos.x,y=r2d_q.verts[v].pos.y,s=sin(th),c=cos(th); o[0]=c*x-s*y; o[1]=s*x+c*y; }
static void i_tr2(int v,ld*o){ for(int k=0;k<2;++k)o[k]=(ld)r2d_q.verts[v].pos.xy[k]+sh[k]; }
static void i_sc2(int v,ld*o){ for(int k=0;k<2;++k)o[k]=(ld)r2d_q.verts[v].pos.xy[k]*scl; }
static void i_sh2(int v,ld*o){ for(int k=0;k<2;++k)o[k]=(ld)r2d_q.verts[v].pos.xy[k]+(k==ab?(ld)shr*r2d_q.verts[v].pos.xy[as_]:0); }
static int badw; 
#define AFF(D,X) ld w=M[D][D]; for(int j=0;j<D;++j) w+=(ld)M[D][j]*X[j]; badw=fabsl(w)<1e-3L; for(int k=0;k<D;++k){ ld r=M[k][D]; for(int j=0;j<D;++j) r+=(ld)M[k][j]*X[j]; o[k]=badw?NAN:r/w; }
static void i_af2(int v,ld*o){ double*X=r2d_q.verts[v].pos.xy; AFF(2,X) }
static void i_rot3(int v,ld*o){ ld s=sin(th),c=cos(th); double*X=r3d_q.verts[v].pos.xyz; int a=(ax+1)%3,b=(ax+2)%3; o[ax]=X[ax]; o[a]=c*X[a]-s*X[b]; o[b]=s*X[a]+c*X[b]; }
static void i_tr3(int v,ld*o){ for(int k=0;k<3;++k)o[k]=(ld)r3d_q.verts[v].pos.xyz[k]+sh[k]; }
static void i_sc3(int v,ld*o){ for(int k=0;k<3;++k)o[k]=(ld)r3d_q.verts[v].pos.xyz[k]*scl; }
static void i_sh3(int v,ld*o){ for(int k=0;k<3;++k)o[k]=(ld)r3d_q.verts[v].pos.xyz[k]+(k==ab?(ld)shr*r3d_q.verts[v].pos.xyz[as_]:0); }
static void i_af3(int v,ld*o){ double*X=r3d_q.verts[v].pos.xyz; AFF(3,X) }
static void i_rotN(int v,ld*o){ ld s=sin(th),c=cos(th); double*X=rNd_q.verts[v].pos.xyz; for(int k=0;k<4;++k)o[k]=X[k]; o[ab]=c*X[ab]-s*X[as_]; o[as_]=s*X[ab]+c*X[as_]; }
static void i_trN(int v,ld*o){ for(int k=0;k<4;++k)o[k]=(ld)rNd_q.verts[v].pos.xyz[k]+sh[k]; }
static void i_scN(int v,ld*o){ for(int k=0;k<4;++k)o[k]=(ld)rNd_q.verts[v].pos.xyz[k]*scv[k]; }
static void i_shN(int v,ld*o){ for(int k=0;k<4;++k)o[k]=(ld)rNd_q.verts[v].pos.xyz[k]+(k==ab?(ld)shr*rNd_q.verts[v].pos.xyz[as_]:0); }
static void i_afN(int v,ld*o){ double*X=rNd_q.verts[v].pos.xyz; AFF(4,X) }
static void params(void){ th=rtheta(); scl=rreal(); shr=rreal(); for(int k=0;k<4;++k){sh[k]=rreal();scv[k]=rreal();} ax=rndi(0,2);
  int kind=rndi(0,2); for(int i=0;i<5;++i)for(int j=0;j<5;++j) M[i][j]=kind==2?(i==j):rreal(); (void)kind; }
static void mat(int D){ if(coin(2)) for(int j=0;j<=D;++j) M[D][j]=(j==D); }
void t_transforms(void){
  while(!rt_time_up()){
    params(); extra=1; amp=1;
    for(int k=0;k<4;++k) extra+=fabs(sh[k]);
    amp=1+fabs(scl)+fabs(shr); for(int k=0;k<4;++k) amp+=fabs(scv[k]);
    int op=rndi(0,14);
    rt_ctx("op %d theta=%.17g scale=%.17g shear=%.17g shift=(%.17g,%.17g,%.17g,%.17g) ",op,th,scl,shr,sh[0],sh[1],sh[2],sh[3]);
    if(op<5){ r2d_gen(); ab=rndi(0,1); as_=rndi(0,1); rt_ctx_add("r2d nverts=%d axb=%d axs=%d first vertex (%.17g,%.17g)",r2d_q.nverts,ab,as_,r2d_q.verts[0].pos.x,r2d_q.verts[0].pos.y);
      r2d_rvec2 s2={{sh[0],sh[1]}}; double m3[3][3]; mat(2); for(int i=0;i<3;++i)for(int j=0;j<3;++j)m3[i][j]=M[i][j];
      if(op==0){ r2d_rotate(&r2d_p,th); image=i_rot2; CHECK(r2d,2,R2D_MAX_VERTS,POS2,"r2d_rotate"); }
      if(op==1){ r2d_translate(&r2d_p,s2); image=i_tr2; CHECK(r2d,2,R2D_MAX_VERTS,POS2,"r2d_translate"); }
      if(op==2){ r2d_scale(&r2d_p,scl); image=i_sc2; CHECK(r2d,2,R2D_MAX_VERTS,POS2,"r2d_scale"); }
      if(op==3){ r2d_shear(&r2d_p,shr,ab,as_); image=i_sh2; CHECK(r2d,2,R2D_MAX_VERTS,POS2,"r2d_shear"); }
      if(op==4){ amp=1e3; r2d_affine(&r2d_p,m3); image=i_af2; CHECK(r2d,2,R2D_MAX_VERTS,POS2,"r2d_affine"); }
      rt_count(r2d_q.nverts>0);
    } else if(op<10){ r3d_gen(); ab=rndi(0,2); as_=rndi(0,2); rt_ctx_add("r3d nverts=%d axis=%d axb=%d axs=%d first vertex (%.17g,%.17g,%.17g)",r3d_q.nverts,ax,ab,as_,r3d_q.verts[0].pos.x,r3d_q.verts[0].pos.y,r3d_q.verts[0].pos.z);
      r3d_rvec3 s3={{sh[0],sh[1],sh[2]}}; double m4[4][4]; mat(3); for(int i=0;i<4;++i)for(int j=0;j<4;++j)m4[i][j]=M[i][j];
      if(op==5){ r3d_rotate(&r3d_p,th,ax); image=i_rot3; CHECK(r3d,3,R3D_MAX_VERTS,POS3,"r3d_rotate"); }
      if(op==6){ r3d_translate(&r3d_p,s3); image=i_tr3; CHECK(r3d,3,R3D_MAX_VERTS,POS3,"r3d_translate"); }
      if(op==7){ r3d_scale(&r3d_p,scl); image=i_sc3; CHECK(r3d,3,R3D_MAX_VERTS,POS3,"r3d_scale"); }
      if(op==8){ r3d_shear(&r3d_p,shr,ab,as_); image=i_sh3; CHECK(r3d,3,R3D_MAX_VERTS,POS3,"r3d_shear"); }
      if(op==9){ amp=1e3; r3d_affine(&r3d_p,m4); image=i_af3; CHECK(r3d,3,R3D_MAX_VERTS,POS3,"r3d_affine"); }
      rt_count(r3d_q.nverts>0);
    } else { rNd_gen(); ab=rndi(0,3); do as_=rndi(0,3); while(op==10&&as_==ab); rt_ctx_add("rNd nverts=%d ax1/axb=%d ax2/axs=%d first vertex (%.17g,%.17g,%.17g,%.17g)",rNd_q.nverts,ab,as_,rNd_q.verts[0].pos.xyz[0],rNd_q.verts[0].pos.xyz[1],rNd_q.verts[0].pos.xyz[2],rNd_q.verts[0].pos.xyz[3]);
      rNd_rvec sN,cN; for(int k=0;k<4;++k){sN.xyz[k]=sh[k];cN.xyz[k]=scv[k];} mat(4);
      if(op==10){ rNd_rotate(&rNd_p,th,ab,as_); image=i_rotN; CHECK(rNd,4,RND_MAX_VERTS,POS3,"rNd_rotate"); }
      if(op==11){ rNd_translate(&rNd_p,sN); image=i_trN; CHECK(rNd,4,RND_MAX_VERTS,POS3,"rNd_translate"); }
      if(op==12){ rNd_scale(&rNd_p,cN); image=i_scN; CHECK(rNd,4,RND_MAX_VERTS,POS3,"rNd_scale"); }
      if(op==13){ rNd_shear(&rNd_p,shr,ab,as_); image=i_shN; CHECK(rNd,4,RND_MAX_VERTS,POS3,"rNd_shear"); }
      if(op==14){ amp=1e3; rNd_affine(&rNd_p,M); image=i_afN; CHECK(rNd,4,RND_MAX_VERTS,POS3,"rNd_affine"); }
      rt_count(rNd_q.nverts>0);
    }
  }
}
const struct rt_test rt_tests[]={{"transforms",t_transforms},{0,0}};
