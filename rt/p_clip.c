/* clip in 2, 3 and N dimensions against the definition of the operation */
#include "geom.h"
/* classification of the vertices against a plane; returns 0 if some vertex is too close to call */
static int classify(int n,int D,double*(*pos)(const void*,int),const void*p,const double*nn,double d,ld*s,ld*scale){ int ok=1; ld mx=0; 
  for(int v=0;v<n;++v){ ld a=fabsl((ld)d),t=d; double*x=pos(p,v); for(int k=0;k<D;++k){ t+=(ld)x[k]*nn[k]; a+=fabsl((ld)x[k]*nn[k]); } s[v]=t; if(a>mx) mx=a; if(fabsl(t)<1e-13L*a&&a>0){ /* exactly representable zero? */ double q=d; int ex=1; if(t!=0) ok=0; else { for(int k=0;k<D;++k){ double pr=x[k]*nn[k]; if((ld)pr!=(ld)x[k]*nn[k]) ex=0; double q2=q+pr; if((ld)q2!=(ld)q+pr) ex=0; q=q2; } if(!ex) ok=0; } } }
  *scale=mx; return ok; }
static double*pos2(const void*p,int v){ return ((r2d_poly*)p)->verts[v].pos.xy; }
static double*pos3(const void*p,int v){ return ((r3d_poly*)p)->verts[v].pos.xyz; }
static double*posN(const void*p,int v){ return ((rNd_poly*)p)->verts[v].pos.xyz; }
#define EQP(a,b,D) (!memcmp(a,b,sizeof(double)*(D)))
static void bbox_check(int n0,double*(*pos)(const void*,int),const void*a,int n1,const void*b,int D,const char*w){ ld sc=0; for(int v=0;v<n0;++v) for(int k=0;k<D;++k) if(fabsl(pos(a,v)[k])>sc) sc=fabsl(pos(a,v)[k]);
  for(int v=0;v<n1;++v) for(int k=0;k<D;++k){ double lo=1e300,hi=-1e300; for(int u=0;u<n0;++u){ double x=pos(a,u)[k]; if(x<lo)lo=x; if(x>hi)hi=x; } double x=pos(b,v)[k]; if(!(x>=lo-1e-9*(double)sc-1e-12&&x<=hi+1e-9*(double)sc+1e-12)) rt_fail("%s: vertex %d of the result has coordinate %d = %.17g, outside the input's range [%.17g,%.17g]",w,v,k,x,lo,hi); } }
static void cmp_moments(const ld*got,const ld*want,const ld*sc,int nm,ld tol,ld R,int D,const char*w){ for(int q=0;q<nm;++q) if(!(fabsl(got[q]-want[q])<=tol*(sc[q]+fabsl(want[q]))+1e-13L*ipow(R,D)*(1+R*R)+1e-14L)) rt_fail("%s: moment %d of the result is %.15Lg, that of the intersection is %.15Lg (scale %.3Lg)",w,q,got[q],want[q],sc[q]); }
/* ---------------------------------------------------------------- 2D */
static int G_strict,G_split; static const char*G_name="clip";
#define KEEP(x) (G_strict?(x)>0:(x)>=0)
static void check_step2(const r2d_poly*a,r2d_plane h,const r2d_poly*b){ static ld s[R2D_MAX_VERTS]; ld sc; int n=a->nverts; int sure=classify(n,2,pos2,a,h.n.xy,h.d,s,&sc); const char*e;
  int neg=0,pos=0,cross=0,kept=0; for(int v=0;v<n;++v){ if(!KEEP(s[v]))neg++; else kept++; if(s[v]>0)pos++; }
  for(int v=0;v<n;++v) for(int q=0;q<2;++q) if(KEEP(s[v])&&!KEEP(s[a->verts[v].pnbrs[q]])) cross++;
  if(sure&&n+cross>R2D_MAX_VERTS) return;
  if(n<=0){ if(b->nverts!=n) rt_fail("%s: empty input, result has %d vertices",G_name,b->nverts); return; }
  if((e=valid2p(b))) rt_fail("%s: the result is not a valid polygon: %s",G_name,e);
  if(sure&&!neg){ if((a->nverts!=b->nverts||memcmp(a->verts,b->verts,sizeof(a->verts[0])*(G_split?n:sizeof(a->verts)/sizeof(a->verts[0]))))) rt_fail("%s: no vertex is outside the half-plane, yet the polygon changed",G_name); return; }
  if(sure&&(G_split?!kept:!pos)){ if(b->nverts!=0) rt_fail("%s: no vertex is strictly inside the half-plane, result has %d vertices instead of 0",G_name,b->nverts); return; }
  for(int v=0;v<b->nverts;++v){ ld t=h.d; for(int k=0;k<2;++k) t+=(ld)h.n.xy[k]*P2(b,v)[k]; if(!(t>=-1e-10L*sc)) rt_fail("%s: vertex %d of the result is at signed distance %.3Lg, outside the half-plane",G_name,v,t); }
  bbox_check(n,pos2,a,b->nverts,b,2,G_name);
  /* moments of the intersection: fan from a point of the line, cut edges at the line */
  { ld R=0; for(int v=0;v<n;++v) for(int k=0;k<2;++k) if(fabs(P2(a,v)[k])>R) R=fabs(P2(a,v)[k]); ld m[6]={0},ms[6]={0},g[6],gs[6],c[2],nn=(ld)h.n.x*h.n.x+(ld)h.n.y*h.n.y,cen[2]={0,0}; for(int v=0;v<n;++v) for(int k=0;k<2;++k) cen[k]+=(ld)P2(a,v)[k]/n; ld t=(h.d+h.n.x*cen[0]+h.n.y*cen[1])/nn; for(int k=0;k<2;++k) c[k]=cen[k]-t*h.n.xy[k];
    for(int v=0;v<n;++v){ int w=a->verts[v].pnbrs[0]; ld A[2],B[2]; for(int k=0;k<2;++k){ A[k]=P2(a,v)[k]; B[k]=P2(a,w)[k]; } if(s[v]<0&&s[w]<0) continue; if(s[v]<0||s[w]<0){ ld X[2]; for(int k=0;k<2;++k) X[k]=(A[k]*s[w]-B[k]*s[v])/(s[w]-s[v]); if(s[v]<0) memcpy(A,X,sizeof X); else memcpy(B,X,sizeof X); } tri_moments(c,A,B,2,m,ms); }
    poly2_moments(a,2,c,g,gs); for(int q=0;q<6;++q) ms[q]+=gs[q]; poly2_moments(b,2,c,g,gs); cmp_moments(g,m,ms,6,1e-9L,R,2,G_name); }
  if(!sure) return;
  if(b->nverts!=kept+cross) rt_fail("%s: %d vertices kept and %d edges cut, the result has %d vertices",G_name,kept,cross,b->nverts);
  for(int v=0;v<n;++v) if(KEEP(s[v])){ int hit=-1,dup=0; for(int u=0;u<n;++u) dup+=u!=v&&EQP(P2(a,u),P2(a,v),2); for(int u=0;u<b->nverts;++u) if(EQP(P2(b,u),P2(a,v),2)) { hit=u; if(0) break; }
      if(hit<0) rt_fail("%s: vertex %d is inside the half-plane but its position is not in the result",G_name,v);
      int cnt=0; for(int u=0;u<b->nverts;++u) cnt+=EQP(P2(b,u),P2(a,v),2); if(dup||cnt>1) continue;
      for(int q=0;q<2;++q){ int w=a->verts[v].pnbrs[q],x=b->verts[hit].pnbrs[q]; for(int k=0;k<2;++k){ ld want=KEEP(s[w])?(ld)P2(a,w)[k]:((ld)P2(a,v)[k]*-s[w]+(ld)P2(a,w)[k]*s[v])/(s[v]-s[w]); if(KEEP(s[w])?P2(b,x)[k]!=P2(a,w)[k]:!close_to(P2(b,x)[k],want,fabsl((ld)P2(a,v)[k])+fabsl((ld)P2(a,w)[k]),1e-9)) rt_fail("%s: the edge from vertex %d in direction %d ends at coordinate %d = %.17g instead of %.17Lg",G_name,v,q,k,P2(b,x)[k],want); } } } }
static void t_clip2(void){ G_name="r2d_clip"; static r2d_poly a,b,c; static r2d_plane H[64]; while(!rt_time_up()){
    if(coin(60)){ memset(&a,0,sizeof a); a.nverts=coin(2)?0:-rndi(0,3); } else gen_poly2(&a,coin(10)?120:30,0);
    int np=coin(4)?rndi(0,12):rndi(1,3); b=a; rt_ctx("r2d_clip, one plane at a time: "); ctx_poly2("poly",&a); static r2d_poly st; st=a; int done=0;
    for(int i=0;i<np;++i){ H[i]=gen_plane2(b.nverts>0?&b:&a); rt_ctx_add(" plane %d n=(%.17g,%.17g) d=%.17g",i,H[i].n.x,H[i].n.y,H[i].d); c=b; 
      { static ld s[R2D_MAX_VERTS]; ld sc; int cr=0; classify(b.nverts,2,pos2,&b,H[i].n.xy,H[i].d,s,&sc); for(int v=0;v<b.nverts;++v) for(int q=0;q<2;++q) cr+=s[v]>=0&&s[b.verts[v].pnbrs[q]]<0; if(b.nverts+cr+4>R2D_MAX_VERTS){ np=i; break; } }
      r2d_plane keep=H[i]; r2d_clip(&b,&H[i],1); if(memcmp(&keep,&H[i],sizeof keep)) rt_fail("r2d_clip changed its plane argument"); check_step2(&c,keep,&b); if(b.nverts<=0&&c.nverts>0) done=1; }
    r2d_clip(&st,H,np); if(st.nverts!=b.nverts) rt_fail("r2d_clip: %d planes in one call leave %d vertices, one after another %d",np,st.nverts,b.nverts); (void)done;
    for(int v=0;v<b.nverts;++v) if(memcmp(&st.verts[v],&b.verts[v],sizeof b.verts[v])) rt_fail("r2d_clip: %d planes in one call give a different vertex %d than one after another",np,v);
    rt_count(a.nverts>0&&np>0); } }
/* ---------------------------------------------------------------- 3D */
static void clip_moments3(const r3d_poly*a,const double*nn,double d,const ld*s,int ord,ld*m,ld*ms,ld*c){ static faces3 F; ld n2=0,cen[3]={0,0,0},t=d; int n=a->nverts; for(int k=0;k<3;++k) n2+=(ld)nn[k]*nn[k]; for(int v=0;v<n;++v) for(int k=0;k<3;++k) cen[k]+=(ld)P3(a,v)[k]/n; for(int k=0;k<3;++k) t+=nn[k]*cen[k]; for(int k=0;k<3;++k) c[k]=cen[k]-t/n2*nn[k];
  for(int q=0;q<NM3(ord);++q) m[q]=ms[q]=0; if(!get_faces(a,&F)) return; static ld L[4*R3D_MAX_VERTS][3];
  for(int f=0;f<F.nf;++f){ int*I=F.v+F.off[f],k0=F.off[f+1]-F.off[f],cnt=0; for(int i=0;i<k0;++i){ int v=I[i],w=I[(i+1)%k0]; if(KEEP(s[v])){ for(int k=0;k<3;++k) L[cnt][k]=P3(a,v)[k]; cnt++; } if((KEEP(s[v]))!=(KEEP(s[w]))){ for(int k=0;k<3;++k) L[cnt][k]=((ld)P3(a,v)[k]*s[w]-(ld)P3(a,w)[k]*s[v])/(s[w]-s[v]); cnt++; } }
    for(int i=1;i+1<cnt;++i) tet_moments(c,L[0],L[i+1],L[i],ord,m,ms); } }
static void check_step3(const r3d_poly*a,r3d_plane h,const r3d_poly*b,int ret){ static ld s[R3D_MAX_VERTS]; ld sc; int n=a->nverts; int sure=classify(n,3,pos3,a,h.n.xyz,h.d,s,&sc); const char*e;
  int neg=0,pos=0,cross=0,kept=0; for(int v=0;v<n;++v){ if(!KEEP(s[v]))neg++; else kept++; if(s[v]>0)pos++; }
  for(int v=0;v<n;++v) for(int q=0;q<3;++q) if(KEEP(s[v])&&!KEEP(s[a->verts[v].pnbrs[q]])) cross++;
  if(n<=0){ if(b->nverts!=n) rt_fail("%s: empty input, result has %d vertices",G_name,b->nverts); if(ret) rt_fail("%s: returned %d for an empty polyhedron",G_name,ret); return; }
  if(!sure&&ret!=1&&n<=R3D_MAX_VERTS/4) rt_fail("%s: returned %d although the buffer has room (%d+%d)",G_name,ret,n,cross);
  if(ret!=1&&!sure) return;
  if(sure&&!neg){ if(ret!=1) rt_fail("%s: returned %d for a plane that cuts nothing",G_name,ret); if((a->nverts!=b->nverts||memcmp(a->verts,b->verts,sizeof(a->verts[0])*(G_split?n:sizeof(a->verts)/sizeof(a->verts[0]))))) rt_fail("%s: no vertex is outside the half-space, yet the polyhedron changed",G_name); return; }
  if(sure&&(G_split?!kept:!pos)){ if(ret!=1) rt_fail("%s: returned %d for a polyhedron clipped away",G_name,ret); if(b->nverts!=0) rt_fail("%s: no vertex is strictly inside the half-space, result has %d vertices instead of 0",G_name,b->nverts); return; }
  if(sure&&!G_split){ int full=n+cross>R3D_MAX_VERTS; if(full){ if(ret!=0) rt_fail("%s: %d vertices and %d cut edges exceed the buffer of %d, but it returned %d",G_name,n,cross,R3D_MAX_VERTS,ret); return; } if(ret!=1) rt_fail("%s: returned %d although %d vertices and %d cut edges fit the buffer of %d",G_name,ret,n,cross,R3D_MAX_VERTS); }
  if((e=valid3p(b))) rt_fail("%s: the result is not a valid polyhedron: %s",G_name,e);
  { static faces3 F; if(b->nverts>0&&simple3p(b)&&!get_faces(b,&F)) rt_fail("%s: the faces of the result do not close",G_name); }
  for(int v=0;v<b->nverts;++v){ ld t=h.d; for(int k=0;k<3;++k) t+=(ld)h.n.xyz[k]*P3(b,v)[k]; if(!(t>=-1e-10L*sc)) rt_fail("%s: vertex %d of the result is at signed distance %.3Lg, outside the half-space",G_name,v,t); }
  bbox_check(n,pos3,a,b->nverts,b,3,G_name);
  if(simple3p(b)||!sure){ ld R=0; for(int v=0;v<n;++v) for(int k=0;k<3;++k) if(fabs(P3(a,v)[k])>R) R=fabs(P3(a,v)[k]); ld m[10],ms[10],g[10],gs[10],c[3]; static faces3 F; if(simple3p(b)&&simple3p(a)&&get_faces(a,&F)){ clip_moments3(a,h.n.xyz,h.d,s,2,m,ms,c); poly3_moments(a,2,c,g,gs); for(int q=0;q<10;++q) ms[q]+=gs[q]; poly3_moments(b,2,c,g,gs); cmp_moments(g,m,ms,10,1e-8L,R,3,G_name); } }
  if(!sure) return;
  if(b->nverts!=kept+cross) rt_fail("%s: %d vertices kept and %d edges cut, the result has %d vertices",G_name,kept,cross,b->nverts);
  for(int v=0;v<n;++v) if(KEEP(s[v])){ int hit=-1,cnt=0; for(int u=0;u<b->nverts;++u) if(EQP(P3(b,u),P3(a,v),3)){ hit=u; cnt++; }
      if(hit<0) rt_fail("%s: vertex %d is inside the half-space but its position is not in the result",G_name,v);
      if(cnt>1) continue; int best=0; ld bq=0; int bk=0,bw=0; double got=0; 
      for(int r=0;r<3&&!best;++r){ int ok=1; for(int q=0;q<3&&ok;++q){ int w=a->verts[v].pnbrs[q],x=b->verts[hit].pnbrs[(q+r)%3]; for(int k=0;k<3;++k){ ld want=KEEP(s[w])?(ld)P3(a,w)[k]:((ld)P3(a,v)[k]*-s[w]+(ld)P3(a,w)[k]*s[v])/(s[v]-s[w]); if(KEEP(s[w])?P3(b,x)[k]!=P3(a,w)[k]:!close_to(P3(b,x)[k],want,fabsl((ld)P3(a,v)[k])+fabsl((ld)P3(a,w)[k]),1e-9)){ ok=0; if(r==0){ bq=want; bk=k; bw=q; got=P3(b,x)[k]; } break; } } } best=ok; }
      if(!best) rt_fail("%s: the edge from vertex %d in direction %d ends at coordinate %d = %.17g instead of %.17Lg (or the cyclic order around it changed)",G_name,v,bw,bk,got,bq); } }
static void t_clip3(void){ G_name="r3d_clip"; static r3d_poly a,b,c,st; static r3d_plane H[64]; while(!rt_time_up()){ int cvx=1;
    if(coin(60)){ memset(&a,0,sizeof a); a.nverts=coin(2)?0:-rndi(0,3); } else if(coin(30)){ gen_prism(&a,rndi(120,256),1); } else cvx=gen_poly3(&a,coin(8)?R3D_MAX_VERTS*2/3:60,1);
    int np=!cvx?1:coin(4)?rndi(0,12):rndi(1,3); b=a; rt_ctx("r3d_clip, one plane at a time: "); ctx_poly3("poly",&a); st=a; int rr=1,stop=0,k;
    for(k=0;k<np;++k){ H[k]=gen_plane3(b.nverts>0?&b:&a); rt_ctx_add(" plane %d n=(%.17g,%.17g,%.17g) d=%.17g",k,H[k].n.x,H[k].n.y,H[k].n.z,H[k].d); c=b; if(!simple3p(&b)) { np=k; break; }
      r3d_plane keep=H[k]; int r=r3d_clip(&b,&H[k],1); if(memcmp(&keep,&H[k],sizeof keep)) rt_fail("r3d_clip changed its plane argument"); check_step3(&c,keep,&b,r);
      if(!r&&c.nverts>0){ rr=0; np=k+1; stop=1; break; } if(b.nverts<=0){ np=k+1; break; } { static ld s[R3D_MAX_VERTS]; ld sc; if(!classify(c.nverts,3,pos3,&c,H[k].n.xyz,H[k].d,s,&sc)){ np=k+1; break; } } }
    if(a.nverts<=0) rr=0;
    int r=r3d_clip(&st,H,np); if(r!=rr) rt_fail("r3d_clip: %d planes in one call return %d, one after another %d",np,r,rr);
    if(!stop){ if(st.nverts!=b.nverts) rt_fail("r3d_clip: %d planes in one call leave %d vertices, one after another %d",np,st.nverts,b.nverts);
      for(int v=0;v<b.nverts;++v) if(memcmp(&st.verts[v].pos,&b.verts[v].pos,sizeof b.verts[v].pos)||memcmp(st.verts[v].pnbrs,b.verts[v].pnbrs,sizeof b.verts[v].pnbrs)) rt_fail("r3d_clip: %d planes in one call give a different vertex %d than one after another",np,v); }
    rt_count(a.nverts>0&&np>0); } }
/* ---------------------------------------------------------------- ND: brute force vertex enumeration of the constraint set */
#define ND RND_DIM
#define MXC 16
typedef struct { int n; ld a[MXC][ND],d[MXC]; } hrep;
typedef struct { int n; ld x[4096][ND]; unsigned act[4096]; } vrep;
static int solveN(const hrep*h,const int*id,ld*x){ ld M[ND][ND+1]; for(int i=0;i<ND;++i){ for(int j=0;j<ND;++j) M[i][j]=h->a[id[i]][j]; M[i][ND]=-h->d[id[i]]; } for(int c=0;c<ND;++c){ int p=c; for(int r=c+1;r<ND;++r) if(fabsl(M[r][c])>fabsl(M[p][c])) p=r; if(fabsl(M[p][c])<1e-9L) return 0; if(p!=c) for(int j=0;j<=ND;++j){ ld t=M[c][j]; M[c][j]=M[p][j]; M[p][j]=t; } for(int r=0;r<ND;++r) if(r!=c){ ld f=M[r][c]/M[c][c]; for(int j=c;j<=ND;++j) M[r][j]-=f*M[c][j]; } } for(int i=0;i<ND;++i) x[i]=M[i][ND]/M[i][i]; return 1; }
/* 0: not in general position */
static int enumN(const hrep*h,vrep*V){ V->n=0; int id[ND]; for(int i=0;i<ND;++i) id[i]=i; for(;;){ ld x[ND]; if(solveN(h,id,x)){ int in=1; unsigned act=0; for(int i=0;i<ND;++i) act|=1u<<id[i]; for(int c=0;c<h->n&&in;++c){ if(act>>c&1) continue; ld s=h->d[c]; for(int k=0;k<ND;++k) s+=h->a[c][k]*x[k]; if(fabsl(s)<1e-7L) return 0; if(s<0) in=0; } if(in){ if(V->n>=4096) return 0; memcpy(V->x[V->n],x,sizeof x); V->act[V->n++]=act; } }
    int i=ND-1; while(i>=0&&id[i]==h->n-ND+i) --i; if(i<0) break; ++id[i]; for(int j=i+1;j<ND;++j) id[j]=id[j-1]+1; } return 1; }
static int matchN(const rNd_poly*p,int v,const vrep*V){ for(int i=0;i<V->n;++i){ int ok=1; for(int k=0;k<ND;++k) if(fabsl(V->x[i][k]-p->verts[v].pos.xyz[k])>1e-8L*(1+fabsl(V->x[i][k]))) ok=0; if(ok) return i; } return -1; }
static void compareN(const rNd_poly*p,const hrep*h,const vrep*V,const char*w){ static int mp[RND_MAX_VERTS],inv[4096]; if(p->nverts!=V->n) rt_fail("%s: the result has %d vertices, the intersection has %d",w,p->nverts,V->n); memset(inv,-1,sizeof inv);
  for(int v=0;v<p->nverts;++v){ int m=matchN(p,v,V); if(m<0) rt_fail("%s: vertex %d of the result is not a vertex of the intersection",w,v); if(inv[m]>=0) rt_fail("%s: vertices %d and %d of the result coincide",w,inv[m],v); inv[m]=v; mp[v]=m; }
  for(int v=0;v<p->nverts;++v) for(int q=0;q<ND;++q){ int t=p->verts[v].pnbrs[q]; if(t<0||t>=p->nverts) rt_fail("%s: neighbour %d of vertex %d is %d with %d vertices",w,q,v,t,p->nverts); if(__builtin_popcount(V->act[mp[v]]&V->act[mp[t]])!=ND-1) rt_fail("%s: vertex %d is linked to vertex %d, but they do not share an edge",w,v,t); for(int r=0;r<q;++r) if(p->verts[v].pnbrs[r]==t) rt_fail("%s: vertex %d is linked to %d twice",w,v,t); }
  /* 2-faces: the index of directions (q,r) is symmetric and distinguishes directions */
  for(int v=0;v<p->nverts;++v) for(int q=0;q<ND;++q) for(int r=q+1;r<ND;++r){ if(p->verts[v].finds[q][r]!=p->verts[v].finds[r][q]) rt_fail("%s: 2-face index (%d,%d) of vertex %d is not symmetric",w,q,r,v); int t=p->verts[v].pnbrs[q]; int b; for(b=0;b<ND;++b) if(p->verts[t].pnbrs[b]==v) break; int f=0; for(int z=0;z<ND;++z) if(z!=b&&p->verts[t].finds[b][z]==p->verts[v].finds[q][r]) f++; if(f!=1) rt_fail("%s: the 2-face (%d,%d) of vertex %d does not continue at its neighbour %d",w,q,r,v,t); } }
static int gen_hN(rNd_poly*p,hrep*h,int maxc){ memset(p,0,sizeof *p); h->n=0; if(coin(2)){ rNd_rvec b[2]; for(int k=0;k<ND;++k){ b[0].xyz[k]=rndu(-3,1); b[1].xyz[k]=b[0].xyz[k]+rndu(0.4,3); } if(coin(3)) for(int k=0;k<ND;++k){ b[0].xyz[k]=rndi(-3,1); b[1].xyz[k]=b[0].xyz[k]+rndi(1,3); } rNd_init_box(p,b); for(int k=0;k<ND;++k) for(int s=0;s<2;++s){ for(int j=0;j<ND;++j) h->a[h->n][j]=0; h->a[h->n][k]=s?-1:1; h->d[h->n]=s?b[1].xyz[k]:-b[0].xyz[k]; h->n++; } }
  else { rNd_rvec v[ND+1]; for(int i=0;i<=ND;++i) for(int k=0;k<ND;++k) v[i].xyz[k]=rndu(-2,2); rNd_init_simplex(p,v); for(int i=0;i<=ND;++i){ /* facet opposite vertex i: affine function with value 1 at v_i, 0 at the others */ ld M[ND+1][ND+2]; for(int r=0;r<=ND;++r){ for(int c=0;c<ND;++c) M[r][c]=v[r].xyz[c]; M[r][ND]=1; M[r][ND+1]=r==i; } for(int c=0;c<=ND;++c){ int q=c; for(int r=c+1;r<=ND;++r) if(fabsl(M[r][c])>fabsl(M[q][c])) q=r; if(fabsl(M[q][c])<1e-3L) return 0; if(q!=c) for(int j=0;j<=ND+1;++j){ ld t=M[c][j]; M[c][j]=M[q][j]; M[q][j]=t; } for(int r=0;r<=ND;++r) if(r!=c){ ld f=M[r][c]/M[c][c]; for(int j=c;j<=ND+1;++j) M[r][j]-=f*M[c][j]; } } ld nn=0; for(int c=0;c<ND;++c){ h->a[h->n][c]=M[c][ND+1]/M[c][c]; nn+=h->a[h->n][c]*h->a[h->n][c]; } h->d[h->n]=M[ND][ND+1]/M[ND][ND]; nn=sqrtl(nn); for(int c=0;c<ND;++c) h->a[h->n][c]/=nn; h->d[h->n]/=nn; h->n++; } }
  (void)maxc; return 1; }
static rNd_plane gen_planeN(const rNd_poly*p){ rNd_plane h; ld l=0; for(int k=0;k<ND;++k){ h.n.xyz[k]=rndu(-1,1); l+=(ld)h.n.xyz[k]*h.n.xyz[k]; } if(coin(6)){ int j=rndi(0,ND-1); for(int k=0;k<ND;++k) h.n.xyz[k]=k==j; l=1; } for(int k=0;k<ND;++k) h.n.xyz[k]/=sqrtl(l); double c[ND]={0},w=0; for(int i=0;i<5;++i){ int v=rndi(0,p->nverts-1); double u=rnd01(); w+=u; for(int k=0;k<ND;++k) c[k]+=u*p->verts[v].pos.xyz[k]; } h.d=0; for(int k=0;k<ND;++k) h.d-=h.n.xyz[k]*c[k]/(w+1e-300); if(coin(12)) h.d+=rndu(-3,3); return h; }
static void ctxN(const rNd_poly*p){ rt_ctx_add("nverts=%d ",p->nverts); for(int v=0;v<p->nverts&&v<32;++v){ rt_ctx_add("["); for(int k=0;k<ND;++k) rt_ctx_add("%.17g ",p->verts[v].pos.xyz[k]); rt_ctx_add("]"); } }
static void t_clipN(void){ static rNd_poly a,b,st; static hrep h; static vrep V; static rNd_plane H[16]; while(!rt_time_up()){
    if(coin(50)){ memset(&a,0,sizeof a); a.nverts=-rndi(0,2); b=a; rt_ctx("rNd_clip of an empty polytope"); memset(H,0,sizeof H); rNd_clip(&a,H,rndi(0,2)); if(memcmp(&a,&b,sizeof a)) rt_fail("rNd_clip changed an empty polytope"); continue; }
    if(coin(6)){ /* planes through vertices of a box, sometimes touching it from outside */ rNd_rvec B[2]; for(int k=0;k<ND;++k){ B[0].xyz[k]=rndi(-3,3); B[1].xyz[k]=B[0].xyz[k]+rndi(1,3); } memset(&a,0,sizeof a); rNd_init_box(&a,B); b=a;
      memset(H,0,sizeof H); int i=rndi(0,ND-1),j=rndi(0,ND-1),v0=rndi(0,a.nverts-1); H[0].n.xyz[i]=coin(2)?1:-1; H[0].n.xyz[j]=coin(2)?1:-1; for(int k=0;k<ND;++k) H[0].d-=H[0].n.xyz[k]*a.verts[v0].pos.xyz[k]; if(coin(3)) for(int k=0;k<ND;++k) H[0].n.xyz[k]*=2,H[0].d*=k?1:2;
      int pos=0,neg=0; for(int v=0;v<a.nverts;++v){ double t=H[0].d; for(int k=0;k<ND;++k) t+=H[0].n.xyz[k]*a.verts[v].pos.xyz[k]; pos+=t>0; neg+=t<0; }
      rt_ctx("rNd_clip through vertices: "); ctxN(&a); rt_ctx_add(" plane n=("); for(int k=0;k<ND;++k) rt_ctx_add("%g ",H[0].n.xyz[k]); rt_ctx_add(") d=%g",H[0].d); rNd_clip(&b,H,1); rt_count(1);
      if(!neg){ if(memcmp(&a,&b,sizeof a)) rt_fail("rNd_clip: no vertex is outside the half-space, yet the polytope changed"); continue; }
      if(!pos){ if(b.nverts!=0) rt_fail("rNd_clip: no vertex is strictly inside the half-space, the result has %d vertices",b.nverts); continue; }
      ld q[8][2]={{B[0].xyz[i],B[0].xyz[j]},{B[1].xyz[i],B[0].xyz[j]},{B[1].xyz[i],B[1].xyz[j]},{B[0].xyz[i],B[1].xyz[j]}},r[8][2]; int n=0;
      for(int v=0;v<4;++v){ int w=(v+1)%4; ld s=H[0].d+H[0].n.xyz[i]*q[v][0]+H[0].n.xyz[j]*q[v][1],t=H[0].d+H[0].n.xyz[i]*q[w][0]+H[0].n.xyz[j]*q[w][1]; if(s>=0){ r[n][0]=q[v][0]; r[n++][1]=q[v][1]; } if((s<0)!=(t<0)&&s!=0&&t!=0){ r[n][0]=(q[v][0]*t-q[w][0]*s)/(t-s); r[n++][1]=(q[v][1]*t-q[w][1]*s)/(t-s); } }
      for(int v=0;v<b.nverts;++v) for(int k=0;k<ND;++k){ int w=b.verts[v].pnbrs[k],f=0; if(w<0||w>=b.nverts) rt_fail("rNd_clip: neighbour %d of vertex %d of %d is %d",k,v,b.nverts,w); for(int z=0;z<ND;++z) f+=b.verts[w].pnbrs[z]==v; if(f!=1) rt_fail("rNd_clip: vertex %d links to %d, which links back %d times",v,w,f); }
      for(int v=0,z=0;v<a.nverts;++v){ double t=H[0].d; for(int k=0;k<ND;++k) t+=H[0].n.xyz[k]*a.verts[v].pos.xyz[k]; if(t<0) continue; int f=0; for(int w=0;w<b.nverts;++w) f|=!memcmp(&b.verts[w].pos,&a.verts[v].pos,sizeof a.verts[v].pos); if(!f) rt_fail("rNd_clip: inside vertex %d is gone",v); ++z; }
      /* the corners of the result are the corners of the cut rectangle times the other bounds (no volume: rNd_reduce does not take coincident vertices, see known-findings.txt) */
      for(int v=0;v<b.nverts;++v){ int f=0; for(int z=0;z<n;++z) f|=fabsl(b.verts[v].pos.xyz[i]-r[z][0])<1e-9L&&fabsl(b.verts[v].pos.xyz[j]-r[z][1])<1e-9L; for(int k=0;k<ND;++k) if(k!=i&&k!=j) f&=b.verts[v].pos.xyz[k]==B[0].xyz[k]||b.verts[v].pos.xyz[k]==B[1].xyz[k]; if(!f) rt_fail("rNd_clip: vertex %d of the result is not a corner of the intersection",v); }
      for(int z=0;z<n;++z) for(int c=0;c<1<<ND;++c){ if((c>>i&1)||(c>>j&1)) continue; int f=0; for(int v=0;v<b.nverts;++v){ int g=fabsl(b.verts[v].pos.xyz[i]-r[z][0])<1e-9L&&fabsl(b.verts[v].pos.xyz[j]-r[z][1])<1e-9L; for(int k=0;k<ND;++k) if(k!=i&&k!=j) g&=b.verts[v].pos.xyz[k]==B[c>>k&1].xyz[k]; f|=g; } if(!f) rt_fail("rNd_clip: a corner of the intersection is missing"); }
      continue; }
    if(!gen_hN(&a,&h,MXC)) continue; b=a; st=a; int np=rndi(1,5),k,ok=1,empty=0; if(!enumN(&h,&V)) continue; rt_ctx("rNd_clip: "); ctxN(&a);
    for(k=0;k<np;++k){ H[k]=gen_planeN(&b); rt_ctx_add(" plane n=("); for(int j=0;j<ND;++j) rt_ctx_add("%.17g ",H[k].n.xyz[j]); rt_ctx_add(") d=%.17g",H[k].d); for(int j=0;j<ND;++j) h.a[h.n][j]=H[k].n.xyz[j]; h.d[h.n]=H[k].d; h.n++; ok=enumN(&h,&V); if(!ok||V.n>400) { ok=0; break; }
      /* skip planes that graze a vertex */
      int neg=0,bad=0; for(int v=0;v<b.nverts;++v){ ld s=H[k].d; for(int j=0;j<ND;++j) s+=(ld)H[k].n.xyz[j]*b.verts[v].pos.xyz[j]; if(fabsl(s)<1e-7L) bad=1; if(s<0) neg++; } if(bad){ ok=0; break; }
      static rNd_poly c; c=b; rNd_clip(&b,&H[k],1); if(!neg&&memcmp(&b,&c,sizeof b)) rt_fail("rNd_clip: no vertex is outside the half-space, yet the polytope changed");
      if(V.n==0||neg==c.nverts){ if(b.nverts!=0) rt_fail("rNd_clip: every vertex is outside the half-space, the result has %d vertices",b.nverts); empty=1; np=k+1; break; }
      compareN(&b,&h,&V,"rNd_clip"); }
    if(!ok) continue; rNd_clip(&st,H,np); if(st.nverts!=b.nverts) rt_fail("rNd_clip: %d planes in one call leave %d vertices, one after another %d",np,st.nverts,b.nverts);
    for(int v=0;v<b.nverts;++v) if(memcmp(&st.verts[v].pos,&b.verts[v].pos,sizeof b.verts[v].pos)||memcmp(st.verts[v].pnbrs,b.verts[v].pnbrs,sizeof b.verts[v].pnbrs)) rt_fail("rNd_clip: %d planes in one call give a different vertex %d than one after another",np,v); (void)empty;
    rt_count(1); } }
const struct rt_test rt_tests[]={{"clip2",t_clip2},{"clip3",t_clip3},{"clipN",t_clipN},{0,0}};
