/* boundary descriptions: r3d_init_poly builds the polyhedron with exactly the given faces; r3d_init_brep returns the faces of each component */
#include "geom.h"
#include <stddef.h>
int __lsan_do_recoverable_leak_check(void);
typedef struct { int nv,nf; r3d_rvec3 v[R3D_MAX_VERTS+8]; int n[4*R3D_MAX_VERTS]; int*f[4*R3D_MAX_VERTS]; int buf[16*R3D_MAX_VERTS],used; } mesh;
static void addf(mesh*m,int n,const int*ix){ int*p=m->buf+m->used; memcpy(p,ix,n*sizeof(int)); m->n[m->nf]=n; m->f[m->nf++]=p; m->used+=n; }
static void mesh_xf(mesh*m){ double S=gscale(),a=rndu(0,6.3),b=rndu(0,6.3),t[3]; for(int k=0;k<3;++k) t[k]=coin(2)?0:rndu(-3,3); int rot=!coin(3); for(int i=0;i<m->nv;++i){ double x=m->v[i].x,y=m->v[i].y,z=m->v[i].z; if(rot){ double x2=x*cos(a)-y*sin(a),y2=x*sin(a)+y*cos(a); x=x2*cos(b)-z*sin(b); z=x2*sin(b)+z*cos(b); y=y2; } m->v[i].x=S*x+t[0]; m->v[i].y=S*y+t[1]; m->v[i].z=S*z+t[2]; } }
/* faces counter-clockwise seen from outside */
static int force_n;
static void gen_mesh(mesh*m,int maxn){ m->nv=m->nf=m->used=0; int kind=rndi(0,4),n=force_n||coin(20)?maxn:coin(3)?rndi(3,maxn):rndi(3,9),ix[R3D_MAX_VERTS]; if(n>maxn) n=maxn; if(n<3) n=3; double h=rndu(0.4,2),ph=kind==3?0.5:0; double A=rndu(0,6.3);
  if(kind==4){ static const int F[20][3]={{0,11,5},{0,5,1},{0,1,7},{0,7,10},{0,10,11},{1,5,9},{5,11,4},{11,10,2},{10,7,6},{7,1,8},{3,9,4},{3,4,2},{3,2,6},{3,6,8},{3,8,9},{4,9,5},{2,4,11},{6,2,10},{8,6,7},{9,8,1}}; double p=1.618033988749895; double V[12][3]={{-1,p,0},{1,p,0},{-1,-p,0},{1,-p,0},{0,-1,p},{0,1,p},{0,-1,-p},{0,1,-p},{p,0,-1},{p,0,1},{-p,0,-1},{-p,0,1}}; m->nv=12; for(int i=0;i<12;++i) for(int k=0;k<3;++k) m->v[i].xyz[k]=V[i][k]; for(int f=0;f<20;++f) addf(m,3,F[f]); }
  else if(kind<=1){ /* pyramid / bipyramid */ for(int i=0;i<n;++i){ m->v[i].x=cos(A+6.283185307179586*i/n); m->v[i].y=sin(A+6.283185307179586*i/n); m->v[i].z=0; } m->v[n].x=m->v[n].y=rndu(-.2,.2); m->v[n].z=h; m->nv=n+1; for(int i=0;i<n;++i){ ix[0]=i; ix[1]=(i+1)%n; ix[2]=n; addf(m,3,ix); }
    if(kind==0){ for(int i=0;i<n;++i) ix[i]=n-1-i; addf(m,n,ix); } else { m->v[n+1].x=m->v[n+1].y=0; m->v[n+1].z=-h; m->nv=n+2; for(int i=0;i<n;++i){ ix[0]=(i+1)%n; ix[1]=i; ix[2]=n+1; addf(m,3,ix); } } }
  else { /* prism / antiprism */ if(n>maxn/2) n=maxn/2<3?3:maxn/2; for(int l=0;l<2;++l) for(int i=0;i<n;++i){ double t=A+6.283185307179586*(i+ph*l)/n; m->v[i+l*n].x=cos(t); m->v[i+l*n].y=sin(t); m->v[i+l*n].z=l*h; } m->nv=2*n; for(int i=0;i<n;++i) ix[i]=n-1-i; addf(m,n,ix); for(int i=0;i<n;++i) ix[i]=n+i; addf(m,n,ix);
    for(int i=0;i<n;++i){ int j=(i+1)%n; if(kind==2){ int q[4]={i,j,j+n,i+n}; addf(m,4,q); } else { int q[3]={i,j,i+n},r[3]={j,j+n,i+n}; addf(m,3,q); addf(m,3,r); } } }
  /* split some faces by a diagonal (raises valences) */
  if(coin(2)) for(int f=m->nf-1;f>=0;--f) if(m->n[f]>3&&m->nf<2*R3D_MAX_VERTS-2&&m->used+m->n[f]+4<8*R3D_MAX_VERTS&&coin(2)){ int n2=m->n[f],k=rndi(2,n2-2),q[R3D_MAX_VERTS]; memcpy(q,m->f[f],n2*sizeof(int)); addf(m,k+1,q); int r[R3D_MAX_VERTS],z=0; r[z++]=q[0]; for(int i=k;i<n2;++i) r[z++]=q[i]; m->n[f]=z; memcpy(m->f[f],r,z*sizeof(int)); }
  mesh_xf(m);
  for(int f=0;f<m->nf;++f){ int g=rndi(0,f),*t=m->f[f],u=m->n[f]; m->f[f]=m->f[g]; m->n[f]=m->n[g]; m->f[g]=t; m->n[g]=u; }
  for(int f=0;f<m->nf;++f){ int q[R3D_MAX_VERTS],n2=m->n[f],k=rndi(0,n2-1); memcpy(q,m->f[f],n2*sizeof(int)); for(int i=0;i<n2;++i) m->f[f][i]=q[(i+k)%n2]; }
  if(coin(2)){ static int perm[R3D_MAX_VERTS+8]; static r3d_rvec3 V[R3D_MAX_VERTS+8]; for(int i=0;i<m->nv;++i) perm[i]=i; for(int i=m->nv-1;i>0;--i){ int j=rndi(0,i),t=perm[i]; perm[i]=perm[j]; perm[j]=t; } memcpy(V,m->v,sizeof V); for(int i=0;i<m->nv;++i) m->v[perm[i]]=V[i]; for(int f=0;f<m->nf;++f) for(int i=0;i<m->n[f];++i) m->f[f][i]=perm[m->f[f][i]]; } }
/* a face as a cyclic sequence of positions, consecutive repetitions removed; canonical start */
typedef struct { int n; r3d_rvec3 p[R3D_MAX_VERTS*3]; } floop;
static int cmpp(const r3d_rvec3*a,const r3d_rvec3*b){ for(int k=0;k<3;++k){ if(a->xyz[k]<b->xyz[k]) return -1; if(a->xyz[k]>b->xyz[k]) return 1; } return 0; }
static int same_loop(const floop*a,const floop*b){ if(a->n!=b->n) return 0; for(int s=0;s<a->n;++s){ int ok=1; for(int i=0;i<a->n&&ok;++i) if(cmpp(&a->p[i],&b->p[(i+s)%b->n])) ok=0; if(ok) return 1; } return a->n==0; }
static void clean(floop*f){ int n=0; for(int i=0;i<f->n;++i) if(!n||cmpp(&f->p[n-1],&f->p[i])) f->p[n++]=f->p[i]; while(n>1&&!cmpp(&f->p[0],&f->p[n-1])) --n; f->n=n; }
static void check_faces(const r3d_poly*p,int nf,floop**want,const char*w,int reversed){ static faces3 F; static floop g; static char used[3*R3D_MAX_VERTS]; memset(used,0,sizeof used); if(!get_faces(p,&F)) rt_fail("%s: the faces do not close",w); if(F.nf!=nf) rt_fail("%s: the polyhedron has %d faces, the description %d",w,F.nf,nf);
  for(int f=0;f<nf;++f){ g.n=F.off[f+1]-F.off[f]; for(int i=0;i<g.n;++i) g.p[i]=p->verts[F.v[reversed?F.off[f+1]-1-i:F.off[f]+i]].pos; clean(&g); int hit=0; for(int j=0;j<nf&&!hit;++j) if(!used[j]&&same_loop(&g,want[j])){ used[j]=1; hit=1; } if(!hit) rt_fail("%s: face %d of the polyhedron (%d distinct corners, starting at vertex %d) is not a face of the description with the same orientation",w,f,g.n,F.v[F.off[f]]); } }
static floop*mkloop(const r3d_rvec3*v,int n,const int*ix){ floop*l=malloc(offsetof(floop,p)+sizeof(r3d_rvec3)*(n+1)); l->n=n; for(int i=0;i<n;++i) l->p[i]=v[ix[i]]; clean(l); return l; }
static void mesh_moments(const mesh*m,const ld*c,ld*mm,ld*sc){ for(int q=0;q<10;++q) mm[q]=sc[q]=0; for(int f=0;f<m->nf;++f) for(int i=1;i+1<m->n[f];++i){ ld A[3][3]; int id[3]={m->f[f][0],m->f[f][i],m->f[f][i+1]}; for(int q=0;q<3;++q) for(int k=0;k<3;++k) A[q][k]=m->v[id[q]].xyz[k]; tet_moments(c,A[0],A[1],A[2],2,mm,sc); } }
static void ctx_mesh(const mesh*m){ rt_ctx_add("mesh %d vertices %d faces ",m->nv,m->nf); for(int i=0;i<m->nv&&i<40;++i) rt_ctx_add("[%d: (%.17g,%.17g,%.17g)]",i,m->v[i].x,m->v[i].y,m->v[i].z); for(int f=0;f<m->nf&&f<60;++f){ rt_ctx_add(" face("); for(int i=0;i<m->n[f];++i) rt_ctx_add("%d ",m->f[f][i]); rt_ctx_add(")"); } }
static void t_poly(void){ static mesh m; static r3d_poly P; static int val[R3D_MAX_VERTS+8]; while(!rt_time_up()){ int big=coin(40); /* sizes that fill the buffer exactly */ force_n=big&&coin(2); gen_mesh(&m,force_n?(coin(2)?R3D_MAX_VERTS:R3D_MAX_VERTS/4)-(coin(3)?rndi(0,1):0):big?rndi(100,R3D_MAX_VERTS-4):30); force_n=0; int bad=coin(15)?rndi(1,2):0; if(bad==1&&m.nv>=R3D_MAX_VERTS) bad=2; rt_ctx("r3d_init_poly "); 
    if(bad==1&&m.nv<R3D_MAX_VERTS){ m.v[m.nv].x=m.v[m.nv].y=m.v[m.nv].z=0; m.nv++; /* a vertex without faces */ } if(bad==2) m.nv=R3D_MAX_VERTS+rndi(1,3);
    ctx_mesh(&m); memset(val,0,sizeof val); int tot=0,mx=0; for(int f=0;f<m.nf;++f) for(int i=0;i<m.n[f];++i){ val[m.f[f][i]]++; tot++; } int want=0; for(int i=0;i<m.nv;++i){ want+=val[i]-2; if(val[i]>mx) mx=val[i]; }
    memset(&P,0xAA,sizeof P); int r=r3d_init_poly(&P,m.v,m.nv,m.f,m.n,m.nf); 
    if(bad){ if(r) rt_fail("r3d_init_poly accepted an invalid description (case %d)",bad); rt_count(1); continue; }
    if(r!=0&&r!=1) rt_fail("r3d_init_poly returned %d",r);
    if(!r&&(mx==3||tot<=R3D_MAX_VERTS)) rt_fail("r3d_init_poly refused a valid description (%d vertices, %d face corners)",m.nv,tot);
    if(r){ if(want>R3D_MAX_VERTS) rt_fail("r3d_init_poly accepted a description needing %d vertices",want); const char*e; if(P.nverts!=want) rt_fail("r3d_init_poly made %d vertices, expected %d (valence minus two for every vertex)",P.nverts,want); if((e=valid3p(&P))) rt_fail("r3d_init_poly: %s",e);
      static floop*L[4*R3D_MAX_VERTS]; for(int f=0;f<m.nf;++f) L[f]=mkloop(m.v,m.n[f],m.f[f]); check_faces(&P,m.nf,L,"r3d_init_poly",1); for(int f=0;f<m.nf;++f) free(L[f]);
      if(P.nverts<80&&!r3d_is_good(&P)) rt_fail("r3d_init_poly: the result does not pass r3d_is_good");
      ld c[3]={0,0,0},a[10],sa[10],b[10],sb[10]; for(int i=0;i<m.nv;++i) for(int k=0;k<3;++k) c[k]+=(ld)m.v[i].xyz[k]/m.nv; mesh_moments(&m,c,a,sa); poly3_moments(&P,2,c,b,sb); for(int q=0;q<10;++q) if(!(fabsl(a[q]-b[q])<=1e-10L*(sa[q]+sb[q])+1e-290L)) rt_fail("r3d_init_poly: moment %d of the result is %.15Lg, the description encloses %.15Lg",q,b[q],a[q]); if(!(b[0]>0)) rt_fail("r3d_init_poly: volume %.15Lg",b[0]); }
    rt_count(1); } }
static int conn3(const r3d_poly*p){ static int st[3*R3D_MAX_VERTS+9]; static char s[R3D_MAX_VERTS]; memset(s,0,sizeof s); int k=0,c=1; st[k++]=0; s[0]=1; while(k){ int v=st[--k]; for(int q=0;q<3;++q){ int w=p->verts[v].pnbrs[q]; if(!s[w]){ s[w]=1; c++; st[k++]=w; } } } return c==p->nverts; }
static void t_brep(void){ static mesh m; static r3d_poly P,Q,R; while(!rt_time_up()){ memset(&P,0,sizeof P); int parts=coin(3)?rndi(2,6):1,n=0,nc=0; if(coin(40)) parts=0; static int end[8]; 
    for(int c=0;c<parts;++c){ int k=rndi(0,2); if(k==0){ gen_mesh(&m,coin(8)?80:12); if(!r3d_init_poly(&Q,m.v,m.nv,m.f,m.n,m.nf)) break; } else if(k==1){ int cn=coin(20)&&c==0?R3D_MAX_VERTS/2:rndi(3,10); gen_prism(&Q,cn,1); } else gen_poly3(&Q,30,1); if(Q.nverts<=0||!simple3p(&Q)||valid3p(&Q)) break; if(n+Q.nverts>R3D_MAX_VERTS) break;
      if(!conn3(&Q)) break; int coinc=0; /* coincident vertices are merged only when they follow one another in the buffer: keep to that */ for(int a=0;a<Q.nverts;++a) for(int b=a+1;b<Q.nverts;++b) if(!cmpp(&Q.verts[a].pos,&Q.verts[b].pos)) for(int z=a+1;z<b;++z) if(cmpp(&Q.verts[a].pos,&Q.verts[z].pos)) coinc=1; if(k==2) for(int a=0;a<Q.nverts;++a) for(int b=a+1;b<Q.nverts;++b) if(!cmpp(&Q.verts[a].pos,&Q.verts[b].pos)) coinc=1; if(coinc) break;
      if(n&&!cmpp(&P.verts[n-1].pos,&Q.verts[0].pos)) break;
      for(int v=0;v<Q.nverts;++v){ P.verts[n+v]=Q.verts[v]; for(int q=0;q<3;++q) P.verts[n+v].pnbrs[q]+=n; } n+=Q.nverts; end[nc++]=n; }
    P.nverts=n; R=P; rt_ctx("r3d_init_brep, %d components, ",nc); ctx_poly3("poly",&P); r3d_brep*B=(void*)1; int got=-7; r3d_init_brep(&P,&B,&got); if(memcmp(&P,&R,sizeof P)) rt_fail("r3d_init_brep changed the polyhedron"); if(got!=nc) rt_fail("r3d_init_brep found %d components, expected %d",got,nc); 
    for(int c=0;c<nc;++c){ int s=c?end[c-1]:0,k=end[c]-s; memset(&Q,0,sizeof Q); Q.nverts=k; for(int v=0;v<k;++v){ Q.verts[v]=P.verts[s+v]; for(int q=0;q<3;++q) Q.verts[v].pnbrs[q]-=s; } int dist=1; for(int v=1;v<k;++v) dist+=cmpp(&Q.verts[v].pos,&Q.verts[v-1].pos)!=0;
      r3d_brep*b=&B[c]; if(b->numvertices!=dist) rt_fail("r3d_init_brep: component %d has %d vertices, expected %d",c,b->numvertices,dist); for(int i=0;i<dist;++i){ int hit=0; for(int v=0;v<k;++v) hit|=!cmpp(&Q.verts[v].pos,&b->vertices[i]); for(int j=0;j<i;++j) if(!cmpp(&b->vertices[j],&b->vertices[i])) hit=0; if(!hit) rt_fail("r3d_init_brep: vertex %d of component %d is not a vertex of the component, or is repeated",i,c); }
      static floop*L[4*R3D_MAX_VERTS]; if(b->numfaces<0||b->numfaces>3*R3D_MAX_VERTS) rt_fail("r3d_init_brep: %d faces",b->numfaces); for(int f=0;f<b->numfaces;++f){ for(int i=0;i<b->numvertsperface[f];++i) if(b->faceinds[f][i]<0||b->faceinds[f][i]>=dist) rt_fail("r3d_init_brep: face %d of component %d has index %d",f,c,b->faceinds[f][i]); if(b->numvertsperface[f]<3) rt_fail("r3d_init_brep: face %d of component %d has %d vertices",f,c,b->numvertsperface[f]); L[f]=mkloop(b->vertices,b->numvertsperface[f],b->faceinds[f]); if(L[f]->n!=b->numvertsperface[f]) rt_fail("r3d_init_brep: face %d of component %d repeats a vertex",f,c); }
      check_faces(&Q,b->numfaces,L,"r3d_init_brep",1); for(int f=0;f<b->numfaces;++f) free(L[f]);
      static r3d_poly T; if(r3d_init_poly(&T,b->vertices,b->numvertices,b->faceinds,b->numvertsperface,b->numfaces)){ ld c0[3]={P3(&Q,0)[0],P3(&Q,0)[1],P3(&Q,0)[2]},x[10],sx[10],y[10],sy[10]; poly3_moments(&Q,2,c0,x,sx); poly3_moments(&T,2,c0,y,sy); for(int q=0;q<10;++q) if(!(fabsl(x[q]-y[q])<=1e-9L*(sx[q]+sy[q])+1e-290L)) rt_fail("moment %d changes from %.15Lg to %.15Lg on the way through r3d_init_brep and r3d_init_poly",q,x[q],y[q]); } }
    if(!nc&&B) rt_fail("r3d_init_brep of an empty polyhedron returned an array"); r3d_free_brep(&B,got); rt_count(nc>0); if(rt_evals%2000==0&&__lsan_do_recoverable_leak_check()) rt_fail("memory allocated by r3d_init_brep is not freed by r3d_free_brep"); } }
const struct rt_test rt_tests[]={{"poly",t_poly},{"brep",t_brep},{0,0}};
