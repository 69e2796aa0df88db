/* split in 2, 3 and N dimensions: each output is the part of the input on its side of the plane */
#define rt_tests clip_tests
#include "p_clip.c"
#undef rt_tests
void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
static void parts2(const r2d_poly*a,r2d_plane h,const r2d_poly*op,const r2d_poly*on,const char*w){ static char nm[2][64]; G_split=1;
  sprintf(nm[0],"%s, non-negative side",w); sprintf(nm[1],"%s, negative side",w);
  G_strict=0; G_name=nm[0]; check_step2(a,h,op); r2d_plane g=h; for(int k=0;k<2;++k) g.n.xy[k]=-h.n.xy[k]; g.d=-h.d; G_strict=1; G_name=nm[1]; check_step2(a,g,on); }
static void parts3(const r3d_poly*a,r3d_plane h,const r3d_poly*op,const r3d_poly*on,const char*w){ static char nm[2][64]; G_split=1;
  sprintf(nm[0],"%s, non-negative side",w); sprintf(nm[1],"%s, negative side",w);
  G_strict=0; G_name=nm[0]; check_step3(a,h,op,1); r3d_plane g=h; for(int k=0;k<3;++k) g.n.xyz[k]=-h.n.xyz[k]; g.d=-h.d; G_strict=1; G_name=nm[1]; check_step3(a,g,on,1); }
static int cross2(const r2d_poly*a,r2d_plane h,int*sure){ static ld s[R2D_MAX_VERTS]; ld sc; int c=0; *sure=classify(a->nverts,2,pos2,a,h.n.xy,h.d,s,&sc); for(int v=0;v<a->nverts;++v) for(int q=0;q<2;++q) c+=s[v]>=0&&s[a->verts[v].pnbrs[q]]<0; return c; }
static int cross3(const r3d_poly*a,r3d_plane h,int*sure){ static ld s[R3D_MAX_VERTS]; ld sc; int c=0; *sure=classify(a->nverts,3,pos3,a,h.n.xyz,h.d,s,&sc); for(int v=0;v<a->nverts;++v) for(int q=0;q<3;++q) c+=s[v]>=0&&s[a->verts[v].pnbrs[q]]<0; return c; }
#define NP 4
static void t_split2(void){ static r2d_poly in[NP+1],keep[NP+1],op[NP+1],on[NP+1]; int sure; while(!rt_time_up()){
    int np=coin(3)?rndi(0,NP):1; r2d_plane h; memset(op,0x55,sizeof op); memset(on,0x55,sizeof on); rt_ctx("r2d_split of %d polygons ",np);
    for(int p=0;p<np;++p){ if(coin(20)){ memset(&in[p],0,sizeof in[p]); in[p].nverts=-rndi(0,2); } else gen_poly2(&in[p],coin(10)?R2D_MAX_VERTS/2:24,0); if(p==0||coin(8)) h=gen_plane2(&in[p]); }
    if(coin(6)) for(int p=1;p<np;++p) in[p]=in[p-1];
    if(!np) { memset(&h,0,sizeof h); h.n.x=1; }
    int ok=1; for(int p=0;p<np;++p) if(in[p].nverts>0){ int c=cross2(&in[p],h,&sure); if(in[p].nverts+2*c>R2D_MAX_VERTS-(sure?0:8)) ok=0; } if(!ok) continue;
    memcpy(keep,in,sizeof in); rt_ctx_add("plane n=(%.17g,%.17g) d=%.17g ",h.n.x,h.n.y,h.d); for(int p=0;p<np;++p) ctx_poly2("poly",&in[p]);
    r2d_split(in,np,h,op,on);
    for(int p=0;p<np;++p){ if(keep[p].nverts<=0){ if(op[p].nverts||on[p].nverts) rt_fail("r2d_split: empty polygon %d gives %d and %d vertices",p,op[p].nverts,on[p].nverts); continue; } rt_ctx_add("(checking polygon %d)",p); parts2(&keep[p],h,&op[p],&on[p],"r2d_split"); }
    for(int p=np;p<=NP;++p) for(unsigned i=0;i<sizeof op[p];++i) if(((unsigned char*)&op[p])[i]!=0x55||((unsigned char*)&on[p])[i]!=0x55) rt_fail("r2d_split wrote output %d although only %d polygons were given",p,np);
    rt_count(np>0); } }
static void t_split3(void){ static r3d_poly in[NP+1],keep[NP+1],op[NP+1],on[NP+1]; int sure; while(!rt_time_up()){
    int np=coin(3)?rndi(0,NP):1; r3d_plane h; memset(op,0x55,sizeof op); memset(on,0x55,sizeof on); rt_ctx("r3d_split of %d polyhedra ",np); int bad=0;
    for(int p=0;p<np;++p){ if(coin(20)){ memset(&in[p],0,sizeof in[p]); in[p].nverts=-rndi(0,2); } else if(coin(25)) gen_prism(&in[p],coin(3)?R3D_MAX_VERTS/6:rndi(60,R3D_MAX_VERTS/2),1); else gen_poly3(&in[p],coin(10)?R3D_MAX_VERTS*2/3:50,1); if(in[p].nverts>0&&!simple3p(&in[p])) bad=1; if(p==0||coin(8)) h=gen_plane3(&in[p]); } if(bad) continue;
    if(coin(6)) for(int p=1;p<np;++p) in[p]=in[p-1];
    if(!np) { memset(&h,0,sizeof h); h.n.x=1; }
    int want=1,upto=np,unsure=0; for(int p=0;p<np;++p) if(in[p].nverts>0){ int c=cross3(&in[p],h,&sure); if(!sure&&in[p].nverts+2*c>R3D_MAX_VERTS-30) unsure=1; if(sure&&c&&in[p].nverts+2*c>R3D_MAX_VERTS){ want=0; upto=p; break; } } if(unsure) continue;
    memcpy(keep,in,sizeof in); rt_ctx_add("plane n=(%.17g,%.17g,%.17g) d=%.17g ",h.n.x,h.n.y,h.n.z,h.d); for(int p=0;p<np;++p) ctx_poly3("poly",&in[p]);
    int r=r3d_split(in,np,h,op,on); if(r!=want) rt_fail("r3d_split returned %d, expected %d (room for the new vertices of every polyhedron: %d)",r,want,want);
    for(int p=0;p<upto;++p){ if(keep[p].nverts<=0){ if(op[p].nverts||on[p].nverts) rt_fail("r3d_split: empty polyhedron %d gives %d and %d vertices",p,op[p].nverts,on[p].nverts); continue; } rt_ctx_add("(checking polyhedron %d)",p); parts3(&keep[p],h,&op[p],&on[p],"r3d_split"); }
    for(int p=np;p<=NP;++p) for(unsigned i=0;i<sizeof op[p];++i) if(((unsigned char*)&op[p])[i]!=0x55||((unsigned char*)&on[p])[i]!=0x55) rt_fail("r3d_split wrote output %d although only %d polyhedra were given",p,np);
    rt_count(np>0); } }
static void t_coord2(void){ static r2d_poly in,keep,o[2]; int sure; while(!rt_time_up()){ gen_poly2(&in,coin(10)?R2D_MAX_VERTS/2:24,0); int ax=rndi(0,1); r2d_plane h=gen_plane2(&in); memset(&h,0,sizeof h); double c; { double u=0,w=0; for(int i=0;i<3;++i){ double t=rnd01(); w+=t; u+=t*P2(&in,rndi(0,in.nverts-1))[ax]; } c=u/w; if(coin(5)) c=P2(&in,rndi(0,in.nverts-1))[ax]; if(coin(12)) c+=rndu(-3,3); if(coin(4)) c=rint(c*2)/2; }
    h.n.xy[ax]=-1; h.d=c; int k=cross2(&in,h,&sure); if(in.nverts+2*k>R2D_MAX_VERTS-(sure?0:8)) continue; keep=in; memset(o,0x55,sizeof o); int al=coin(2); r2d_poly*out[2]={al?&in:&o[0],&o[1]}; rt_ctx("r2d_split_coord axis %d coordinate %.17g%s ",ax,c,al?" in place":""); ctx_poly2("poly",&in); r2d_split_coord(&in,out,c,ax); parts2(&keep,h,out[0],out[1],"r2d_split_coord"); rt_count(1); } }
static void t_coord3(void){ static r3d_poly in,keep,o[2]; int sure; while(!rt_time_up()){ if(coin(25)) gen_prism(&in,R3D_MAX_VERTS/6,1); else gen_poly3(&in,coin(10)?R3D_MAX_VERTS/2:50,1); if(in.nverts<=0||!simple3p(&in)) continue; int ax=rndi(0,2); r3d_plane h; memset(&h,0,sizeof h); double c; { double u=0,w=0; for(int i=0;i<4;++i){ double t=rnd01(); w+=t; u+=t*P3(&in,rndi(0,in.nverts-1))[ax]; } c=u/w; if(coin(5)) c=P3(&in,rndi(0,in.nverts-1))[ax]; if(coin(12)) c+=rndu(-3,3); if(coin(4)) c=rint(c*2)/2; }
    h.n.xyz[ax]=-1; h.d=c; int k=cross3(&in,h,&sure); if(in.nverts+2*k>R3D_MAX_VERTS-(sure?0:30)) continue; keep=in; memset(o,0x55,sizeof o); int al=coin(2); r3d_poly*out[2]={al?&in:&o[0],&o[1]}; rt_ctx("r3d_split_coord axis %d coordinate %.17g%s ",ax,c,al?" in place":""); ctx_poly3("poly",&in); r3d_split_coord(&in,out,c,ax); parts3(&keep,h,out[0],out[1],"r3d_split_coord"); rt_count(1); } }
static void t_splitN(void){ static rNd_poly a,o[2],keep; static hrep h,g; static vrep V; while(!rt_time_up()){ if(!gen_hN(&a,&h,MXC)) continue; int cuts=coin(2)?0:rndi(1,3),ok=1; rt_ctx("rNd_split: "); 
    for(int k=0;k<cuts&&ok;++k){ rNd_plane H=gen_planeN(&a); int bad=0; double cen[ND]={0}; for(int v=0;v<a.nverts;++v) for(int j=0;j<ND;++j) cen[j]+=a.verts[v].pos.xyz[j]/a.nverts; double s0=H.d; for(int j=0;j<ND;++j) s0+=H.n.xyz[j]*cen[j]; if(s0<0){ for(int j=0;j<ND;++j) H.n.xyz[j]*=-1; H.d*=-1; } for(int v=0;v<a.nverts;++v){ ld s=H.d; for(int j=0;j<ND;++j) s+=(ld)H.n.xyz[j]*a.verts[v].pos.xyz[j]; if(fabsl(s)<1e-6L) bad=1; } if(bad) break; static rNd_poly b; b=a; rNd_clip(&b,&H,1); if(b.nverts<=0||b.nverts>80) break; a=b; for(int j=0;j<ND;++j) h.a[h.n][j]=H.n.xyz[j]; h.d[h.n++]=H.d; }
    if(!enumN(&h,&V)||V.n!=a.nverts) continue; /* a degenerate start */
    int ax=rndi(0,ND-1); double c,u=0,w=0; for(int i=0;i<4;++i){ double t=rnd01(); w+=t; u+=t*a.verts[rndi(0,a.nverts-1)].pos.xyz[ax]; } c=u/w; if(coin(12)) c+=rndu(-3,3); if(coin(4)) c=rint(c*2)/2; int bad=0,nl=0,nr=0; for(int v=0;v<a.nverts;++v){ double x=a.verts[v].pos.xyz[ax]; if(fabs(x-c)<1e-7) bad=1; if(x<c) nl++; else nr++; } if(bad) continue;
    ctxN(&a); rt_ctx_add(" axis %d coordinate %.17g",ax,c); keep=a; memset(o,0x55,sizeof o); int al=coin(2); rNd_poly*out[2]={al?&a:&o[0],&o[1]}; rNd_split(&a,out,c,ax); if(!al&&memcmp(&a,&keep,sizeof a)) rt_fail("rNd_split changed its input");
    for(int sd=0;sd<2;++sd){ const char*w2=sd?"rNd_split, upper part":"rNd_split, lower part"; int mine=sd?nr:nl; if(!mine){ if(out[sd]->nverts!=0) rt_fail("%s: no vertex is on this side, the result has %d vertices",w2,out[sd]->nverts); continue; }
      g=h; for(int j=0;j<ND;++j) g.a[g.n][j]=0; g.a[g.n][ax]=sd?1:-1; g.d[g.n]=sd?-c:c; g.n++; if(!enumN(&g,&V)) { ok=0; break; } compareN(out[sd],&g,&V,w2); }
    if(ok) rt_count(1); } }
const struct rt_test rt_tests[]={{"split2",t_split2},{"split3",t_split3},{"coord2",t_coord2},{"coord3",t_coord3},{"splitN",t_splitN},{0,0}};
