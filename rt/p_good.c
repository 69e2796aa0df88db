/* is_good: 1 exactly for vertex graphs that meet the documented conditions */
#define rt_tests clip_tests
#include "p_clip.c"
#undef rt_tests
static int link_mut(int n){ switch(rndi(0,9)){ case 0: return -1; case 1: return n; case 2: return n+rndi(0,3); case 3: return -rndi(1,2000000); default: return rndi(0,n-1); } }
static void t_good2(void){ static r2d_poly P,K; while(!rt_time_up()){ memset(&P,0xAA,sizeof P); int n=coin(30)?rndi(0,2):coin(20)?R2D_MAX_VERTS:rndi(3,14),k=0; P.nverts=n; 
    while(k<n){ int L=n-k; if(L>=6&&coin(3)) L=rndi(3,L-3); for(int i=0;i<L;++i){ P.verts[k+i].pnbrs[0]=k+(i+1)%L; P.verts[k+i].pnbrs[1]=k+(i+L-1)%L; } k+=L; }
    int m=coin(3)?0:rndi(1,3); for(int i=0;i<m&&n>0;++i){ int a=rndi(0,n-1),b=rndi(0,n-1),p=rndi(0,1),q=rndi(0,1); if(coin(2)){ int t=P.verts[a].pnbrs[p]; P.verts[a].pnbrs[p]=P.verts[b].pnbrs[q]; P.verts[b].pnbrs[q]=t; } else if(coin(4)) P.verts[a].pnbrs[p]=a; else P.verts[a].pnbrs[p]=link_mut(n); }
    if(coin(5)) for(int v=0;v<n;++v) for(int q=0;q<2;++q) P.verts[v].pnbrs[q]=rndi(0,n-1);
    int want=1,cnt[R2D_MAX_VERTS]={0}; for(int v=0;v<n;++v){ int a=P.verts[v].pnbrs[0],b=P.verts[v].pnbrs[1]; if(a==b||a==v||b==v||a<0||b<0||a>=n||b>=n) want=0; else { cnt[a]++; cnt[b]++; } } for(int v=0;v<n;++v) if(cnt[v]!=2) want=0;
    rt_ctx("r2d_is_good nverts=%d links",n); for(int v=0;v<n;++v) rt_ctx_add(" (%d,%d)",P.verts[v].pnbrs[0],P.verts[v].pnbrs[1]); K=P; int r=r2d_is_good(&P); if((r!=0)!=want||(want&&r!=1)) rt_fail("r2d_is_good returned %d, expected %d",r,want); if(memcmp(&K,&P,sizeof P)) rt_fail("r2d_is_good changed the polygon"); rt_count(n>0); } }
/* generic oracle over adjacency lists nb[v][0..D-1] */
static int reach_all(int n,int D,const int*nb,const int*comp,int c,const char*dead,int start){ static int st[1<<13]; static char seen[1024]; memset(seen,0,n); int k=0; st[k++]=start; seen[start]=1; while(k){ int v=st[--k]; for(int q=0;q<D;++q){ int w=nb[v*D+q]; if(!dead[w]&&!seen[w]){ seen[w]=1; st[k++]=w; } } } for(int v=0;v<n;++v) if(comp[v]==c&&!dead[v]&&!seen[v]) return 0; return 1; }
/* 1 good, 0 bad, -1 no claim (one-way links) */
static int good_oracle(int n,int D,const int*nb){ static int cnt[1024],comp[1024]; memset(cnt,0,sizeof cnt); for(int v=0;v<n;++v) for(int q=0;q<D;++q){ int w=nb[v*D+q]; if(w<0||w>=n||w==v) return 0; for(int r=0;r<q;++r) if(nb[v*D+r]==w) return 0; cnt[w]++; } for(int v=0;v<n;++v) if(cnt[v]!=D) return 0;
  for(int v=0;v<n;++v) for(int q=0;q<D;++q){ int w=nb[v*D+q],f=0; for(int r=0;r<D;++r) f|=nb[w*D+r]==v; if(!f) return -1; }
  int nc=0; memset(comp,0,sizeof comp); static int st[1<<13]; for(int v=0;v<n;++v) if(!comp[v]){ ++nc; int k=0; st[k++]=v; comp[v]=nc; while(k){ int u=st[--k]; for(int q=0;q<D;++q){ int w=nb[u*D+q]; if(!comp[w]){ comp[w]=nc; st[k++]=w; } } } }
  /* remove every set of D-1 vertices of a component */
  static char dead[1024]; int id[8],k=D-1; for(int c=1;c<=nc;++c){ static int vs[1024]; int m=0; for(int v=0;v<n;++v) if(comp[v]==c) vs[m++]=v; if(m<=k) return 0; for(int i=0;i<k;++i) id[i]=i; for(;;){ memset(dead,0,n); for(int i=0;i<k;++i) dead[vs[id[i]]]=1; int s=-1; for(int i=0;i<m;++i) if(!dead[vs[i]]){ s=vs[i]; break; } if(!reach_all(n,D,nb,comp,c,dead,s)) return 0; int i=k-1; while(i>=0&&id[i]==m-k+i) --i; if(i<0) break; ++id[i]; for(int j=i+1;j<k;++j) id[j]=id[j-1]+1; } }
  return 1; }
static void switch_edges(int n,int D,int*nb,int times){ for(int z=0;z<times;++z){ int a=rndi(0,n-1),p=rndi(0,D-1),c=rndi(0,n-1),q=rndi(0,D-1),b=nb[a*D+p],d=nb[c*D+q]; if(a==c||a==d||b==c||b==d) continue; int pb,qd; for(pb=0;pb<D;++pb) if(nb[b*D+pb]==a) break; for(qd=0;qd<D;++qd) if(nb[d*D+qd]==c) break; if(pb==D||qd==D) continue; nb[a*D+p]=d; nb[d*D+qd]=a; nb[c*D+q]=b; nb[b*D+pb]=c; } }
static void mutate(int n,int D,int*nb){ int m=rndi(1,3); for(int i=0;i<m;++i){ int a=rndi(0,n-1),b=rndi(0,n-1),p=rndi(0,D-1),q=rndi(0,D-1); switch(rndi(0,3)){ case 0: { int t=nb[a*D+p]; nb[a*D+p]=nb[b*D+q]; nb[b*D+q]=t; break; } case 1: nb[a*D+p]=a; break; case 2: nb[a*D+p]=nb[a*D+q]; break; default: nb[a*D+p]=link_mut(n); } } }
static void t_good3(void){ static r3d_poly P,K,Q; static int nb[3*R3D_MAX_VERTS]; while(!rt_time_up()){ memset(&P,0,sizeof P); int n=0,parts=coin(3)?rndi(2,3):1; if(coin(60)) parts=0; int big=coin(300);
    for(int c=0;c<parts;++c){ if(coin(2)) gen_poly3(&Q,14,1); else { int m=coin(3)?rndi(3,8):3; gen_prism(&Q,m,1); if(coin(3)){ r3d_rvec3 v[4]={{{0,0,0}},{{1,0,0}},{{0,1,0}},{{0,0,1}}}; r3d_init_tet(&Q,v); } } if(big) gen_prism(&Q,R3D_MAX_VERTS/2,1); if(Q.nverts<=0||n+Q.nverts>R3D_MAX_VERTS||(!big&&n+Q.nverts>60)) break; for(int v=0;v<Q.nverts;++v) for(int q=0;q<3;++q) nb[3*(n+v)+q]=n+Q.verts[v].pnbrs[q]; n+=Q.nverts; if(big) break; }
    if(n>0&&coin(2)) switch_edges(n,3,nb,rndi(1,coin(2)?2:20)); if(n>0&&coin(3)) mutate(n,3,nb);
    int want=n>100?-1:good_oracle(n,3,nb); P.nverts=n; for(int v=0;v<n;++v) for(int q=0;q<3;++q) P.verts[v].pnbrs[q]=nb[3*v+q]; rt_ctx("r3d_is_good nverts=%d links",n); for(int v=0;v<n&&v<100;++v) rt_ctx_add(" (%d,%d,%d)",nb[3*v],nb[3*v+1],nb[3*v+2]);
    K=P; int r=r3d_is_good(&P); if(want>=0&&((r!=0)!=want||(want&&r!=1))) rt_fail("r3d_is_good returned %d, expected %d",r,want); if(memcmp(&K,&P,sizeof P)) rt_fail("r3d_is_good changed the polyhedron"); rt_count(n>0); } }
static void t_goodN(void){ static rNd_poly P,K,Q; static hrep h; static int nb[ND*RND_MAX_VERTS]; while(!rt_time_up()){ memset(&P,0,sizeof P); int n=0,parts=coin(3)?2:1; if(coin(60)) parts=0; int big=coin(2000);
    for(int c=0;c<parts;++c){ if(!gen_hN(&Q,&h,MXC)) break; for(int z=rndi(0,1);z>0;--z){ rNd_plane H=gen_planeN(&Q); static rNd_poly b; b=Q; rNd_clip(&b,&H,1); if(b.nverts>0&&b.nverts<22) Q=b; } if(n+Q.nverts>34) break; for(int v=0;v<Q.nverts;++v) for(int q=0;q<ND;++q) nb[ND*(n+v)+q]=n+Q.verts[v].pnbrs[q]; n+=Q.nverts; } (void)big;
    if(n>0&&coin(2)) switch_edges(n,ND,nb,rndi(1,coin(2)?2:20)); if(n>0&&coin(3)) mutate(n,ND,nb);
    int want=good_oracle(n,ND,nb); P.nverts=n; for(int v=0;v<n;++v) for(int q=0;q<ND;++q) P.verts[v].pnbrs[q]=nb[ND*v+q]; rt_ctx("rNd_is_good nverts=%d links",n); for(int v=0;v<n;++v){ rt_ctx_add(" ("); for(int q=0;q<ND;++q) rt_ctx_add("%d ",nb[ND*v+q]); rt_ctx_add(")"); }
    K=P; int r=rNd_is_good(&P); if(want>=0&&((r!=0)!=want||(want&&r!=1))) rt_fail("rNd_is_good returned %d, expected %d",r,want); if(memcmp(&K,&P,sizeof P)) rt_fail("rNd_is_good changed the polytope"); rt_count(n>0); } }
const struct rt_test rt_tests[]={{"good2",t_good2},{"good3",t_good3},{"goodN",t_goodN},{0,0}};
