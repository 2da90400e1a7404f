// C19, C20: mesh construction protocol and storage.  Never executed; analysed as IR.
#include "probe.h"
#include <new>
// storage handed out block by block, so that sizes and releases are visible
struct Heap { alignas(16) char mem[13*8192]; long size[12]; int freed[12]; int n; int bad; int built; };
static Heap H; static const int OFS[12]={16,48,32,96,16,208,64,336,112,480,80,640}; // uneven, so that the optimiser keeps plain comparisons
#define BLK(k) ((void*)(H.mem+(k)*8192+OFS[k]))
static inline void* get(size_t s){ int k=H.n++; H.size[k]=(long)s; H.freed[k]=0; return BLK(k); }
static inline void put(void*p){ if(!p) return; for(int k=0;k<12;++k) if(p==BLK(k)) { ++H.freed[k]; return; } H.bad=1; }
void* operator new[](size_t s){ return get(s); } void* operator new[](size_t s,const std::nothrow_t&) noexcept { return get(s); } void operator delete[](void*p) noexcept { put(p); } void operator delete[](void*p,size_t) noexcept { put(p); }
#include "fcl/geometry/bvh/BVH_model.h"
using namespace fcl;
typedef AABB<double> BV; typedef BVHModel<BV> M;
//! n+drop std::(basic_)?ostream|std::__ostream|std::ios
// the tree is C26's; here only that it is built (1), refitted top-down (2) or bottom-up (3), and in which order
template<> int M::buildTree(){ H.built=H.built*10+1; return 0; }
template<> int M::refitTree_topdown(){ H.built=H.built*10+2; return 0; }
template<> int M::refitTree_bottomup(){ H.built=H.built*10+3; return 0; }
// one property looks at storage, the other at the protocol
#if CHK==20
#define KEEP(i) ((i)==4||(i)==5||(i)==7)
#else
#define KEEP(i) !((i)==4||(i)==5||(i)==7)
#endif
enum { NOUT=64 };
static inline void keep(const double*t,double*out){ for(int i=0;i<NOUT;++i) if(KEEP(i)) out[i]=t[i]; }
#define TWO(NAME,I,S) PROBE impl_##NAME(const double*in,double*out){ double t[NOUT]; __builtin_memset(t,0,sizeof t); { double*o_=t; I; } keep(t,out); } PROBE spec_##NAME(const double*in,double*out){ double t[NOUT]; __builtin_memset(t,0,sizeof t); { double*o_=t; S; } keep(t,out); }
#define START H.n=0; H.bad=0; H.built=0
static inline void blank(M&c){ for(int i=0;i<2;++i) ((void**)&c.bv_splitter)[i]=((void**)&c.bv_fitter)[i]=nullptr; c.user_data=nullptr; c.num_vertex_updated=0; }
#define HOLD alignas(16) char b[sizeof(M)]; __builtin_memset(b,0,sizeof b); M&m=*(M*)b; START
#define ST(k) ((BVHBuildState)*(int*)(in+(k)))
static inline int blk(const void*p){ for(int k=0;k<12;++k) if(p==BLK(k)) return k; return -1; }
// is there room for n elements in the block a pointer denotes, and is it not released
static inline bool cap(const void*p,long e,long n){ int k=blk(p); return k<0||H.freed[k]?n==0&&!p:H.size[k]>=n*e; }
// every block is either held by exactly the pointers given or released exactly once
static inline bool held(const void*const*p,int n){ bool ok=!H.bad; for(int k=0;k<H.n;++k){ int c=0; for(int i=0;i<n;++i) c+=blk(p[i])==k; ok=ok&&c+H.freed[k]==1; } return ok; }
static inline bool owns(const M&m){ const void*p[5]={m.vertices,m.tri_indices,m.prev_vertices,m.primitive_indices,m.bvs}; return held(p,5); }
static inline bool owns2(const M&m,const M&o){ const void*p[10]={m.vertices,m.tri_indices,m.prev_vertices,m.primitive_indices,m.bvs,o.vertices,o.tri_indices,o.prev_vertices,o.primitive_indices,o.bvs}; return held(p,10); }
// n vertices in a block for a, t triangles in a block for c
static inline void mk(M&m,const double*in,int n,int a,int t,int c){ m.vertices=(V3*)(a?get(a*sizeof(V3)):nullptr); m.num_vertices=n; m.num_vertices_allocated=a; for(int i=0;i<n;++i) m.vertices[i]=V3(in[3*i],in[3*i+1],in[3*i+2]);
  m.tri_indices=(Triangle*)(c?get(c*sizeof(Triangle)):nullptr); m.num_tris=t; m.num_tris_allocated=c; for(int i=0;i<t;++i) m.tri_indices[i].set(i+5,i+6,i+8); m.prev_vertices=nullptr; m.bvs=nullptr; m.num_bvs=m.num_bvs_allocated=0; m.primitive_indices=nullptr; m.num_vertex_updated=0; }
// a finished one: tree of 2p-1 nodes, optionally a previous frame
static inline void mkfull(M&m,const double*in,int n,int t,bool prev){ mk(m,in,n,n,t,t); int p=t?t:n; m.num_bvs=m.num_bvs_allocated=2*p-1; m.bvs=(BVNode<BV>*)get((2*p-1)*sizeof(BVNode<BV>)); for(int i=0;i<2*p-1;++i){ m.bvs[i].first_child=7+i; m.bvs[i].first_primitive=9+i; m.bvs[i].num_primitives=11+i; m.bvs[i].bv.min_=V3(in[0],in[1],i); m.bvs[i].bv.max_=V3(in[1],i,in[2]); }
  m.primitive_indices=(unsigned*)get((2*p-1)*sizeof(unsigned)); for(int i=0;i<p;++i) m.primitive_indices[i]=20+i; if(prev){ m.prev_vertices=(V3*)get(n*sizeof(V3)); for(int i=0;i<n;++i) m.prev_vertices[i]=V3(in[3*i]+1,in[3*i+1]+2,in[3*i+2]+3); } }
static inline void vec(void*v,const void*p,long bytes){ const char**q=(const char**)v; q[0]=(const char*)p; q[1]=q[2]=q[0]+bytes; }
static inline bool room(const M&m){ bool ok=cap(m.vertices,sizeof(V3),m.num_vertices)&&cap(m.vertices,sizeof(V3),m.num_vertices_allocated); if(m.tri_indices||m.num_tris||m.num_tris_allocated) ok=ok&&cap(m.tri_indices,sizeof(Triangle),m.num_tris)&&cap(m.tri_indices,sizeof(Triangle),m.num_tris_allocated); return ok; }
// code, state, sizes; room; ownership; contents
static inline void obs(const M&m,double*out,int r){ out[0]=r; out[1]=m.build_state; out[2]=m.num_vertices; out[3]=m.num_tris; out[4]=room(m); out[5]=owns(m); out[6]=H.built; }
static inline void std_(const double*in,double*out,int r,double st,int n,int t,int built=0){ out[0]=r; out[1]=st; out[2]=n; out[3]=t; out[4]=out[5]=1; out[6]=built; }
static inline void tri(double*o,const Triangle&t){ o[0]=(double)t[0]; o[1]=(double)t[1]; o[2]=(double)t[2]; }
#define BEGUN (ST(0)==BVH_BUILD_STATE_BEGUN)
#define IN (in+16)
#define OUT (out+8)
// ---- adding.  in[0] state, in[1..] new data, in[16..] old vertices
#define VS(k) V3(in[3*(k)+1],in[3*(k)+2],in[3*(k)+3])
template<int N,int A> static inline void iaddv(const double*in,double*out){ HOLD; mk(m,IN,N,A,0,0); m.build_state=ST(0); int r=m.addVertex(VS(0)); obs(m,out,r); for(int i=0;i<N;++i) pv(OUT+3*i,m.vertices[i]); if(r==0) pv(OUT+3*N,m.vertices[N]); }
template<int N,int A> static inline void saddv(const double*in,double*out){ bool ok=BEGUN; std_(in,out,ok?BVH_OK:BVH_ERR_BUILD_OUT_OF_SEQUENCE,ST(0),N+ok,0); for(int i=0;i<3*N;++i) OUT[i]=IN[i]; if(ok) for(int k=0;k<3;++k) OUT[3*N+k]=in[1+k]; }
template<int N,int A,int T,int C> static inline void iaddt(const double*in,double*out){ HOLD; mk(m,IN,N,A,T,C); m.build_state=ST(0); int r=m.addTriangle(VS(0),VS(1),VS(2)); obs(m,out,r); for(int i=0;i<N;++i) pv(OUT+3*i,m.vertices[i]); for(int i=0;i<T;++i) tri(OUT+3*N+9+3*i,m.tri_indices[i]); if(r==0){ for(int i=0;i<3;++i) pv(OUT+3*(N+i),m.vertices[N+i]); tri(OUT+3*N+9+3*T,m.tri_indices[T]); } }
template<int N,int A,int T,int C> static inline void saddt(const double*in,double*out){ bool ok=BEGUN; std_(in,out,ok?BVH_OK:BVH_ERR_BUILD_OUT_OF_SEQUENCE,ST(0),N+3*ok,T+ok); for(int i=0;i<3*N;++i) OUT[i]=IN[i]; for(int i=0;i<T;++i) for(int k=0;k<3;++k) OUT[3*N+9+3*i+k]=k==2?i+8:i+5+k; if(ok){ for(int i=0;i<9;++i) OUT[3*N+i]=in[1+i]; for(int k=0;k<3;++k) OUT[3*N+9+3*T+k]=N+k; } }
template<int N,int A,int K> static inline void iadds(const double*in,double*out){ HOLD; mk(m,IN,N,A,0,0); m.build_state=ST(0); std::vector<V3> ps; vec(&ps,in+1,K*sizeof(V3)); int r=m.addSubModel(ps); vec(&ps,nullptr,0); obs(m,out,r); for(int i=0;i<N;++i) pv(OUT+3*i,m.vertices[i]); if(r==0) for(int i=0;i<K;++i) pv(OUT+3*(N+i),m.vertices[N+i]); }
template<int N,int A,int K> static inline void sadds(const double*in,double*out){ bool ok=BEGUN; std_(in,out,ok?BVH_OK:BVH_ERR_BUILD_OUT_OF_SEQUENCE,ST(0),N+K*ok,0); for(int i=0;i<3*N;++i) OUT[i]=IN[i]; if(ok) for(int i=0;i<3*K;++i) OUT[3*N+i]=in[1+i]; }
template<int N,int A,int T,int C,int K,int J> static inline void iaddst(const double*in,double*out){ HOLD; mk(m,IN,N,A,T,C); m.build_state=ST(0); std::vector<V3> ps; vec(&ps,in+1,K*sizeof(V3)); Triangle ts_[J]; for(int i=0;i<J;++i) ts_[i].set(i,2*i+1,i+2); std::vector<Triangle> ts; vec(&ts,ts_,sizeof ts_); int r=m.addSubModel(ps,ts); vec(&ps,nullptr,0); vec(&ts,nullptr,0); obs(m,out,r); for(int i=0;i<N;++i) pv(OUT+3*i,m.vertices[i]); for(int i=0;i<T;++i) tri(OUT+3*(N+K)+3*i,m.tri_indices[i]);
  if(r==0){ for(int i=0;i<K;++i) pv(OUT+3*(N+i),m.vertices[N+i]); for(int i=0;i<J;++i) tri(OUT+3*(N+K+T)+3*i,m.tri_indices[T+i]); } }
template<int N,int A,int T,int C,int K,int J> static inline void saddst(const double*in,double*out){ bool ok=BEGUN; std_(in,out,ok?BVH_OK:BVH_ERR_BUILD_OUT_OF_SEQUENCE,ST(0),N+K*ok,T+J*ok); for(int i=0;i<3*N;++i) OUT[i]=IN[i]; for(int i=0;i<T;++i) for(int k=0;k<3;++k) OUT[3*(N+K)+3*i+k]=k==2?i+8:i+5+k;
  if(ok){ for(int i=0;i<3*K;++i) OUT[3*N+i]=in[1+i]; for(int i=0;i<J;++i){ double*o=OUT+3*(N+K+T)+3*i; o[0]=N+i; o[1]=N+2*i+1; o[2]=N+i+2; } } }
#define COMMA ,
#define AV(N,A) TWO(addv_##N##_##A,(iaddv<N,A>(in,o_)),(saddv<N,A>(in,o_)))
//@ addv_0_8 what="addVertex: empty, room for 8" events=none
AV(0,8)
//@ addv_0_0 what="addVertex: empty, no storage" events=none
AV(0,0)
//@ addv_1_1 what="addVertex: 1 of 1" events=none
AV(1,1)
//@ addv_2_3 what="addVertex: 2 of 3" events=none
AV(2,3)
//@ addv_3_3 what="addVertex: 3 of 3" events=none
AV(3,3)
#define AT(N,A,T,C) TWO(addt_##N##_##A##_##T##_##C,(iaddt<N,A,T,C>(in,o_)),(saddt<N,A,T,C>(in,o_)))
//@ addt_0_0_0_0 what="addTriangle: no storage" events=none
AT(0,0,0,0)
//@ addt_0_8_0_0 what="addTriangle: room for vertices, none for triangles" events=none
AT(0,8,0,0)
//@ addt_0_1_0_8 what="addTriangle: 0 of 1 vertex" events=none
AT(0,1,0,8)
//@ addt_0_2_0_8 what="addTriangle: 0 of 2 vertices" events=none
AT(0,2,0,8)
//@ addt_0_3_0_1 what="addTriangle: 0 of 3 vertices" events=none
AT(0,3,0,1)
//@ addt_1_3_1_1 what="addTriangle: 1 of 3 vertices, 1 of 1 triangle" events=none
AT(1,3,1,1)
//@ addt_2_4_2_3 what="addTriangle: 2 of 4 vertices, 2 of 3 triangles" events=none
AT(2,4,2,3)
//@ addt_3_3_2_2 what="addTriangle: 3 of 3 vertices, 2 of 2 triangles" events=none
AT(3,3,2,2)
#define AS(N,A,K) TWO(adds_##N##_##A##_##K,(iadds<N,A,K>(in,o_)),(sadds<N,A,K>(in,o_)))
//@ adds_0_0_2 what="addSubModel: 2 points, no storage" events=none
AS(0,0,2)
//@ adds_1_1_1 what="addSubModel: 1 point to 1 of 1" events=none
AS(1,1,1)
//@ adds_1_3_2 what="addSubModel: 2 points to 1 of 3" events=none
AS(1,3,2)
//@ adds_2_3_2 what="addSubModel: 2 points to 2 of 3" events=none
AS(2,3,2)
//@ adds_1_1_4 what="addSubModel: 4 points to 1 of 1" events=none
AS(1,1,4)
#define AST(N,A,T,C,K,J) TWO(addst_##N##A##T##C##K##J,(iaddst<N,A,T,C,K,J>(in,o_)),(saddst<N,A,T,C,K,J>(in,o_)))
//@ addst_000031 what="addSubModel: 3 points 1 triangle, no storage" events=none
AST(0,0,0,0,3,1)
//@ addst_110032 what="addSubModel: 3 points 2 triangles to 1 of 1 and no triangles" events=none
AST(1,1,0,0,3,2)
//@ addst_261132 what="addSubModel: 3 points 2 triangles to 2 of 6 and 1 of 1" events=none
AST(2,6,1,1,3,2)
//@ addst_342443 what="addSubModel: 4 points 3 triangles to 3 of 4 and 2 of 4" events=none
AST(3,4,2,4,4,3)
//@ addst_232321 what="addSubModel: 2 points 1 triangle to 2 of 3 and 2 of 3" events=none
AST(2,3,2,3,2,1)
// ---- beginning: whatever the model held is released, room for what is asked
static inline void ibegin(const double*in,double*out,int how,int nt,int nv){ HOLD; if(how==0) mk(m,IN,0,0,0,0); else if(how==1) mk(m,IN,2,3,1,2); else mkfull(m,IN,4,how==2?2:0,how==3); m.build_state=ST(0); int r=m.beginModel(nt,nv); obs(m,out,r); OUT[0]=m.num_bvs; out[7]=r!=0||(cap(m.vertices,sizeof(V3),(nv>0?nv:1))&&(nt<=0||cap(m.tri_indices,sizeof(Triangle),nt))); OUT[3]=m.bvs==0; OUT[4]=m.prev_vertices==0; OUT[5]=m.primitive_indices==0; }
static inline void sbegin(const double*in,double*out,int nt,int nv){ bool ok=ST(0)==BVH_BUILD_STATE_EMPTY; std_(in,out,ok?BVH_OK:BVH_ERR_BUILD_OUT_OF_SEQUENCE,ok?BVH_BUILD_STATE_BEGUN:BVH_BUILD_STATE_EMPTY,0,0); OUT[0]=0; out[7]=OUT[3]=OUT[4]=OUT[5]=1; }
#define BG(NAME,H_,T_,V_) TWO(begin_##NAME,(ibegin(in,o_,H_,T_,V_)),(sbegin(in,o_,T_,V_)))
//@ begin_new what="beginModel: a new model" events=none
BG(new,0,0,0)
//@ begin_new1 what="beginModel: a new model, sizes given" events=none
BG(new1,0,5,3)
//@ begin_new2 what="beginModel: a new model, negative sizes" events=none
BG(new2,0,-1,-1)
//@ begin_half what="beginModel: a model being built" events=none
BG(half,1,2,5)
//@ begin_mesh what="beginModel: a finished mesh" events=none
BG(mesh,2,0,9)
//@ begin_cloud what="beginModel: a finished point cloud with a previous frame" events=none
BG(cloud,3,4,0)
// ---- ending
static inline void iend(const double*in,double*out,int n,int a,int t,int c){ HOLD; mk(m,IN,n,a,t,c); m.build_state=ST(0); int r=m.endModel(); obs(m,out,r); for(int i=0;i<n;++i) pv(OUT+3*i,m.vertices[i]); for(int i=0;i<t;++i) tri(OUT+3*n+3*i,m.tri_indices[i]); int p=t?t:n; out[7]=r!=0||(cap(m.bvs,sizeof(BVNode<BV>),2*p-1)&&cap(m.primitive_indices,sizeof(unsigned),p)); }
static inline void send(const double*in,double*out,int n,int t){ bool q=BEGUN,ok=q&&n+t>0; std_(in,out,!q?BVH_ERR_BUILD_OUT_OF_SEQUENCE:ok?BVH_OK:BVH_ERR_BUILD_EMPTY_MODEL,ok?(double)BVH_BUILD_STATE_PROCESSED:(double)ST(0),n,t,ok); for(int i=0;i<3*n;++i) OUT[i]=IN[i]; for(int i=0;i<t;++i) for(int k=0;k<3;++k) OUT[3*n+3*i+k]=k==2?i+8:i+5+k; out[7]=1; }
#define EN(N,A,T,C) TWO(end_##N##A##T##C,(iend(in,o_,N,A,T,C)),(send(in,o_,N,T)))
//@ end_0800 what="endModel: nothing added" events=none
EN(0,8,0,0)
//@ end_3300 what="endModel: 3 points of 3" events=none
EN(3,3,0,0)
//@ end_2504 what="endModel: 2 points of 5, room for triangles" events=none
EN(2,5,0,4)
//@ end_3311 what="endModel: one triangle, no spare room" events=none
EN(3,3,1,1)
//@ end_4835 what="endModel: three triangles, spare room" events=none
EN(4,8,3,5)
// ---- replacing and updating
static inline void ibrep(const double*in,double*out,bool prev){ HOLD; mkfull(m,IN,3,1,prev); m.build_state=ST(0); m.num_vertex_updated=2; int r=m.beginReplaceModel(); obs(m,out,r); for(int i=0;i<3;++i) pv(OUT+3*i,m.vertices[i]); OUT[9]=r==0?m.num_vertex_updated==0:m.num_vertex_updated==2; OUT[10]=r==0?m.prev_vertices==0:(m.prev_vertices!=0)==prev; }
static inline void sbrep(const double*in,double*out){ bool ok=ST(0)==BVH_BUILD_STATE_PROCESSED; std_(in,out,ok?BVH_OK:BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME,ok?(double)BVH_BUILD_STATE_REPLACE_BEGUN:(double)ST(0),3,1); for(int i=0;i<9;++i) OUT[i]=IN[i]; OUT[9]=OUT[10]=1; }
static inline void ibupd(const double*in,double*out,bool prev){ HOLD; mkfull(m,IN,3,1,prev); m.build_state=ST(0); m.num_vertex_updated=2; int r=m.beginUpdateModel(); obs(m,out,r); if(r==0) for(int i=0;i<3;++i) pv(OUT+3*i,m.prev_vertices[i]); else for(int i=0;i<3;++i) pv(OUT+3*i,m.vertices[i]); OUT[9]=r==0?m.num_vertex_updated==0:m.num_vertex_updated==2; out[7]=r!=0||(cap(m.prev_vertices,sizeof(V3),3)&&cap(m.vertices,sizeof(V3),3)&&m.prev_vertices!=m.vertices); OUT[10]=r==0||(m.prev_vertices!=0)==prev; }
static inline void sbupd(const double*in,double*out){ bool ok=ST(0)==BVH_BUILD_STATE_PROCESSED||ST(0)==BVH_BUILD_STATE_UPDATED; std_(in,out,ok?BVH_OK:BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME,ok?(double)BVH_BUILD_STATE_UPDATE_BEGUN:(double)ST(0),3,1); for(int i=0;i<9;++i) OUT[i]=IN[i]; OUT[9]=OUT[10]=out[7]=1; }
//@ brep_0 what="beginReplaceModel" events=none
TWO(brep_0,(ibrep(in,o_,false)),(sbrep(in,o_)))
//@ brep_1 what="beginReplaceModel with a previous frame" events=none
TWO(brep_1,(ibrep(in,o_,true)),(sbrep(in,o_)))
//@ bupd_0 what="beginUpdateModel" events=none
TWO(bupd_0,(ibupd(in,o_,false)),(sbupd(in,o_)))
//@ bupd_1 what="beginUpdateModel with a previous frame" events=none
TWO(bupd_1,(ibupd(in,o_,true)),(sbupd(in,o_)))
// the u-th vertex on of n: k more; surplus ones are not stored and make the end report incorrect data
struct RV { enum { K=1, S=BVH_BUILD_STATE_REPLACE_BEGUN, UPD=0 }; static inline int go(M&m,const double*in){ return m.replaceVertex(VS(0)); } };
struct RT { enum { K=3, S=BVH_BUILD_STATE_REPLACE_BEGUN, UPD=0 }; static inline int go(M&m,const double*in){ return m.replaceTriangle(VS(0),VS(1),VS(2)); } };
struct RS_ { enum { K=2, S=BVH_BUILD_STATE_REPLACE_BEGUN, UPD=0 }; static inline int go(M&m,const double*in){ std::vector<V3> ps; vec(&ps,in+1,K*sizeof(V3)); int r=m.replaceSubModel(ps); vec(&ps,nullptr,0); return r; } };
struct UV { enum { K=1, S=BVH_BUILD_STATE_UPDATE_BEGUN, UPD=1 }; static inline int go(M&m,const double*in){ return m.updateVertex(VS(0)); } };
struct UT { enum { K=3, S=BVH_BUILD_STATE_UPDATE_BEGUN, UPD=1 }; static inline int go(M&m,const double*in){ return m.updateTriangle(VS(0),VS(1),VS(2)); } };
struct US { enum { K=2, S=BVH_BUILD_STATE_UPDATE_BEGUN, UPD=1 }; static inline int go(M&m,const double*in){ std::vector<V3> ps; vec(&ps,in+1,K*sizeof(V3)); int r=m.updateSubModel(ps); vec(&ps,nullptr,0); return r; } };
// what follows the block of the vertices must not change: blocks lie one after another in H
template<class R,int N,int U> static inline void iset(const double*in,double*out){ HOLD; mkfull(m,IN,N,1,true); for(int i=0;i<12;++i) *(double*)((char*)m.vertices+sizeof(V3)*N+8*i)=-5; m.build_state=ST(0); m.num_vertex_updated=U; int r=R::go(m,in); obs(m,out,0); OUT[0]=U+R::K<=N||ST(0)!=(BVHBuildState)R::S?r:0; for(int i=0;i<N;++i) pv(OUT+1+3*i,m.vertices[i]); double*o=OUT+1+3*N; { bool g=true; for(int i=0;i<9;++i) g=g&&*(double*)((char*)m.vertices+sizeof(V3)*N+8*i)==-5; out[7]=g; } if(U+R::K<=N) o[9]=m.num_vertex_updated; 
  if(ST(0)==(BVHBuildState)R::S){ int e=R::UPD?m.endUpdateModel(true,true):m.endReplaceModel(true,true); o[10]=e; o[11]=m.build_state; } }
template<class R,int N,int U> static inline void sset(const double*in,double*out){ bool ok=ST(0)==(BVHBuildState)R::S; std_(in,out,0,ST(0),N,1); OUT[0]=ok?BVH_OK:BVH_ERR_BUILD_OUT_OF_SEQUENCE; for(int i=0;i<3*N;++i) OUT[1+i]=IN[i]; if(ok) for(int i=0;i<R::K&&U+i<N;++i) for(int k=0;k<3;++k) OUT[1+3*(U+i)+k]=in[1+3*i+k]; double*o=OUT+1+3*N; out[7]=1; if(U+R::K<=N) o[9]=ok?U+R::K:U;
  if(ok){ bool full=U+R::K==N; o[10]=full?BVH_OK:BVH_ERR_INCORRECT_DATA; o[11]=full?(R::UPD?BVH_BUILD_STATE_UPDATED:BVH_BUILD_STATE_PROCESSED):R::S; } }
#define SE(R,N,U) TWO(set_##R##_##N##_##U,(iset<R,N,U>(in,o_)),(sset<R,N,U>(in,o_)))
//@ set_RV_3_0 what="replaceVertex: first of 3" events=none
SE(RV,3,0)
//@ set_RV_3_2 what="replaceVertex: last of 3" events=none
SE(RV,3,2)
//@ set_RV_3_3 what="replaceVertex: one too many" events=none
SE(RV,3,3)
//@ set_RT_4_0 what="replaceTriangle: first of 4" events=none
SE(RT,4,0)
//@ set_RT_4_1 what="replaceTriangle: last of 4" events=none
SE(RT,4,1)
//@ set_RT_4_3 what="replaceTriangle: two too many" events=none
SE(RT,4,3)
//@ set_RS__3_0 what="replaceSubModel: 2 of 3" events=none
SE(RS_,3,0)
//@ set_RS__3_1 what="replaceSubModel: last 2 of 3" events=none
SE(RS_,3,1)
//@ set_RS__3_2 what="replaceSubModel: one too many" events=none
SE(RS_,3,2)
//@ set_UV_3_0 what="updateVertex: first of 3" events=none
SE(UV,3,0)
//@ set_UV_3_2 what="updateVertex: last of 3" events=none
SE(UV,3,2)
//@ set_UV_3_3 what="updateVertex: one too many" events=none
SE(UV,3,3)
//@ set_UT_4_0 what="updateTriangle: first of 4" events=none
SE(UT,4,0)
//@ set_UT_4_1 what="updateTriangle: last of 4" events=none
SE(UT,4,1)
//@ set_UT_4_3 what="updateTriangle: two too many" events=none
SE(UT,4,3)
//@ set_US_3_0 what="updateSubModel: 2 of 3" events=none
SE(US,3,0)
//@ set_US_3_1 what="updateSubModel: last 2 of 3" events=none
SE(US,3,1)
//@ set_US_3_2 what="updateSubModel: one too many" events=none
SE(US,3,2)
// ends: sequence, count, refit or rebuild
template<bool UPD> static inline void ifin(const double*in,double*out,int u,bool refit,bool bu){ HOLD; mkfull(m,IN,3,1,UPD); m.build_state=ST(0); m.num_vertex_updated=u; int r=UPD?m.endUpdateModel(refit,bu):m.endReplaceModel(refit,bu); obs(m,out,r); for(int i=0;i<3;++i) pv(OUT+3*i,m.vertices[i]); }
template<bool UPD> static inline void sfin(const double*in,double*out,int u,bool refit,bool bu){ bool q=ST(0)==(UPD?BVH_BUILD_STATE_UPDATE_BEGUN:BVH_BUILD_STATE_REPLACE_BEGUN),ok=q&&u==3; int f=bu?3:2; int built=ok?(refit?f:UPD?10+f:1):0; std_(in,out,!q?BVH_ERR_BUILD_OUT_OF_SEQUENCE:ok?BVH_OK:BVH_ERR_INCORRECT_DATA,ok?(double)(UPD?BVH_BUILD_STATE_UPDATED:BVH_BUILD_STATE_PROCESSED):(double)ST(0),3,1,built); for(int i=0;i<9;++i) OUT[i]=IN[i]; }
#define FI(NM,UPD,U,R,B) TWO(fin_##NM,(ifin<UPD>(in,o_,U,R,B)),(sfin<UPD>(in,o_,U,R,B)))
//@ fin_r311 what="endReplaceModel: refit bottom-up" events=none
FI(r311,false,3,true,true)
//@ fin_r310 what="endReplaceModel: refit top-down" events=none
FI(r310,false,3,true,false)
//@ fin_r300 what="endReplaceModel: rebuild" events=none
FI(r300,false,3,false,false)
//@ fin_r211 what="endReplaceModel: a vertex missing" events=none
FI(r211,false,2,true,true)
//@ fin_r411 what="endReplaceModel: a vertex too many" events=none
FI(r411,false,4,false,true)
//@ fin_u311 what="endUpdateModel: refit bottom-up" events=none
FI(u311,true,3,true,true)
//@ fin_u310 what="endUpdateModel: refit top-down" events=none
FI(u310,true,3,true,false)
//@ fin_u300 what="endUpdateModel: rebuild, then refit top-down" events=none
FI(u300,true,3,false,false)
//@ fin_u301 what="endUpdateModel: rebuild, then refit bottom-up" events=none
FI(u301,true,3,false,true)
//@ fin_u211 what="endUpdateModel: a vertex missing" events=none
FI(u211,true,2,true,true)
//@ fin_u411 what="endUpdateModel: a vertex too many" events=none
FI(u411,true,4,false,true)
// ---- copies and release
static inline void cont(const M&m,double*o,int n,int t,bool prev,bool full){ o[0]=m.build_state; o[1]=m.num_vertices; o[2]=m.num_tris; o[3]=m.num_bvs; o[4]=room(m); o[5]=(m.prev_vertices!=0)==prev; double*q=o+6; for(int i=0;i<n;++i,q+=3) pv(q,m.vertices[i]); for(int i=0;i<t;++i,q+=3) tri(q,m.tri_indices[i]); if(prev) for(int i=0;i<n;++i,q+=3) pv(q,m.prev_vertices[i]);
  if(full){ int p=t?t:n; for(int i=0;i<p;++i) *q++=m.primitive_indices[i]; for(int i=0;i<2*p-1;++i){ q[0]=m.bvs[i].first_child; q[1]=m.bvs[i].first_primitive; q[2]=m.bvs[i].num_primitives; pv(q+3,m.bvs[i].bv.min_); pv(q+6,m.bvs[i].bv.max_); q+=9; } *q++=cap(m.bvs,sizeof(BVNode<BV>),2*p-1); *q++=cap(m.primitive_indices,sizeof(unsigned),p); if(prev) *q++=cap(m.prev_vertices,sizeof(V3),n); } }
enum { CONT=120 };
template<int KIND> static inline void build(M&m,const double*in){ if(KIND==0) mk(m,IN,2,3,1,2); else if(KIND==1) mkfull(m,IN,3,3,false); else if(KIND==2) mkfull(m,IN,3,0,true); else mkfull(m,IN,4,1,true); m.build_state=ST(0); m.num_vertex_updated=1; m.aabb_radius=in[1]; m.threshold_free=in[2]; m.cost_density=in[3]; }
template<int KIND> static inline void look(const M&m,double*o){ if(KIND==0) cont(m,o,2,1,false,false); else if(KIND==1) cont(m,o,3,3,false,true); else if(KIND==2) cont(m,o,3,0,true,true); else cont(m,o,4,1,true,true); o[CONT-4]=m.num_vertex_updated; o[CONT-3]=m.aabb_radius; o[CONT-2]=m.threshold_free; o[CONT-1]=m.cost_density; }
template<int KIND> static inline void icopy(const double*in,double*out){ HOLD; build<KIND>(m,in); alignas(16) char d[sizeof(M)]; M&c=*new((void*)d) M(m); look<KIND>(c,out); look<KIND>(m,out+CONT); out[2*CONT]=owns2(m,c); c.M::~M(); out[2*CONT+1]=owns(m); look<KIND>(m,out+2*CONT+2); m.M::~M(); out[3*CONT+2]=held(nullptr,0); }
template<int KIND> static inline void scopy(const double*in,double*out){ HOLD; build<KIND>(m,in); look<KIND>(m,out); look<KIND>(m,out+CONT); out[2*CONT]=out[2*CONT+1]=1; look<KIND>(m,out+2*CONT+2); out[3*CONT+2]=1; }
template<int KIND,int INTO> static inline void iassign(const double*in,double*out){ START; alignas(16) char d[sizeof(M)]; __builtin_memset(d,0,sizeof d); M&c=*(M*)d; alignas(16) char b[sizeof(M)]; __builtin_memset(b,0,sizeof b); M&m=*(M*)b; build<INTO>(c,in); build<KIND>(m,in); c=m; look<KIND>(c,out); look<KIND>(m,out+CONT); out[2*CONT]=owns2(m,c); c.M::~M(); out[2*CONT+1]=owns(m); m.M::~M(); out[2*CONT+2]=held(nullptr,0); }
template<int KIND,int INTO> static inline void sassign(const double*in,double*out){ HOLD; build<KIND>(m,in); look<KIND>(m,out); look<KIND>(m,out+CONT); out[2*CONT]=out[2*CONT+1]=out[2*CONT+2]=1; }
#define CP(K) PROBE impl_copy_##K(const double*in,double*out){ icopy<K>(in,out); } PROBE spec_copy_##K(const double*in,double*out){ scopy<K>(in,out); }
//@ copy_0 what="copy of a model being built, release of both" events=none
CP(0)
//@ copy_1 what="copy of a mesh, release of both" events=none
CP(1)
//@ copy_2 what="copy of a point cloud with a previous frame, release of both" events=none
CP(2)
//@ copy_3 what="copy of a mesh with a previous frame, release of both" events=none
CP(3)
#define AG(K,I) PROBE impl_assign_##K##_##I(const double*in,double*out){ iassign<K,I>(in,out); } PROBE spec_assign_##K##_##I(const double*in,double*out){ sassign<K,I>(in,out); }
//@ assign_1_0 what="assignment of a mesh to one being built" events=none
AG(1,0)
//@ assign_0_3 what="assignment of a model being built to a mesh" events=none
AG(0,3)
//@ assign_2_1 what="assignment of a point cloud to a mesh" events=none
AG(2,1)
