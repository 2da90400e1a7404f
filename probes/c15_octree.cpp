// C02, C03, C04, C15 (-DCHK=2, 3, 4, 15): the recursions of OcTreeSolver.  Never executed; analysed as IR.
#if CHK>=15
#define NCP 1
#endif
#include "mocks.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/octree/octree.h"
#include "fcl/math/bv/OBB.h"
#include "fcl/math/bv/utility.h"
#include "fcl/geometry/bvh/BVH_model.h"
namespace fcl {
static inline double mcvt(const AABB<double>&b,const T3&t){ double x[18]; pv(x,b.min_);pv(x+3,b.max_);putT(x+6,t); return evp_box(x); }
template<> inline void convertBV<AABB<double>,OBB<double>>(const AABB<double>&b,const T3&t,OBB<double>&o){ o.To[0]=mcvt(b,t); }
template<> inline void convertBV<AABB<double>,AABB<double>>(const AABB<double>&b,const T3&t,AABB<double>&o){ double h=mcvt(b,t); o.min_=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); o.max_=V3(evp_out(h,3),evp_out(h,4),evp_out(h,5)); }
template<> inline void convertBV<OBB<double>,OBB<double>>(const OBB<double>&b,const T3&t,OBB<double>&o){ double x[13]; x[0]=b.To[0];putT(x+1,t); o.To[0]=evp_box(x); }
template<> inline bool OBB<double>::overlap(const OBB<double>&o) const { double x[2]={To[0],o.To[0]}; return evp_cut(x)>0; }
template<> inline double AABB<double>::distance(const AABB<double>&o) const { double x[12]; pv(x,min_);pv(x+3,max_);pv(x+6,o.min_);pv(x+9,o.max_); return evp_bv(0,x); }
template<> inline void constructBox(const AABB<double>&b,const T3&t,Box<double>&x,T3&o){ double h=mcvt(b,t); x.side=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); double p[12]; for(int i=0;i<12;++i) p[i]=evp_out(h,6+i); o=gt(p); }
namespace detail { template<> struct ComputeBVImpl<double,AABB<double>,Box<double>> { static void run(const Box<double>&s,const T3&t,AABB<double>&b){ mbv(&s,t,b); } }; }
}
#include "fcl/narrowphase/detail/traversal/octree/octree_solver.h"
typedef OcTree<double> OT; typedef OT::OcTreeNode ON; typedef OcTreeSolver<MSolver> OS;
#ifndef MBV
#define MBV AABB<double>
#endif
typedef BVHModel<MBV> BM;
//! one+drop ^fcl::OcTree<double>::nodeChildExists\( if=CHK:16
//! p+drop ^fcl::OcTree<double>::(getRoot|nodeHasChildren|nodeChildExists|getNodeChild|getOccupancyThres)\(
//! p+drop ^fcl::AABB<double>::size\(
//! p+drop ^octomap::(OcTreeNode|ColorOcTreeNode)::getOccupancy
//! n+drop ^void\sstd::partial_sort< if=CHK:2
//! n+drop ^void\sstd::partial_sort< if=CHK:15
//! n+drop ^void\sstd::partial_sort< if=CHK:16
//! w+drop ^void\sstd::partial_sort< name=sort_by_depth
//! recw0 ^bool\sfcl::detail::OcTreeSolver<MSolver>::OcTreeShapeIntersectRecurse skip=1 name=recurse if=CHK:15
//! rec ^bool\sfcl::detail::OcTreeSolver<MSolver>::OcTreeShapeIntersectRecurse skip=1 name=recurse if=CHK:16
//! recw0 ^fcl::detail::OcTreeSolver<MSolver>::OcTreeIntersectRecurse skip=1 name=recurse if=CHK:15
//! rec ^fcl::detail::OcTreeSolver<MSolver>::OcTreeIntersectRecurse skip=1 name=recurse if=CHK:16
//! recw0 ^bool\sfcl::detail::OcTreeSolver<MSolver>::OcTree(Mesh|Shape)(Intersect|Distance)Recurse skip=1 name=recurse if=CHK:15
//! rec ^bool\sfcl::detail::OcTreeSolver<MSolver>::OcTree(Mesh|Shape)(Intersect|Distance)Recurse skip=1 name=recurse if=CHK:16
//! recw0 ^fcl::detail::OcTreeSolver<MSolver>::OcTree(Intersect|Distance)Recurse skip=1 name=recurse if=CHK:15
//! rec ^fcl::detail::OcTreeSolver<MSolver>::OcTree(Intersect|Distance)Recurse skip=1 name=recurse if=CHK:16
//! recz ^bool\sfcl::detail::OcTreeSolver<MSolver>::OcTree(Mesh|Shape)(Intersect|Distance)Recurse skip=1 name=recurse
//! recz ^fcl::detail::OcTreeSolver<MSolver>::OcTree(Intersect|Distance)Recurse skip=1 name=recurse
// inputs: 0 geometry1, 1 geometry2, 2 root1, 3 root2 / mesh node, 4 bv1 (6), 10 bv2 (6) or OBB handle, 16 enable_contact, 17 enable_cost, 18 max costs, 8/9 -> 58/59 count and maximum, 20 tf1 (12), 32 tf2 (12)
#undef CNT0
#undef MAXC
#if CHK==15
#define CNT0 0L
#define MAXC 1L
#elif CHK==2
#define CNT0 LNG(58)
#define MAXC LNG(59)
#else
#define CNT0 0L
#define MAXC 1000L
#endif
#define SET MSolver sv; OS s(&sv); CollisionRequest<double> q; q.num_max_contacts=MAXC; q.enable_contact=BOOL(16); q.enable_cost=BOOL(17); q.num_max_cost_sources=LNG(18); Res R(CNT0); s.crequest=&q; s.cresult=&R.r(); T3 t1=gt(in+20),t2=gt(in+32); AABB<double> b1,b2; b1.min_=gv(in+4); b1.max_=gv(in+7)
#define SETB2 b2.min_=gv(in+10); b2.max_=gv(in+13)
#if CHK>=15
#define RET(x) out[0]=(x)
#else
#define RET(x) (x); MONITOR
#endif
// ---- reference
static inline bool ovl(const OBB<double>&a,const OBB<double>&b){ return a.overlap(b); }
static inline OBB<double> cvt(const AABB<double>&b,const T3&t){ OBB<double> o; convertBV(b,t,o); return o; }
static inline OBB<double> cvtm(const BM*m,int i,const T3&t){ OBB<double> o; convertBV(m->bvs[i].bv,t,o); return o; }
static inline void cost(const AABB<double>&a,const AABB<double>&b,double rho,const CollisionRequest<double>&q){ AABB<double> p; a.overlap(b,p); double v[7]; pv(v,p.min_); pv(v+3,p.max_); v[6]=rho; CO(v,(long)q.num_max_cost_sources); }
static inline bool sat(const CollisionRequest<double>&q,Res&R){ return !q.enable_cost && R.n()>0 && (long)q.num_max_contacts<=R.n(); }
static inline void hit(const CollisionRequest<double>&q,Res&R,const void*a,const void*b,long i,long j,const double*v){ if(R.n()<(long)q.num_max_contacts) { CT(a,b,i,j,v); ((long*)R.b)[1]+=sizeof(Contact<double>); } }
static inline void hits(const CollisionRequest<double>&q,Res&R,const void*a,const void*b,long i,long j,double h){
  std::vector<ContactPoint<double>> c(NCP); for(int k=0;k<NCP;++k){ c[k].pos=V3(evp_out(h,10*k+1),evp_out(h,10*k+2),evp_out(h,10*k+3)); c[k].normal=V3(evp_out(h,10*k+4),evp_out(h,10*k+5),evp_out(h,10*k+6)); c[k].penetration_depth=evp_out(h,10*k+7); }
  long f=(long)q.num_max_contacts-R.n(); if(f<=0) return; if(f<NCP) std::partial_sort(c.begin(),c.begin()+f,c.end(),std::bind(comparePenDepth<double>, std::placeholders::_2, std::placeholders::_1));
  for(int k=0;k<NCP;++k){ double v[7]; pv(v,c[k].pos); pv(v+3,c[k].normal); v[6]=c[k].penetration_depth; hit(q,R,a,b,i,j,v); } }
struct PB { T3 t; Box<double> b; /* last: seen through its address */ PB(const AABB<double>&a,const T3&tf){ constructBox(a,tf,b,t); } AABB<double> bv() const { AABB<double> o; computeBV(b,t,o); return o; } };
static inline double si(const PB&p,const MS&s,const T3&t){ double a[24]; putT(a,p.t); putT(a+12,t); return evp_si(&p.b,&s,a); }
static inline double si(const PB&p,const PB&s){ double a[24]; putT(a,p.t); putT(a+12,s.t); return evp_si(&p.b,&s.b,a); }
static inline double sti(const PB&p,const BM*m,int i,const T3&t){ double a[33]; for(int k=0;k<3;++k) pv(a+3*k,m->vertices[m->tri_indices[i].vids[k]]); putT(a+9,p.t); putT(a+21,t); return evp_sti(&p.b,a); }
static inline AABB<double> tribv(const BM*m,int i,const T3&t){ double T[12],x[9]; putT(T,t); for(int k=0;k<3;++k) app(T,m->vertices[m->tri_indices[i].vids[k]].data(),x+3*k); return AABB<double>(gv(x),gv(x+3),gv(x+6)); }
static inline AABB<double> kid(const AABB<double>&b,int i){ AABB<double> c; for(int k=0;k<3;++k){ double m=(b.min_[k]+b.max_[k])/2; bool hi=(i>>k)&1; c.min_[k]=hi?m:b.min_[k]; c.max_[k]=hi?b.max_[k]:m; } return c; }
//@ child what="computeChildBV" events=none
PROBE impl_child(const double*in,double*out){ AABB<double> b; b.min_=gv(in); b.max_=gv(in+3); for(unsigned i=0;i<8;++i){ AABB<double> c; computeChildBV(b,i,c); pv(out+6*i,c.min_); pv(out+6*i+3,c.max_); } }
PROBE spec_child(const double*in,double*out){ AABB<double> b; b.min_=gv(in); b.max_=gv(in+3); for(unsigned i=0;i<8;++i){ AABB<double> c=kid(b,i); pv(out+6*i,c.min_); pv(out+6*i+3,c.max_); } }
// octree cell (r null: unknown) against a shape
static inline bool ref_shape(OS&os,const CollisionRequest<double>&q,Res&R,const OT*t,const ON*r,const AABB<double>&b,const MS&s,const OBB<double>&o,const T3&t1,const T3&t2,bool costs){
  if(!r){ if(!q.enable_cost||s.isFree()||!ovl(cvt(b,t1),o)) return false; PB x(b,t1); if(evp_out(si(x,s,t2),0)>0){ AABB<double> sb; mbv(&s,t2,sb); cost(x.bv(),sb,t->getOccupancyThres()*s.cost_density,q); } return false; }
  if(!t->nodeHasChildren(r)){ bool occ=t->isNodeOccupied(r)&&s.isOccupied(), unc=!t->isNodeFree(r)&&!s.isFree()&&q.enable_cost; if(!occ&&!unc) return false; if(!ovl(cvt(b,t1),o)) return false;
    PB x(b,t1); double h=si(x,s,t2); bool in=evp_out(h,0)>0; if(in&&occ){ if(q.enable_contact) hits(q,R,t,&s,r-t->getRoot(),-1,h); else { double v[7]; hit(q,R,t,&s,r-t->getRoot(),-1,v); } }
    if(in&&costs&&q.enable_cost){ AABB<double> sb; mbv(&s,t2,sb); cost(x.bv(),sb,r->getOccupancy()*s.cost_density,q); } return occ && sat(q,R); }
  if(t->isNodeFree(r)||s.isFree()) return false; if(((!t->isNodeOccupied(r)&&!t->isNodeFree(r))||s.isUncertain())&&!q.enable_cost) return false; if(!ovl(cvt(b,t1),o)) return false;
  for(int i=0;i<8;++i){ AABB<double> c=kid(b,i); if(t->nodeChildExists(r,i)){ if(os.OcTreeShapeIntersectRecurse(t,t->getNodeChild(r,i),c,s,o,t1,t2)) return true; } else if(q.enable_cost) { if(os.OcTreeShapeIntersectRecurse(t,nullptr,c,s,o,t1,t2)) return true; } } return false; }
#define SHI SET; OBB<double> o; o.To[0]=in[10]; const OT*t=PTR(OT,0); const MS*m=PTR(MS,1); const ON*r=PTR(ON,2)
//@ shape what="OcTreeSolver::OcTreeShapeIntersectRecurse" nonnull="0,1"
PROBE impl_shape(const double*in,double*out){ SHI; RET(s.OcTreeShapeIntersectRecurse(t,r,b1,*m,o,t1,t2)); }
PROBE spec_shape(const double*in,double*out){ TRIV2; SHI; RET(ref_shape(s,q,R,t,r,b1,*m,o,t1,t2,false)); }
PROBE alt_shape(const double*in,double*out){ TRIV2; SHI; RET(ref_shape(s,q,R,t,r,b1,*m,o,t1,t2,true)); }
// octree cell against a node of a mesh tree
static inline bool ref_mesh(OS&os,const CollisionRequest<double>&q,Res&R,const OT*t,const ON*r,const AABB<double>&b,const BM*m,int n,const T3&t1,const T3&t2){
  int fc=m->bvs[n].first_child; bool leaf=fc<0; int id=-(fc+1);
  if(!r){ if(!q.enable_cost||m->isFree()) return false; if(leaf){ if(!ovl(cvt(b,t1),cvtm(m,n,t2))) return false; PB x(b,t1); if(evp_out(sti(x,m,id,t2),0)>0) cost(x.bv(),tribv(m,id,t2),t->getOccupancyThres()*m->cost_density,q); return false; }
    return os.OcTreeMeshIntersectRecurse(t,r,b,m,fc,t1,t2) || os.OcTreeMeshIntersectRecurse(t,r,b,m,fc+1,t1,t2); }
  if(!t->nodeHasChildren(r)&&leaf){ bool occ=t->isNodeOccupied(r)&&m->isOccupied(), unc=!t->isNodeFree(r)&&!m->isFree()&&q.enable_cost; if(!occ&&!unc) return false; if(!ovl(cvt(b,t1),cvtm(m,n,t2))) return false;
    PB x(b,t1); double h=sti(x,m,id,t2); bool in=evp_out(h,0)>0; if(in&&occ){ double v[7]; if(q.enable_contact){ for(int k=0;k<7;++k) v[k]=evp_out(h,1+k); hit(q,R,t,m,r-t->getRoot(),id,v); } else { double w[7]; hit(q,R,t,m,r-t->getRoot(),id,w); } }
    if(in&&q.enable_cost) cost(x.bv(),tribv(m,id,t2),r->getOccupancy()*m->cost_density,q); return occ && sat(q,R); }
  if(t->isNodeFree(r)||m->isFree()) return false; if(((!t->isNodeOccupied(r)&&!t->isNodeFree(r))||m->isUncertain())&&!q.enable_cost) return false; if(!ovl(cvt(b,t1),cvtm(m,n,t2))) return false;
  if(leaf||(t->nodeHasChildren(r)&&b.size()>m->bvs[n].bv.size())){ for(int i=0;i<8;++i){ AABB<double> c=kid(b,i); if(t->nodeChildExists(r,i)){ if(os.OcTreeMeshIntersectRecurse(t,t->getNodeChild(r,i),c,m,n,t1,t2)) return true; } else if(q.enable_cost) { if(os.OcTreeMeshIntersectRecurse(t,nullptr,c,m,n,t1,t2)) return true; } } return false; }
  return os.OcTreeMeshIntersectRecurse(t,r,b,m,fc,t1,t2) || os.OcTreeMeshIntersectRecurse(t,r,b,m,fc+1,t1,t2); }
#define MEI SET; const OT*t=PTR(OT,0); const BM*m=PTR(BM,1); const ON*r=PTR(ON,2); int n=INT(3)
//@ mesh what="OcTreeSolver::OcTreeMeshIntersectRecurse" nonnull="0,1"
PROBE impl_mesh(const double*in,double*out){ MEI; RET(s.OcTreeMeshIntersectRecurse(t,r,b1,m,n,t1,t2)); }
PROBE spec_mesh(const double*in,double*out){ TRIV2; MEI; RET(ref_mesh(s,q,R,t,r,b1,m,n,t1,t2)); }
// two octree cells
static inline bool ref_oct(OS&os,const CollisionRequest<double>&q,Res&R,const OT*t,const ON*r,const AABB<double>&b,const OT*u,const ON*w,const AABB<double>&d,const T3&t1,const T3&t2){
  bool l1=!r||!t->nodeHasChildren(r), l2=!w||!u->nodeHasChildren(w);
  if((!r||!w)&&!q.enable_cost) return false;
  if(!r||!w){ if((r&&t->isNodeFree(r))||(w&&u->isNodeFree(w))) return false;
    if(l1&&l2){ if(!ovl(cvt(b,t1),cvt(d,t2))) return false; PB x(b,t1),y(d,t2); double f1,f2; if(r) f1=r->getOccupancy(); else f1=t->getOccupancyThres(); if(w) f2=w->getOccupancy(); else f2=u->getOccupancyThres(); cost(x.bv(),y.bv(),f1*f2,q); return false; }
    for(int i=0;i<8;++i){ if(!r){ AABB<double> c=kid(d,i); if(u->nodeChildExists(w,i)) { if(os.OcTreeIntersectRecurse(t,nullptr,b,u,u->getNodeChild(w,i),c,t1,t2)) return true; } else if(os.OcTreeIntersectRecurse(t,nullptr,b,u,nullptr,c,t1,t2)) return true; }
      else { AABB<double> c=kid(b,i); if(t->nodeChildExists(r,i)) { if(os.OcTreeIntersectRecurse(t,t->getNodeChild(r,i),c,u,nullptr,d,t1,t2)) return true; } else if(os.OcTreeIntersectRecurse(t,nullptr,c,u,nullptr,d,t1,t2)) return true; } }
    return false; }
  if(l1&&l2){ bool occ=t->isNodeOccupied(r)&&u->isNodeOccupied(w), unc=!t->isNodeFree(r)&&!u->isNodeFree(w)&&q.enable_cost; if(!occ&&!unc) return false;
    PB x(b,t1),y(d,t2); bool in; if(occ&&q.enable_contact){ double h=si(x,y); in=evp_out(h,0)>0; if(in) hits(q,R,t,u,r-t->getRoot(),w-u->getRoot(),h); } else { in=ovl(cvt(b,t1),cvt(d,t2)); if(in&&occ){ double v[7]; hit(q,R,t,u,r-t->getRoot(),w-u->getRoot(),v); } }
    if(in&&q.enable_cost) cost(x.bv(),y.bv(),r->getOccupancy()*w->getOccupancy(),q); return occ && sat(q,R); }
  if(t->isNodeFree(r)||u->isNodeFree(w)) return false; bool o1=t->isNodeOccupied(r),o2=u->isNodeOccupied(w); if((!o1||!o2)&&!q.enable_cost) return false; if(!ovl(cvt(b,t1),cvt(d,t2))) return false;
  if(l2||(!l1&&b.size()>d.size())){ for(int i=0;i<8;++i){ AABB<double> c=kid(b,i); if(t->nodeChildExists(r,i)) { if(os.OcTreeIntersectRecurse(t,t->getNodeChild(r,i),c,u,w,d,t1,t2)) return true; } else if(q.enable_cost) if(os.OcTreeIntersectRecurse(t,nullptr,c,u,w,d,t1,t2)) return true; } }
  else { for(int i=0;i<8;++i){ AABB<double> c=kid(d,i); if(u->nodeChildExists(w,i)) { if(os.OcTreeIntersectRecurse(t,r,b,u,u->getNodeChild(w,i),c,t1,t2)) return true; } else if(q.enable_cost) if(os.OcTreeIntersectRecurse(t,r,b,u,nullptr,c,t1,t2)) return true; } }
  return false; }
#define OCI SET; SETB2; const OT*t=PTR(OT,0),*u=PTR(OT,1); const ON*r=PTR(ON,2),*w=PTR(ON,3)
#define OCP(NM,RR,WW) \
PROBE impl_##NM(const double*in,double*out){ OCI; RET(s.OcTreeIntersectRecurse(t,RR,b1,u,WW,b2,t1,t2)); } \
PROBE spec_##NM(const double*in,double*out){ TRIV2; OCI; RET(ref_oct(s,q,R,t,RR,b1,u,WW,b2,t1,t2)); }
//@ oct what="OcTreeSolver::OcTreeIntersectRecurse" nonnull="0,1,2,3"
OCP(oct,r,w)
//@ oct_n1 what="OcTreeSolver::OcTreeIntersectRecurse (first cell unknown)" nonnull="0,1,3"
OCP(oct_n1,nullptr,w)
//@ oct_n2 what="OcTreeSolver::OcTreeIntersectRecurse (second cell unknown)" nonnull="0,1,2"
OCP(oct_n2,r,nullptr)
//@ oct_nn what="OcTreeSolver::OcTreeIntersectRecurse (both cells unknown)" nonnull="0,1"
OCP(oct_nn,nullptr,nullptr)
// ---- distances: 8 current minimum, 9 nearest points requested
#if CHK>=15
#define DRET(x) out[0]=(x)
#else
#define DRET(x) (x); out[0]=R.min_distance; ((long*)out)[1]=R.b1; ((long*)out)[2]=R.b2; ((const void**)out)[3]=R.o1; ((const void**)out)[4]=R.o2; pv(out+5,R.nearest_points[0]); pv(out+8,R.nearest_points[1])
#endif
#define DSET MSolver sv; OS s(&sv); DistanceRequest<double> q; DistanceResult<double> R(in[8]); q.enable_nearest_points=BOOL(9); s.drequest=&q; s.dresult=&R; T3 t1=gt(in+20),t2=gt(in+32); AABB<double> b1,b2; b1.min_=gv(in+4); b1.max_=gv(in+7); R.nearest_points[0]=gv(in+60); R.nearest_points[1]=gv(in+63)
static inline double bd(const AABB<double>&a,const AABB<double>&b){ return a.distance(b); }
static inline AABB<double> cva(const AABB<double>&b,const T3&t){ AABB<double> o; convertBV(b,t,o); return o; }
static inline bool upd(DistanceResult<double>&R,double h,const void*a,const void*b,long i,long j){ double d=evp_out(h,7); if(d<R.min_distance){ R.min_distance=d; R.o1=(const CollisionGeometry<double>*)a; R.o2=(const CollisionGeometry<double>*)b; R.b1=i; R.b2=j; R.nearest_points[0]=V3(evp_out(h,1),evp_out(h,2),evp_out(h,3)); R.nearest_points[1]=V3(evp_out(h,4),evp_out(h,5),evp_out(h,6)); } return R.min_distance<=0; }
static inline bool dref_shape(OS&os,DistanceResult<double>&R,const OT*t,const ON*r,const AABB<double>&b,const MS&s,const AABB<double>&o,const T3&t1,const T3&t2){
  if(!t->isNodeOccupied(r)) return false;
  if(!t->nodeHasChildren(r)){ PB x(b,t1); double a[24]; putT(a,x.t); putT(a+12,t2); return upd(R,evp_sd(&x.b,&s,a),t,&s,r-t->getRoot(),-1); }
  for(int i=0;i<8;++i) if(t->nodeChildExists(r,i)){ AABB<double> c=kid(b,i); if(bd(cva(c,t1),o)<R.min_distance) if(os.OcTreeShapeDistanceRecurse(t,t->getNodeChild(r,i),c,s,o,t1,t2)) return true; } return false; }
#define DSH DSET; SETB2; const OT*t=PTR(OT,0); const MS*m=PTR(MS,1); const ON*r=PTR(ON,2)
//@ dshape what="OcTreeSolver::OcTreeShapeDistanceRecurse" nonnull="0,1,2" events=none
PROBE impl_dshape(const double*in,double*out){ DSH; DRET(s.OcTreeShapeDistanceRecurse(t,r,b1,*m,b2,t1,t2)); }
PROBE spec_dshape(const double*in,double*out){ DSH; DRET(dref_shape(s,R,t,r,b1,*m,b2,t1,t2)); }
static inline bool dref_mesh(OS&os,DistanceResult<double>&R,const OT*t,const ON*r,const AABB<double>&b,const BM*m,int n,const T3&t1,const T3&t2){
  int fc=m->bvs[n].first_child; bool leaf=fc<0; int id=-(fc+1); if(!t->isNodeOccupied(r)) return false;
  if(!t->nodeHasChildren(r)&&leaf){ PB x(b,t1); double a[33]; for(int k=0;k<3;++k) pv(a+3*k,m->vertices[m->tri_indices[id].vids[k]]); putT(a+9,x.t); putT(a+21,t2); return upd(R,evp_std(&x.b,a),t,m,r-t->getRoot(),id); }
  if(leaf||(t->nodeHasChildren(r)&&b.size()>m->bvs[n].bv.size())){ for(int i=0;i<8;++i) if(t->nodeChildExists(r,i)){ AABB<double> c=kid(b,i); if(bd(cva(c,t1),cva(m->bvs[n].bv,t2))<R.min_distance) if(os.OcTreeMeshDistanceRecurse(t,t->getNodeChild(r,i),c,m,n,t1,t2)) return true; } return false; }
  for(int k=0;k<2;++k) if(bd(cva(b,t1),cva(m->bvs[fc+k].bv,t2))<R.min_distance) if(os.OcTreeMeshDistanceRecurse(t,r,b,m,fc+k,t1,t2)) return true; return false; }
#define DME DSET; const OT*t=PTR(OT,0); const BM*m=PTR(BM,1); const ON*r=PTR(ON,2); int n=INT(3)
//@ dmesh what="OcTreeSolver::OcTreeMeshDistanceRecurse" nonnull="0,1,2" events=none
PROBE impl_dmesh(const double*in,double*out){ DME; DRET(s.OcTreeMeshDistanceRecurse(t,r,b1,m,n,t1,t2)); }
PROBE spec_dmesh(const double*in,double*out){ DME; DRET(dref_mesh(s,R,t,r,b1,m,n,t1,t2)); }
template<int tight> static inline bool dref_oct(OS&os,DistanceResult<double>&R,const OT*t,const ON*r,const AABB<double>&b,const OT*u,const ON*w,const AABB<double>&d,const T3&t1,const T3&t2){
  bool l1=!t->nodeHasChildren(r),l2=!u->nodeHasChildren(w); if(!t->isNodeOccupied(r)||!u->isNodeOccupied(w)) return false;
  if(l1&&l2){ PB x(b,t1),y(d,t2); double a[24]; putT(a,x.t); putT(a+12,y.t); return upd(R,evp_sd(&x.b,&y.b,a),t,u,r-t->getRoot(),w-u->getRoot()); }
  bool first=l2||(!l1&&b.size()>d.size());
  if(first){ for(int i=0;i<8;++i) if(t->nodeChildExists(r,i)){ AABB<double> c=kid(b,i); if(bd(cva(tight?c:b,t1),cva(d,t2))<R.min_distance) if(os.OcTreeDistanceRecurse(t,t->getNodeChild(r,i),c,u,w,d,t1,t2)) return true; } }
  else { for(int i=0;i<8;++i) if(u->nodeChildExists(w,i)){ AABB<double> c=kid(d,i); if(bd(cva(b,t1),cva(tight?c:d,t2))<R.min_distance) if(os.OcTreeDistanceRecurse(t,r,b,u,u->getNodeChild(w,i),c,t1,t2)) return true; } }
  return false; }
#define DOC DSET; SETB2; const OT*t=PTR(OT,0),*u=PTR(OT,1); const ON*r=PTR(ON,2),*w=PTR(ON,3)
//@ doct what="OcTreeSolver::OcTreeDistanceRecurse" nonnull="0,1,2,3" events=none
PROBE impl_doct(const double*in,double*out){ DOC; DRET(s.OcTreeDistanceRecurse(t,r,b1,u,w,b2,t1,t2)); }
PROBE spec_doct(const double*in,double*out){ DOC; DRET(dref_oct<0>(s,R,t,r,b1,u,w,b2,t1,t2)); }
PROBE alt_doct(const double*in,double*out){ DOC; DRET(dref_oct<1>(s,R,t,r,b1,u,w,b2,t1,t2)); }
// ---- entry points: the recursion starts at the roots with the caller's poses, request and result
#if CHK==16
#define ESET MSolver sv; OS s(&sv); CollisionRequest<double> q; CollisionResult<double>&R=*PTR(CollisionResult<double>,8); DistanceRequest<double> dq; DistanceResult<double>&D=*PTR(DistanceResult<double>,9); T3 t1=gt(in+20),t2=gt(in+32); const OT*t=PTR(OT,0),*u=PTR(OT,1); const BM*m=PTR(BM,1); const MS*sh=PTR(MS,1)
#define ERET out[0]=(s.crequest==&q); out[1]=(s.drequest==&dq); ((void**)out)[2]=s.cresult; ((void**)out)[3]=s.dresult
#define CIN s.crequest=&q; s.cresult=&R
#define DIN s.drequest=&dq; s.dresult=&D
struct GB { V3 a,b; };
extern "C" { double evp_rootbv(const void*); }
namespace fcl { template<> inline AABB<double> OcTree<double>::getRootBV() const { double h=evp_rootbv(this); AABB<double> o; o.min_=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); o.max_=V3(evp_out(h,3),evp_out(h,4),evp_out(h,5)); return o; } }
static inline OBB<double> sobb(const MS&s,const T3&t){ AABB<double> b; mbv(&s,T3::Identity(),b); return cvt(b,t); }
static inline AABB<double> saabb(const MS&s,const T3&t){ AABB<double> b; mbv(&s,t,b); return b; }
#define EP(NM,CALL,REF) PROBE impl_##NM(const double*in,double*out){ ESET; CALL; ERET; } PROBE spec_##NM(const double*in,double*out){ ESET; REF; ERET; }
//@ e_oo what="OcTreeSolver::OcTreeIntersect" if=CHK:16 nonnull="0,1"
EP(e_oo, s.OcTreeIntersect(t,u,t1,t2,q,R), CIN; s.OcTreeIntersectRecurse(t,t->getRoot(),t->getRootBV(),u,u->getRoot(),u->getRootBV(),t1,t2))
//@ e_ood what="OcTreeSolver::OcTreeDistance" if=CHK:16 nonnull="0,1"
EP(e_ood, s.OcTreeDistance(t,u,t1,t2,dq,D), DIN; s.OcTreeDistanceRecurse(t,t->getRoot(),t->getRootBV(),u,u->getRoot(),u->getRootBV(),t1,t2))
//@ e_om what="OcTreeSolver::OcTreeMeshIntersect" if=CHK:16 nonnull="0,1"
EP(e_om, s.OcTreeMeshIntersect(t,m,t1,t2,q,R), CIN; s.OcTreeMeshIntersectRecurse(t,t->getRoot(),t->getRootBV(),m,0,t1,t2))
//@ e_mo what="OcTreeSolver::MeshOcTreeIntersect" if=CHK:16 nonnull="0,1"
EP(e_mo, s.MeshOcTreeIntersect(m,t,t1,t2,q,R), CIN; s.OcTreeMeshIntersectRecurse(t,t->getRoot(),t->getRootBV(),m,0,t2,t1))
//@ e_omd what="OcTreeSolver::OcTreeMeshDistance" if=CHK:16 nonnull="0,1"
EP(e_omd, s.OcTreeMeshDistance(t,m,t1,t2,dq,D), DIN; s.OcTreeMeshDistanceRecurse(t,t->getRoot(),t->getRootBV(),m,0,t1,t2))
//@ e_os what="OcTreeSolver::OcTreeShapeIntersect" if=CHK:16 nonnull="0,1"
EP(e_os, s.OcTreeShapeIntersect(t,*sh,t1,t2,q,R), CIN; s.OcTreeShapeIntersectRecurse(t,t->getRoot(),t->getRootBV(),*sh,sobb(*sh,t2),t1,t2))
//@ e_so what="OcTreeSolver::ShapeOcTreeIntersect" if=CHK:16 nonnull="0,1"
EP(e_so, s.ShapeOcTreeIntersect(*sh,t,t1,t2,q,R), CIN; s.OcTreeShapeIntersectRecurse(t,t->getRoot(),t->getRootBV(),*sh,sobb(*sh,t1),t2,t1))
//@ e_osd what="OcTreeSolver::OcTreeShapeDistance" if=CHK:16 nonnull="0,1"
EP(e_osd, s.OcTreeShapeDistance(t,*sh,t1,t2,dq,D), DIN; s.OcTreeShapeDistanceRecurse(t,t->getRoot(),t->getRootBV(),*sh,saabb(*sh,t2),t1,t2))
//@ e_sod what="OcTreeSolver::ShapeOcTreeDistance" if=CHK:16 nonnull="0,1"
EP(e_sod, s.ShapeOcTreeDistance(*sh,t,t1,t2,dq,D), DIN; s.OcTreeShapeDistanceRecurse(t,t->getRoot(),t->getRootBV(),*sh,saabb(*sh,t1),t2,t1))
#endif
