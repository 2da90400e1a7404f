// C18, C16: descents of the dynamic AABB trees.  Never executed; analysed as IR.
// The recursion is opaque below the first level (induction); box geometry and the user callback are opaque.
#include "probe.h"
#include "fcl/math/bv/AABB.h"
#include "fcl/math/bv/OBB.h"
#include "fcl/math/bv/utility.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/utility.h"
#include "fcl/geometry/octree/octree.h"
#include "fcl/narrowphase/collision_object.h"
#include "fcl/broadphase/detail/hierarchy_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree_array.h"
using namespace fcl; using namespace fcl::detail;
extern "C" { double evp_out(double,int); double evp_cut(const double*); double evp_dist(const double*); double evp_size(const double*); double evp_sel(const double*); double evp_box(const double*); double evp_half(double); double evp_obbcut(double,double); double evp_free(const void*); double evp_cbox(const double*);
  bool evw_collide(const void*,const void*,const void*); bool evw_distance_out3(const void*,const void*,const void*,double*); void evw_object(const double*); }
static inline void pb(double*x,const AABB<double>&a,const AABB<double>&b){ pv(x,a.min_);pv(x+3,a.max_);pv(x+6,b.min_);pv(x+9,b.max_); }
static inline void pbt(double*x,const AABB<double>&a,const T3&t){ pv(x,a.min_);pv(x+3,a.max_);pm(x+6,t.linear());pv(x+15,t.translation()); }
namespace fcl {
template<> inline bool AABB<double>::overlap(const AABB<double>&o) const { double x[12],y[12]; pb(x,*this,o); pb(y,o,*this); return evp_cut(x)+evp_cut(y)>0; }
template<> inline double AABB<double>::distance(const AABB<double>&o) const { double x[12],y[12]; pb(x,*this,o); pb(y,o,*this); return evp_dist(x)+evp_dist(y); }
template<> inline double AABB<double>::size() const { double x[6]; pv(x,min_);pv(x+3,max_); return evp_size(x); }
template<> inline void convertBV<AABB<double>,OBB<double>>(const AABB<double>&b,const T3&t,OBB<double>&o){ double x[18]; pbt(x,b,t); o.To[0]=evp_box(x); }
template<> inline void convertBV<AABB<double>,AABB<double>>(const AABB<double>&b,const T3&t,AABB<double>&o){ double x[18]; pbt(x,b,t); double h=evp_box(x); o.min_=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); o.max_=V3(evp_out(h,3),evp_out(h,4),evp_out(h,5)); }
template<> inline bool OBB<double>::overlap(const OBB<double>&o) const { return evp_obbcut(To[0],o.To[0])+evp_obbcut(o.To[0],To[0])>0; }
template<> inline void constructBox(const AABB<double>&b,const T3&t,Box<double>&x,T3&o){ double p[18]; pbt(p,b,t); double h=evp_cbox(p); x.side=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); double q[12]; for(int i=0;i<12;++i) q[i]=evp_out(h,6+i); o=gt(q); }
// the object handed to the callback for an octree cell: its box, pose, density and threshold
static inline void mobj(const Box<double>*b,const T3&t){ double x[17]; pv(x,b->side); x[3]=b->cost_density; x[4]=b->threshold_occupied; pm(x+5,t.linear()); pv(x+14,t.translation()); evw_object(x); }
template<> inline CollisionObject<double>::CollisionObject(const std::shared_ptr<CollisionGeometry<double>>&g,const T3&tf){ mobj((const Box<double>*)g.get(),tf); }
namespace detail {
static inline size_t sel(const AABB<double>&q,const AABB<double>&a,const AABB<double>&b){ double x[18]; pb(x,q,a); pv(x+12,b.min_); pv(x+15,b.max_); return evp_sel(x)>0?1:0; }
template<> struct SelectImpl<double,AABB<double>> { static std::size_t run(const NodeBase<AABB<double>>&q,const NodeBase<AABB<double>>&a,const NodeBase<AABB<double>>&b){ return sel(q.bv,a.bv,b.bv); } static std::size_t run(const AABB<double>&q,const NodeBase<AABB<double>>&a,const NodeBase<AABB<double>>&b){ return sel(q,a.bv,b.bv); } };
namespace implementation_array { template<> inline HierarchyTree<AABB<double>>::HierarchyTree(int,int){}
template<> struct SelectImpl<double,AABB<double>> { static size_t run(size_t q,size_t a,size_t b,NodeBase<AABB<double>>*n){ return sel(n[q].bv,n[a].bv,n[b].bv); } static size_t run(const AABB<double>&q,size_t a,size_t b,NodeBase<AABB<double>>*n){ return sel(q,n[a].bv,n[b].bv); } };
} } }
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#define PTR(T,k) (*(T**)(in+(k)))
typedef CollisionObject<double> CO; typedef OcTree<double> OT; typedef OT::OcTreeNode ON; typedef AABB<double> BB;
//! p+drop ^fcl::OcTree<double>::(getRoot|nodeHasChildren|nodeChildExists|getNodeChild|getOccupancyThres|getDefaultOccupancy|isNodeFree|isNodeOccupied|isNodeUncertain)\(
//! p+drop ^octomap::(OcTreeNode|ColorOcTreeNode)::getOccupancy
//! p+drop ^fcl::CollisionObject<double>::(isFree|isOccupied|isUncertain)\(
//! n+drop ^fcl::CollisionObject<double>::~CollisionObject
//! n+drop ^std::__shared_count<
//! n+drop ^std::_Sp_counted
//! rec ^bool\sfcl::detail::dynamic_AABB_tree(_array)?::(selfCollisionRecurse|collisionRecurse_?)< name=recurse
//! rec ^bool\sfcl::detail::dynamic_AABB_tree(_array)?::(selfDistanceRecurse|distanceRecurse_?)< name=recurse out=-1
static bool ccb(CO*a,CO*b,void*c){ return evw_collide(a,b,c); }
static bool dcb(CO*a,CO*b,void*c,double&d){ return evw_distance_out3(a,b,c,&d); }

// two trees with the same interface: a place in the tree is a node (linked) or a node array and an index
typedef NodeBase<BB> LN; typedef implementation_array::NodeBase<BB> AN;
struct L { LN*n; L(const double*in,int k):n(PTR(LN,k)){} L(LN*x):n(x){} const BB&bv()const{return n->bv;} bool leaf()const{return n->isLeaf();} CO*obj()const{return (CO*)n->data;} L child(int i)const{return n->children[i];}
  bool pair(L o,void*c)const{return dynamic_AABB_tree::collisionRecurse<double>(n,o.n,c,ccb);} bool query(CO*q,void*c)const{return dynamic_AABB_tree::collisionRecurse<double>(n,q,c,ccb);} bool self(void*c)const{return dynamic_AABB_tree::selfCollisionRecurse<double>(n,c,ccb);}
  bool pair(L o,void*c,double&d)const{return dynamic_AABB_tree::distanceRecurse<double>(n,o.n,c,dcb,d);} bool query(CO*q,void*c,double&d)const{return dynamic_AABB_tree::distanceRecurse<double>(n,q,c,dcb,d);} bool self(void*c,double&d)const{return dynamic_AABB_tree::selfDistanceRecurse<double>(n,c,dcb,d);}
  template<class P> bool oct(const OT*t,const ON*r,const BB&b,const P&p,void*c)const{return dynamic_AABB_tree::collisionRecurse_(n,t,r,b,p,c,(CollisionCallBack<double>)ccb);}
  template<class P> bool oct(const OT*t,const ON*r,const BB&b,const P&p,void*c,double&d)const{return dynamic_AABB_tree::distanceRecurse_(n,t,r,b,p,c,(DistanceCallBack<double>)dcb,d);} };
struct A { AN*b; size_t i; A(const double*in,int k):b(PTR(AN,k)),i(*(size_t*)(in+4+k)){} A(AN*x,size_t j):b(x),i(j){} const BB&bv()const{return b[i].bv;} bool leaf()const{return b[i].isLeaf();} CO*obj()const{return (CO*)b[i].data;} A child(int k)const{return A(b,b[i].children[k]);}
  bool pair(A o,void*c)const{return dynamic_AABB_tree_array::collisionRecurse<double>(b,i,o.b,o.i,c,ccb);} bool query(CO*q,void*c)const{return dynamic_AABB_tree_array::collisionRecurse<double>(b,i,q,c,ccb);} bool self(void*c)const{return dynamic_AABB_tree_array::selfCollisionRecurse<double>(b,i,c,ccb);}
  bool pair(A o,void*c,double&d)const{return dynamic_AABB_tree_array::distanceRecurse<double>(b,i,o.b,o.i,c,dcb,d);} bool query(CO*q,void*c,double&d)const{return dynamic_AABB_tree_array::distanceRecurse<double>(b,i,q,c,dcb,d);} bool self(void*c,double&d)const{return dynamic_AABB_tree_array::selfDistanceRecurse<double>(b,i,c,dcb,d);}
  template<class P> bool oct(const OT*t,const ON*r,const BB&bb,const P&p,void*c)const{return dynamic_AABB_tree_array::collisionRecurse_(b,i,t,r,bb,p,c,(CollisionCallBack<double>)ccb);}
  template<class P> bool oct(const OT*t,const ON*r,const BB&bb,const P&p,void*c,double&d)const{return dynamic_AABB_tree_array::distanceRecurse_(b,i,t,r,bb,p,c,(DistanceCallBack<double>)dcb,d);} };
// inputs: 0, 1 tree places (array: 4, 5 indices), 2 callback data, 3 query object
#define LN0 PTR(LN,0)
#define LN1 PTR(LN,1)
#define AN0 PTR(AN,0),*(size_t*)(in+4)
#define AN1 PTR(AN,1),*(size_t*)(in+5)
#define CD PTR(void,2)
#define Q PTR(CO,3)
//@ l_pair what="collisionRecurse(tree node, tree node)" nonnull="0,1,2,3"
PROBE impl_l_pair(const double*in,double*out){ out[0]=dynamic_AABB_tree::collisionRecurse<double>(LN0,LN1,CD,ccb); }
//@ a_pair what="collisionRecurse(array tree node, array tree node)" nonnull="0,1,2,3"
PROBE impl_a_pair(const double*in,double*out){ out[0]=dynamic_AABB_tree_array::collisionRecurse<double>(AN0,AN1,CD,ccb); }
template<class X> static inline bool pairs(X a,X b,void*c){ if(!a.bv().overlap(b.bv())) return false; if(a.leaf()&&b.leaf()) return ccb(a.obj(),b.obj(),c);
  if(b.leaf()||(!a.leaf()&&a.bv().size()>b.bv().size())) { if(a.child(0).pair(b,c)) return true; return a.child(1).pair(b,c); } if(a.pair(b.child(0),c)) return true; return a.pair(b.child(1),c); }
PROBE spec_l_pair(const double*in,double*out){ out[0]=pairs(L(in,0),L(in,1),CD); }
PROBE spec_a_pair(const double*in,double*out){ out[0]=pairs(A(in,0),A(in,1),CD); }
//@ l_query what="collisionRecurse(tree node, object)" nonnull="0,1,2,3"
PROBE impl_l_query(const double*in,double*out){ out[0]=dynamic_AABB_tree::collisionRecurse<double>(LN0,Q,CD,ccb); }
//@ a_query what="collisionRecurse(array tree node, object)" nonnull="0,1,2,3"
PROBE impl_a_query(const double*in,double*out){ out[0]=dynamic_AABB_tree_array::collisionRecurse<double>(AN0,Q,CD,ccb); }
template<class X> static inline bool queries(X a,CO*q,void*c){ const BB&b=q->getAABB(); if(!a.bv().overlap(b)) return false; if(a.leaf()) return ccb(a.obj(),q,c); if(sel(b,a.child(0).bv(),a.child(1).bv())) { if(a.child(1).query(q,c)) return true; return a.child(0).query(q,c); } if(a.child(0).query(q,c)) return true; return a.child(1).query(q,c); }
PROBE spec_l_query(const double*in,double*out){ out[0]=queries(L(in,0),Q,CD); }
PROBE spec_a_query(const double*in,double*out){ out[0]=queries(A(in,0),Q,CD); }
//@ l_self what="selfCollisionRecurse(tree node)" nonnull="0,1,2,3"
PROBE impl_l_self(const double*in,double*out){ out[0]=dynamic_AABB_tree::selfCollisionRecurse<double>(LN0,CD,ccb); }
//@ a_self what="selfCollisionRecurse(array tree node)" nonnull="0,1,2,3"
PROBE impl_a_self(const double*in,double*out){ out[0]=dynamic_AABB_tree_array::selfCollisionRecurse<double>(AN0,CD,ccb); }
template<class X> static inline bool selfs(X a,void*c){ if(a.leaf()) return false; X l=a.child(0),r=a.child(1); if(l.self(c)) return true; if(r.self(c)) return true; return l.pair(r,c); }
PROBE spec_l_self(const double*in,double*out){ out[0]=selfs(L(in,0),CD); }
PROBE spec_a_self(const double*in,double*out){ out[0]=selfs(A(in,0),CD); }
// distance: nearer child first, each child only while nearer than the current minimum
#define MD double d=in[10]
//@ l_dpair what="distanceRecurse(tree node, tree node)" nonnull="0,1,2,3"
PROBE impl_l_dpair(const double*in,double*out){ MD; out[0]=dynamic_AABB_tree::distanceRecurse<double>(LN0,LN1,CD,dcb,d); out[1]=d; }
//@ a_dpair what="distanceRecurse(array tree node, array tree node)" nonnull="0,1,2,3"
PROBE impl_a_dpair(const double*in,double*out){ MD; out[0]=dynamic_AABB_tree_array::distanceRecurse<double>(AN0,AN1,CD,dcb,d); out[1]=d; }
template<class F,class G> static inline bool nearer(double d0,double d1,double&d,F f,G g){ if(d1<d0) { if(d1<d && g()) return true; return d0<d && f(); } if(d0<d && f()) return true; return d1<d && g(); }
template<class X> static inline bool dpairs(X a,X b,void*c,double&d){ if(a.leaf()&&b.leaf()) return dcb(a.obj(),b.obj(),c,d);
  if(b.leaf()||(!a.leaf()&&a.bv().size()>b.bv().size())) return nearer(a.child(0).bv().distance(b.bv()),a.child(1).bv().distance(b.bv()),d,[&]{return a.child(0).pair(b,c,d);},[&]{return a.child(1).pair(b,c,d);});
  return nearer(a.bv().distance(b.child(0).bv()),a.bv().distance(b.child(1).bv()),d,[&]{return a.pair(b.child(0),c,d);},[&]{return a.pair(b.child(1),c,d);}); }
PROBE spec_l_dpair(const double*in,double*out){ MD; out[0]=dpairs(L(in,0),L(in,1),CD,d); out[1]=d; }
PROBE spec_a_dpair(const double*in,double*out){ MD; out[0]=dpairs(A(in,0),A(in,1),CD,d); out[1]=d; }
//@ l_dquery what="distanceRecurse(tree node, object)" nonnull="0,1,2,3"
PROBE impl_l_dquery(const double*in,double*out){ MD; out[0]=dynamic_AABB_tree::distanceRecurse<double>(LN0,Q,CD,dcb,d); out[1]=d; }
//@ a_dquery what="distanceRecurse(array tree node, object)" nonnull="0,1,2,3"
PROBE impl_a_dquery(const double*in,double*out){ MD; out[0]=dynamic_AABB_tree_array::distanceRecurse<double>(AN0,Q,CD,dcb,d); out[1]=d; }
template<class X> static inline bool dqueries(X a,CO*q,void*c,double&d){ if(a.leaf()) return dcb(a.obj(),q,c,d); const BB&b=q->getAABB(); return nearer(b.distance(a.child(0).bv()),b.distance(a.child(1).bv()),d,[&]{return a.child(0).query(q,c,d);},[&]{return a.child(1).query(q,c,d);}); }
PROBE spec_l_dquery(const double*in,double*out){ MD; out[0]=dqueries(L(in,0),Q,CD,d); out[1]=d; }
PROBE spec_a_dquery(const double*in,double*out){ MD; out[0]=dqueries(A(in,0),Q,CD,d); out[1]=d; }
//@ l_dself what="selfDistanceRecurse(tree node)" nonnull="0,1,2,3"
PROBE impl_l_dself(const double*in,double*out){ MD; out[0]=dynamic_AABB_tree::selfDistanceRecurse<double>(LN0,CD,dcb,d); out[1]=d; }
//@ a_dself what="selfDistanceRecurse(array tree node)" nonnull="0,1,2,3"
PROBE impl_a_dself(const double*in,double*out){ MD; out[0]=dynamic_AABB_tree_array::selfDistanceRecurse<double>(AN0,CD,dcb,d); out[1]=d; }
template<class X> static inline bool dselfs(X a,void*c,double&d){ if(a.leaf()) return false; X l=a.child(0),r=a.child(1); if(l.self(c,d)) return true; if(r.self(c,d)) return true; return l.pair(r,c,d); }
PROBE spec_l_dself(const double*in,double*out){ MD; out[0]=dselfs(L(in,0),CD,d); out[1]=d; }
PROBE spec_a_dself(const double*in,double*out){ MD; out[0]=dselfs(A(in,0),CD,d); out[1]=d; }

// octree cells against tree nodes (r null: cell never observed).  P is a translation or a full pose.
// inputs: 3 octree, 11 cell, 12.. cell box (6), 18.. pose (12)
#define OCT PTR(OT,3)
#define CELL PTR(ON,11)
#define CB BB cb; cb.min_=gv(in+12); cb.max_=gv(in+15)
#define PT V3 p=gv(in+27)
#define PF T3 p=gt(in+18)
static inline T3 full(const V3&p){ T3 t; t.setIdentity(); t.translation()=p; return t; } static inline T3 full(const T3&p){ return p; }
static inline bool meets(const BB&a,const BB&b,const V3&p){ BB c; c.min_=b.min_+p; c.max_=b.max_+p; return a.overlap(c); }
static inline bool meets(const BB&a,const BB&b,const T3&p){ OBB<double> x,y; convertBV(a,T3::Identity(),x); convertBV(b,p,y); return x.overlap(y); }
static inline double far(const BB&a,const BB&b,const V3&p){ BB c; c.min_=b.min_+p; c.max_=b.max_+p; return a.distance(c); }
static inline double far(const BB&a,const BB&b,const T3&p){ BB c; convertBV(b,p,c); return a.distance(c); }
static inline BB octant(const BB&b,unsigned i){ BB c; for(int k=0;k<3;++k){ double m=(b.min_[k]+b.max_[k])*0.5; if(i>>k&1){c.min_[k]=m;c.max_[k]=b.max_[k];}else{c.min_[k]=b.min_[k];c.max_[k]=m;} } return c; }
static inline bool boxcb(CO*o,const BB&b,const T3&t,double rho,double thr,bool set,void*c){ Box<double>*x=new Box<double>(); T3 bt; constructBox(b,t,*x,bt); x->cost_density=rho; if(set) x->threshold_occupied=thr; CO o2(std::shared_ptr<CollisionGeometry<double>>(x),bt); return ccb(o,&o2,c); }
static inline bool boxcb(CO*o,const BB&b,const T3&t,void*c,double&d){ Box<double>*x=new Box<double>(); T3 bt; constructBox(b,t,*x,bt); CO o2(std::shared_ptr<CollisionGeometry<double>>(x),bt); return dcb(o,&o2,c,d); }
// an unknown cell counts as uncertain: its density is the tree's default or its threshold
template<int M,class X,class P> static inline bool octs(X a,const OT*t,const ON*r,const BB&b,const P&p,void*c){ bool lr=!r||!t->nodeHasChildren(r);
  if(!r && !a.leaf()) { for(int i=0;i<2;++i) if(a.child(i).oct(t,nullptr,b,p,c)) return true; return false; }
  if(a.leaf() && lr) { CO*o=a.obj(); if(o->isFree()||(r&&t->isNodeFree(r))||!meets(a.bv(),b,p)) return false;
    return r?boxcb(o,b,full(p),r->getOccupancy(),t->getOccupancyThres(),true,c):boxcb(o,b,full(p),M?t->getOccupancyThres():t->getDefaultOccupancy(),0,false,c); }
  if(t->isNodeFree(r)||!meets(a.bv(),b,p)) return false;
  if(lr||(!a.leaf()&&a.bv().size()>b.size())) { for(int i=0;i<2;++i) if(a.child(i).oct(t,r,b,p,c)) return true; return false; }
  for(unsigned i=0;i<8;++i) if(a.oct(t,t->nodeChildExists(r,i)?t->getNodeChild(r,i):nullptr,octant(b,i),p,c)) return true; return false; }
template<class X,class P> static inline bool docts(X a,const OT*t,const ON*r,const BB&b,const P&p,void*c,double&d){
  if(!t->isNodeOccupied(r)) return false; bool lr=!t->nodeHasChildren(r);
  if(a.leaf()&&lr) return boxcb(a.obj(),b,full(p),c,d);
  if(lr||(!a.leaf()&&a.bv().size()>b.size())) return nearer(far(a.child(0).bv(),b,p),far(a.child(1).bv(),b,p),d,[&]{return a.child(0).oct(t,r,b,p,c,d);},[&]{return a.child(1).oct(t,r,b,p,c,d);});
  for(unsigned i=0;i<8;++i) if(t->nodeChildExists(r,i)) { BB k=octant(b,i); if(far(a.bv(),k,p)<d && a.oct(t,t->getNodeChild(r,i),k,p,c,d)) return true; } return false; }
//@ l_octt what="collisionRecurse_(tree node, octree cell, translation)" nonnull="0,1,2,3,11"
PROBE impl_l_octt(const double*in,double*out){ CB; PT; out[0]=dynamic_AABB_tree::collisionRecurse_(LN0,OCT,CELL,cb,p,CD,(CollisionCallBack<double>)ccb); }
PROBE spec_l_octt(const double*in,double*out){ CB; PT; out[0]=octs<0>(L(in,0),OCT,CELL,cb,p,CD); }
//@ l_nult what="collisionRecurse_(tree node, unknown octree cell, translation)" nonnull="0,1,2,3"
PROBE impl_l_nult(const double*in,double*out){ CB; PT; out[0]=dynamic_AABB_tree::collisionRecurse_<double>(LN0,OCT,nullptr,cb,p,CD,ccb); }
PROBE spec_l_nult(const double*in,double*out){ CB; PT; out[0]=octs<0>(L(in,0),OCT,nullptr,cb,p,CD); }
PROBE alt_l_nult(const double*in,double*out){ CB; PT; out[0]=octs<1>(L(in,0),OCT,nullptr,cb,p,CD); }
//@ l_doctt what="distanceRecurse_(tree node, octree cell, translation)" nonnull="0,1,2,3,11"
PROBE impl_l_doctt(const double*in,double*out){ CB; PT; MD; out[0]=dynamic_AABB_tree::distanceRecurse_(LN0,OCT,CELL,cb,p,CD,(DistanceCallBack<double>)dcb,d); out[1]=d; }
PROBE spec_l_doctt(const double*in,double*out){ CB; PT; MD; out[0]=docts(L(in,0),OCT,CELL,cb,p,CD,d); out[1]=d; }
//@ l_octf what="collisionRecurse_(tree node, octree cell, pose)" nonnull="0,1,2,3,11"
PROBE impl_l_octf(const double*in,double*out){ CB; PF; out[0]=dynamic_AABB_tree::collisionRecurse_(LN0,OCT,CELL,cb,p,CD,(CollisionCallBack<double>)ccb); }
PROBE spec_l_octf(const double*in,double*out){ CB; PF; out[0]=octs<0>(L(in,0),OCT,CELL,cb,p,CD); }
//@ l_nulf what="collisionRecurse_(tree node, unknown octree cell, pose)" nonnull="0,1,2,3"
PROBE impl_l_nulf(const double*in,double*out){ CB; PF; out[0]=dynamic_AABB_tree::collisionRecurse_<double>(LN0,OCT,nullptr,cb,p,CD,ccb); }
PROBE spec_l_nulf(const double*in,double*out){ CB; PF; out[0]=octs<0>(L(in,0),OCT,nullptr,cb,p,CD); }
PROBE alt_l_nulf(const double*in,double*out){ CB; PF; out[0]=octs<1>(L(in,0),OCT,nullptr,cb,p,CD); }
//@ l_doctf what="distanceRecurse_(tree node, octree cell, pose)" nonnull="0,1,2,3,11"
PROBE impl_l_doctf(const double*in,double*out){ CB; PF; MD; out[0]=dynamic_AABB_tree::distanceRecurse_(LN0,OCT,CELL,cb,p,CD,(DistanceCallBack<double>)dcb,d); out[1]=d; }
PROBE spec_l_doctf(const double*in,double*out){ CB; PF; MD; out[0]=docts(L(in,0),OCT,CELL,cb,p,CD,d); out[1]=d; }
//@ a_octt what="collisionRecurse_(array tree node, octree cell, translation)" nonnull="0,1,2,3,11"
PROBE impl_a_octt(const double*in,double*out){ CB; PT; out[0]=dynamic_AABB_tree_array::collisionRecurse_(AN0,OCT,CELL,cb,p,CD,(CollisionCallBack<double>)ccb); }
PROBE spec_a_octt(const double*in,double*out){ CB; PT; out[0]=octs<0>(A(in,0),OCT,CELL,cb,p,CD); }
//@ a_nult what="collisionRecurse_(array tree node, unknown octree cell, translation)" nonnull="0,1,2,3"
PROBE impl_a_nult(const double*in,double*out){ CB; PT; out[0]=dynamic_AABB_tree_array::collisionRecurse_<double>(AN0,OCT,nullptr,cb,p,CD,ccb); }
PROBE spec_a_nult(const double*in,double*out){ CB; PT; out[0]=octs<0>(A(in,0),OCT,nullptr,cb,p,CD); }
PROBE alt_a_nult(const double*in,double*out){ CB; PT; out[0]=octs<1>(A(in,0),OCT,nullptr,cb,p,CD); }
//@ a_doctt what="distanceRecurse_(array tree node, octree cell, translation)" nonnull="0,1,2,3,11"
PROBE impl_a_doctt(const double*in,double*out){ CB; PT; MD; out[0]=dynamic_AABB_tree_array::distanceRecurse_(AN0,OCT,CELL,cb,p,CD,(DistanceCallBack<double>)dcb,d); out[1]=d; }
PROBE spec_a_doctt(const double*in,double*out){ CB; PT; MD; out[0]=docts(A(in,0),OCT,CELL,cb,p,CD,d); out[1]=d; }
//@ a_octf what="collisionRecurse_(array tree node, octree cell, pose)" nonnull="0,1,2,3,11"
PROBE impl_a_octf(const double*in,double*out){ CB; PF; out[0]=dynamic_AABB_tree_array::collisionRecurse_(AN0,OCT,CELL,cb,p,CD,(CollisionCallBack<double>)ccb); }
PROBE spec_a_octf(const double*in,double*out){ CB; PF; out[0]=octs<0>(A(in,0),OCT,CELL,cb,p,CD); }
//@ a_nulf what="collisionRecurse_(array tree node, unknown octree cell, pose)" nonnull="0,1,2,3"
PROBE impl_a_nulf(const double*in,double*out){ CB; PF; out[0]=dynamic_AABB_tree_array::collisionRecurse_<double>(AN0,OCT,nullptr,cb,p,CD,ccb); }
PROBE spec_a_nulf(const double*in,double*out){ CB; PF; out[0]=octs<0>(A(in,0),OCT,nullptr,cb,p,CD); }
PROBE alt_a_nulf(const double*in,double*out){ CB; PF; out[0]=octs<1>(A(in,0),OCT,nullptr,cb,p,CD); }
//@ a_doctf what="distanceRecurse_(array tree node, octree cell, pose)" nonnull="0,1,2,3,11"
PROBE impl_a_doctf(const double*in,double*out){ CB; PF; MD; out[0]=dynamic_AABB_tree_array::distanceRecurse_(AN0,OCT,CELL,cb,p,CD,(DistanceCallBack<double>)dcb,d); out[1]=d; }
PROBE spec_a_doctf(const double*in,double*out){ CB; PF; MD; out[0]=docts(A(in,0),OCT,CELL,cb,p,CD,d); out[1]=d; }

// the queries of the managers: what is descended into, with which arguments; no object against itself
typedef DynamicAABBTreeCollisionManager<double> TM; typedef DynamicAABBTreeCollisionManager_Array<double> AM;
// inputs: 40 root1, 41 leaves1, 42 root2, 43 leaves2 (array: 44, 45 node arrays), 46, 47 switches
template<class M> struct Mgr { alignas(16) char b[sizeof(M)]; M*m; };
static inline void setm(TM*m,const double*in,int k){ m->dtree.root_node=PTR(LN,40+2*k); m->dtree.n_leaves=*(size_t*)(in+41+2*k); m->octree_as_geometry_collide=in[46]>0; m->octree_as_geometry_distance=in[47]>0; }
static inline void setm(AM*m,const double*in,int k){ m->dtree.nodes=PTR(AN,44+k); m->dtree.root_node=*(size_t*)(in+40+2*k); m->dtree.n_leaves=*(size_t*)(in+41+2*k); m->octree_as_geometry_collide=in[46]>0; m->octree_as_geometry_distance=in[47]>0; }
static inline L rootof(TM*m){ return L(m->dtree.root_node); } static inline A rootof(AM*m){ return A(m->dtree.nodes,m->dtree.root_node); }
static inline size_t cnt(TM*m){ return m->dtree.n_leaves; } static inline size_t cnt(AM*m){ return m->dtree.n_leaves; }
#define MAN(M) alignas(16) char b1[sizeof(M)],b2[sizeof(M)]; M*m1=new(b1) M(),*m2=new(b2) M(); setm(m1,in,0); setm(m2,in,1)
#define INF std::numeric_limits<double>::max()
static inline bool isoct(CO*o){ return o->collisionGeometry()->getNodeType()==GEOM_OCTREE; }
#define OQ const OT*t=(const OT*)o->collisionGeometry().get()
#define OA t,t->getRoot(),t->getRootBV(),o->getTransform(),c
static inline void octq(TM*m,CO*o,void*c){ OQ; dynamic_AABB_tree::collisionRecurse<double>(m->dtree.root_node,OA,ccb); }
static inline void octq(TM*m,CO*o,void*c,double&d){ OQ; dynamic_AABB_tree::distanceRecurse<double>(m->dtree.root_node,OA,dcb,d); }
static inline void octq(AM*m,CO*o,void*c){ OQ; dynamic_AABB_tree_array::collisionRecurse<double>(m->dtree.nodes,m->dtree.root_node,OA,ccb); }
static inline void octq(AM*m,CO*o,void*c,double&d){ OQ; dynamic_AABB_tree_array::distanceRecurse<double>(m->dtree.nodes,m->dtree.root_node,OA,dcb,d); }
//@ l_mcs what="collide(all pairs) of the tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_l_mcs(const double*in,double*out){ MAN(TM); m1->TM::collide(CD,ccb); }
PROBE spec_l_mcs(const double*in,double*out){ MAN(TM); if(cnt(m1)) rootof(m1).self(CD); }
//@ l_mds what="distance(all pairs) of the tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_l_mds(const double*in,double*out){ MAN(TM); m1->TM::distance(CD,dcb); }
PROBE spec_l_mds(const double*in,double*out){ MAN(TM); if(cnt(m1)) { double d=INF; rootof(m1).self(CD,d); }; }
//@ l_mcm what="collide(other manager) of the tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_l_mcm(const double*in,double*out){ MAN(TM); m1->TM::collide(m2,CD,ccb); }
PROBE spec_l_mcm(const double*in,double*out){ MAN(TM); if(cnt(m1)&&cnt(m2)) rootof(m1).pair(rootof(m2),CD); }
//@ l_mdm what="distance(other manager) of the tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_l_mdm(const double*in,double*out){ MAN(TM); m1->TM::distance(m2,CD,dcb); }
PROBE spec_l_mdm(const double*in,double*out){ MAN(TM); if(cnt(m1)&&cnt(m2)) { double d=INF; rootof(m1).pair(rootof(m2),CD,d); }; }
//@ l_mcx what="collide(itself) of the tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_l_mcx(const double*in,double*out){ MAN(TM); m1->TM::collide(m1,CD,ccb); }
PROBE spec_l_mcx(const double*in,double*out){ MAN(TM); if(cnt(m1)) rootof(m1).self(CD); }
//@ l_mdx what="distance(itself) of the tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_l_mdx(const double*in,double*out){ MAN(TM); m1->TM::distance(m1,CD,dcb); }
PROBE spec_l_mdx(const double*in,double*out){ MAN(TM); if(cnt(m1)) { double d=INF; rootof(m1).self(CD,d); }; }
//@ l_mco what="collide(object) of the tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_l_mco(const double*in,double*out){ MAN(TM); m1->TM::collide(Q,CD,ccb); }
PROBE spec_l_mco(const double*in,double*out){ MAN(TM); if(cnt(m1)) { if(isoct(Q)&&!m1->octree_as_geometry_collide) octq(m1,Q,CD); else rootof(m1).query(Q,CD); }; }
//@ l_mdo what="distance(object) of the tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_l_mdo(const double*in,double*out){ MAN(TM); m1->TM::distance(Q,CD,dcb); }
PROBE spec_l_mdo(const double*in,double*out){ MAN(TM); if(cnt(m1)) { double d=INF; if(isoct(Q)&&!m1->octree_as_geometry_distance) octq(m1,Q,CD,d); else rootof(m1).query(Q,CD,d); }; }
//@ a_mcs what="collide(all pairs) of the array tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_a_mcs(const double*in,double*out){ MAN(AM); m1->AM::collide(CD,ccb); }
PROBE spec_a_mcs(const double*in,double*out){ MAN(AM); if(cnt(m1)) rootof(m1).self(CD); }
//@ a_mds what="distance(all pairs) of the array tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_a_mds(const double*in,double*out){ MAN(AM); m1->AM::distance(CD,dcb); }
PROBE spec_a_mds(const double*in,double*out){ MAN(AM); if(cnt(m1)) { double d=INF; rootof(m1).self(CD,d); }; }
//@ a_mcm what="collide(other manager) of the array tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_a_mcm(const double*in,double*out){ MAN(AM); m1->AM::collide(m2,CD,ccb); }
PROBE spec_a_mcm(const double*in,double*out){ MAN(AM); if(cnt(m1)&&cnt(m2)) rootof(m1).pair(rootof(m2),CD); }
//@ a_mdm what="distance(other manager) of the array tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_a_mdm(const double*in,double*out){ MAN(AM); m1->AM::distance(m2,CD,dcb); }
PROBE spec_a_mdm(const double*in,double*out){ MAN(AM); if(cnt(m1)&&cnt(m2)) { double d=INF; rootof(m1).pair(rootof(m2),CD,d); }; }
//@ a_mcx what="collide(itself) of the array tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_a_mcx(const double*in,double*out){ MAN(AM); m1->AM::collide(m1,CD,ccb); }
PROBE spec_a_mcx(const double*in,double*out){ MAN(AM); if(cnt(m1)) rootof(m1).self(CD); }
//@ a_mdx what="distance(itself) of the array tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_a_mdx(const double*in,double*out){ MAN(AM); m1->AM::distance(m1,CD,dcb); }
PROBE spec_a_mdx(const double*in,double*out){ MAN(AM); if(cnt(m1)) { double d=INF; rootof(m1).self(CD,d); }; }
//@ a_mco what="collide(object) of the array tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_a_mco(const double*in,double*out){ MAN(AM); m1->AM::collide(Q,CD,ccb); }
PROBE spec_a_mco(const double*in,double*out){ MAN(AM); if(cnt(m1)) { if(isoct(Q)&&!m1->octree_as_geometry_collide) octq(m1,Q,CD); else rootof(m1).query(Q,CD); }; }
//@ a_mdo what="distance(object) of the array tree manager" nonnull="0,1,2,3,40,42"
PROBE impl_a_mdo(const double*in,double*out){ MAN(AM); m1->AM::distance(Q,CD,dcb); }
PROBE spec_a_mdo(const double*in,double*out){ MAN(AM); if(cnt(m1)) { double d=INF; if(isoct(Q)&&!m1->octree_as_geometry_distance) octq(m1,Q,CD,d); else rootof(m1).query(Q,CD,d); }; }
