// C05: recursive traversals.  Never executed; analysed as IR.
// The node's virtual functions are opaque; the recursion itself is opaque below the first level (induction).
#include "probe.h"
#include "fcl/narrowphase/detail/traversal/traversal_recurse.h"
#include "fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/distance_traversal_node_base.h"
using namespace fcl; using namespace fcl::detail;
struct CN : CollisionTraversalNodeBase<double> { CN(); virtual void key(); bool isFirstNodeLeaf(int) const override; bool isSecondNodeLeaf(int) const override; bool firstOverSecond(int,int) const override; int getFirstLeftChild(int) const override; int getFirstRightChild(int) const override; int getSecondLeftChild(int) const override; int getSecondRightChild(int) const override; bool BVTesting(int,int) const override; void leafTesting(int,int) const override; bool canStop() const override; };
CN::CN() {} void CN::key() {}
struct DN : DistanceTraversalNodeBase<double> { DN(); virtual void key(); bool isFirstNodeLeaf(int) const override; bool isSecondNodeLeaf(int) const override; bool firstOverSecond(int,int) const override; int getFirstLeftChild(int) const override; int getFirstRightChild(int) const override; int getSecondLeftChild(int) const override; int getSecondRightChild(int) const override; double BVTesting(int,int) const override; void leafTesting(int,int) const override; bool canStop(double) const override; };
DN::DN() {} void DN::key() {}
//! p ^(CN|DN)::(isFirstNodeLeaf|isSecondNodeLeaf|firstOverSecond|get(First|Second)(Left|Right)Child|BVTesting)\( skip=1
//! r ^(CN|DN)::canStop\( skip=1
//! w ^(CN|DN)::leafTesting\( skip=1
//! w ^std::__detail::_List_node_base::_M_hook name=front_list_add
//! rec ^void\sfcl::detail::(collisionRecurse|selfCollisionRecurse|distanceRecurse|distanceQueueRecurse)<double>\(fcl::detail::(Collision|Distance)TraversalNodeBase skip=1 name=recurse
//! rec ^void\sfcl::detail::collisionRecurse<double>\(fcl::detail::MeshCollisionTraversalNodeOBB skip=1 name=recurseOBB
//! p+drop MeshCollisionTraversalNodeOBB<double>::BVTesting\(int,\sint,\sEigen skip=1
//! w+drop MeshCollisionTraversalNodeOBB<double>::leafTesting\(int,\sint,\sEigen skip=1
#define FL ((BVHFrontList*)*(void**)(in+8))
#define IN(k) ((int)*(long*)(in+k))
//@ coll what="collisionRecurse(node, b1, b2, front_list)"
PROBE impl_coll(const double*in,double*out){ CN n; collisionRecurse<double>(&n,IN(0),IN(1),FL); }
PROBE spec_coll(const double*in,double*out){ CN n; int a=IN(0),b=IN(1); BVHFrontList*fl=FL; bool la=n.isFirstNodeLeaf(a),lb=n.isSecondNodeLeaf(b),dis=n.BVTesting(a,b);
  if((la&&lb)||dis) updateFrontList(fl,a,b);
  if(dis) return;
  if(la&&lb){ n.leafTesting(a,b); return; }
  bool first=n.firstOverSecond(a,b);
  int a1=first?n.getFirstLeftChild(a):a, b1=first?b:n.getSecondLeftChild(b), a2=first?n.getFirstRightChild(a):a, b2=first?b:n.getSecondRightChild(b);
  collisionRecurse<double>(&n,a1,b1,fl); if(fl||!n.canStop()) collisionRecurse<double>(&n,a2,b2,fl); }
//@ self what="selfCollisionRecurse(node, b, front_list)"
PROBE impl_self(const double*in,double*out){ CN n; selfCollisionRecurse<double>(&n,IN(0),FL); }
PROBE spec_self(const double*in,double*out){ CN n; int a=IN(0); BVHFrontList*fl=FL; if(n.isFirstNodeLeaf(a)) return; int l=n.getFirstLeftChild(a),r=n.getFirstRightChild(a);
  selfCollisionRecurse<double>(&n,l,fl); if(!fl&&n.canStop()) return; selfCollisionRecurse<double>(&n,r,fl); if(!fl&&n.canStop()) return; collisionRecurse<double>(&n,l,r,fl); }
//@ dist what="distanceRecurse(node, b1, b2, front_list)"
PROBE impl_dist(const double*in,double*out){ DN n; distanceRecurse<double>(&n,IN(0),IN(1),FL); }
static inline void dgo(DN&n,double d,int a,int b,BVHFrontList*fl){ if(n.canStop(d)) updateFrontList(fl,a,b); else distanceRecurse<double>(&n,a,b,fl); }
PROBE spec_dist(const double*in,double*out){ DN n; int a=IN(0),b=IN(1); BVHFrontList*fl=FL; if(n.isFirstNodeLeaf(a)&&n.isSecondNodeLeaf(b)){ updateFrontList(fl,a,b); n.leafTesting(a,b); return; }
  bool first=n.firstOverSecond(a,b);
  int a1=first?n.getFirstLeftChild(a):a, b1=first?b:n.getSecondLeftChild(b), a2=first?n.getFirstRightChild(a):a, b2=first?b:n.getSecondRightChild(b);
  double d1=n.BVTesting(a1,b1), d2=n.BVTesting(a2,b2);
  if(d1<=d2){ dgo(n,d1,a1,b1,fl); dgo(n,d2,a2,b2,fl); } else { dgo(n,d2,a2,b2,fl); dgo(n,d1,a1,b1,fl); } }
// oriented volumes: R, T place the second node's frame in the first node's frame
typedef MeshCollisionTraversalNodeOBB<double> ON;
struct OM : ON { OM(); virtual void key(); bool isFirstNodeLeaf(int) const override; bool isSecondNodeLeaf(int) const override; bool firstOverSecond(int,int) const override; int getFirstLeftChild(int) const override; int getFirstRightChild(int) const override; int getSecondLeftChild(int) const override; int getSecondRightChild(int) const override; bool canStop() const override; };
OM::OM() {} void OM::key() {}
//! p ^OM::(isFirstNodeLeaf|isSecondNodeLeaf|firstOverSecond|get(First|Second)(Left|Right)Child)\( skip=1
//! r ^OM::canStop\( skip=1
static inline void rel1(const OBB<double>&b,const double*R,const double*T,double*o){ double A[9]; for(int i=0;i<3;++i)for(int j=0;j<3;++j) A[3*i+j]=b.axis(i,j); for(int i=0;i<3;++i)for(int j=0;j<3;++j) o[3*i+j]=A[i]*R[j]+A[3+i]*R[3+j]+A[6+i]*R[6+j]; for(int i=0;i<3;++i) o[9+i]=A[i]*(T[0]-b.To[0])+A[3+i]*(T[1]-b.To[1])+A[6+i]*(T[2]-b.To[2]); }
static inline void rel2(const OBB<double>&b,const double*R,const double*T,double*o){ for(int i=0;i<3;++i)for(int j=0;j<3;++j) o[3*i+j]=R[3*i]*b.axis(0,j)+R[3*i+1]*b.axis(1,j)+R[3*i+2]*b.axis(2,j); for(int i=0;i<3;++i) o[9+i]=R[3*i]*b.To[0]+R[3*i+1]*b.To[1]+R[3*i+2]*b.To[2]+T[i]; }
static inline void recO(OM*n,int a,int b,const double*o,BVHFrontList*fl){ M3 R=gm(o); V3 T=gv(o+9); collisionRecurse<double>((ON*)n,a,b,R,T,fl); }
#define OSET OM n; n.model1=*(const BVHModel<OBB<double>>**)(in+9); n.model2=*(const BVHModel<OBB<double>>**)(in+10)
//@ obb what="collisionRecurse(MeshCollisionTraversalNodeOBB*, b1, b2, R, T, front_list)" ties=ignore
PROBE impl_obb(const double*in,double*out){ OSET; M3 R=gm(in+11); V3 T=gv(in+20); collisionRecurse<double>((ON*)&n,IN(0),IN(1),R,T,FL); }
PROBE spec_obb(const double*in,double*out){ OSET; int a=IN(0),b=IN(1); BVHFrontList*fl=FL; M3 R=gm(in+11); V3 T=gv(in+20); bool la=n.isFirstNodeLeaf(a),lb=n.isSecondNodeLeaf(b),dis=n.ON::BVTesting(a,b,R,T);
  if((la&&lb)||dis) updateFrontList(fl,a,b);
  if(dis) return;
  if(la&&lb){ n.ON::leafTesting(a,b,R,T); return; }
  double o[12]; if(n.firstOverSecond(a,b)) { int l=n.getFirstLeftChild(a),r=n.getFirstRightChild(a); rel1(n.model1->getBV(l).bv,in+11,in+20,o); recO(&n,l,b,o,fl); if(!fl&&n.canStop()) return; rel1(n.model1->getBV(r).bv,in+11,in+20,o); recO(&n,r,b,o,fl); }
  else { int l=n.getSecondLeftChild(b),r=n.getSecondRightChild(b); rel2(n.model2->getBV(l).bv,in+11,in+20,o); recO(&n,a,l,o,fl); if(!fl&&n.canStop()) return; rel2(n.model2->getBV(r).bv,in+11,in+20,o); recO(&n,a,r,o,fl); } }
