// Opaque stand-ins (never executed) for the numerical routines called by leaf tests: the analysis keeps
// them uninterpreted, identified by the values they are called with.
#pragma once
#include "probe.h"
#include "fcl/math/bv/AABB.h"
#include "fcl/geometry/shape/utility.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/narrowphase/contact_point.h"
#include "fcl/narrowphase/collision_request.h"
#include "fcl/narrowphase/collision_result.h"
#include "fcl/narrowphase/distance_request.h"
#include "fcl/narrowphase/distance_result.h"
#include "fcl/narrowphase/detail/traversal/collision/intersect.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h"
using namespace fcl; using namespace fcl::detail;
typedef const V3& cv; typedef std::size_t sz;
extern "C" { double evp_out(double,int); double evp_tri(const double*); double evp_tdist(const double*); double evp_sti(const void*,const double*); double evp_si(const void*,const void*,const double*);
  double evp_std(const void*,const double*); double evp_sd(const void*,const void*,const double*); double evp_ssd(const void*,const void*,const double*); double evp_bv(const void*,const double*);
  void evw_contact(const void*,const void*,long,long,const double*); void evw_cost(const double*,long); void evw_upd(const void*,const void*,long,long,const double*,long); }
static inline void putT(double*o,const T3&t){ pm(o,t.linear()); pv(o+9,t.translation()); }
static inline void putId(double*o){ for(int i=0;i<12;++i) o[i]=(i==0||i==4||i==8); }
// ---- axis-aligned boxes (exactness of these operations: C06)
extern "C" { double evp_box(const double*); double evp_cut(const double*); }
namespace fcl {
template<> inline AABB<double>::AABB(cv a,cv b,cv c){ double x[9]; pv(x,a);pv(x+3,b);pv(x+6,c); double h=evp_box(x); min_=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); max_=V3(evp_out(h,3),evp_out(h,4),evp_out(h,5)); }
template<> inline bool AABB<double>::overlap(const AABB<double>&o,AABB<double>&p) const { double x[12]; pv(x,min_);pv(x+3,max_);pv(x+6,o.min_);pv(x+9,o.max_); double h=evp_cut(x); p.min_=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); p.max_=V3(evp_out(h,3),evp_out(h,4),evp_out(h,5)); return evp_out(h,6)>0; }
}
// ---- triangles
static inline bool mtri(const double*a,V3*c,unsigned*n,double*d,V3*nm){ double h=evp_tri(a); if(n)*n=evp_out(h,1)>0?(evp_out(h,2)>0?2u:1u):0u; if(c){c[0]=V3(evp_out(h,3),evp_out(h,4),evp_out(h,5));c[1]=V3(evp_out(h,6),evp_out(h,7),evp_out(h,8));} if(d)*d=evp_out(h,9); if(nm)*nm=V3(evp_out(h,10),evp_out(h,11),evp_out(h,12)); return evp_out(h,0)>0; }
#define PTS6 double a[30]; pv(a,p1);pv(a+3,p2);pv(a+6,p3);pv(a+9,q1);pv(a+12,q2);pv(a+15,q3);
namespace fcl { namespace detail {
template<> inline bool Intersect<double>::intersect_Triangle(cv p1,cv p2,cv p3,cv q1,cv q2,cv q3,V3*c,unsigned*n,double*d,V3*nm){ PTS6 putId(a+18); return mtri(a,c,n,d,nm); }
template<> inline bool Intersect<double>::intersect_Triangle(cv p1,cv p2,cv p3,cv q1,cv q2,cv q3,const Matrix3<double>&R,cv T,V3*c,unsigned*n,double*d,V3*nm){ PTS6 pm(a+18,R);pv(a+27,T); return mtri(a,c,n,d,nm); }
template<> inline bool Intersect<double>::intersect_Triangle(cv p1,cv p2,cv p3,cv q1,cv q2,cv q3,const T3&t,V3*c,unsigned*n,double*d,V3*nm){ PTS6 putT(a+18,t); return mtri(a,c,n,d,nm); }
static inline double mtd(const double*a,V3&P,V3&Q){ double h=evp_tdist(a); P=V3(evp_out(h,1),evp_out(h,2),evp_out(h,3)); Q=V3(evp_out(h,4),evp_out(h,5),evp_out(h,6)); return evp_out(h,0); }
template<> inline double TriangleDistance<double>::triDistance(cv p1,cv p2,cv p3,cv q1,cv q2,cv q3,V3&P,V3&Q){ PTS6 putId(a+18); return mtd(a,P,Q); }
template<> inline double TriangleDistance<double>::triDistance(cv p1,cv p2,cv p3,cv q1,cv q2,cv q3,const Matrix3<double>&R,cv T,V3&P,V3&Q){ PTS6 pm(a+18,R);pv(a+27,T); return mtd(a,P,Q); }
template<> inline double TriangleDistance<double>::triDistance(cv p1,cv p2,cv p3,cv q1,cv q2,cv q3,const T3&t,V3&P,V3&Q){ PTS6 putT(a+18,t); return mtd(a,P,Q); }
}
// ---- results
#ifndef CONTACT_BOTH
#define CONTACT_BOTH 1
#endif
// which effects matter: 4 contacts with all their arguments; 3 that a contact or cost source is recorded, and the cost source's arguments; 2 only the number of contacts
#if CHK==4
#define CT(a,b,i,j,v) evw_contact(a,b,i,j,v)
#define CO(v,m)
#elif CHK==3
#define CT(a,b,i,j,v) evw_contact(0,0,0,0,0)
#define CO(v,m) evw_cost(v,m)
#else
#define CT(a,b,i,j,v)
#define CO(v,m)
#endif
#define ON_CONTACT(c) { double v[7]; pv(v,c.pos); pv(v+3,c.normal); v[6]=c.penetration_depth; CT(c.o1,c.o2,c.b1,c.b2,v); }
#define ON_COST(c,m) { double v[7]; pv(v,c.aabb_min); pv(v+3,c.aabb_max); v[6]=c.cost_density; CO(v,(long)m); }
#if CHK==2
#define CNT0 LNG(8)
#define MAXC LNG(9)
#define MONITOR out[0]=(R.n()<=MAXC || R.n()==CNT0)
#define TRIVIAL out[0]=1; return
#define TRIV2 out[0]=1; return
#else
#define CNT0 0L
#define MAXC 1000L
#define MONITOR
#define TRIVIAL
#define TRIV2
#endif
template<> inline void CollisionResult<double>::addContact(const Contact<double>&c){ ON_CONTACT(c); long*p=(long*)this; p[1]+=sizeof(Contact<double>); }
template<> inline void CollisionResult<double>::addCostSource(const CostSource<double>&c,std::size_t m){ ON_COST(c,m); }
}
// a result holding `n` contacts (begin = 0, end = n*sizeof)
struct Res { alignas(16) char b[sizeof(CollisionResult<double>)]; Res(long n){ ((long*)b)[0]=0; ((long*)b)[1]=n*(long)sizeof(Contact<double>); } CollisionResult<double>&r(){ return *(CollisionResult<double>*)b; } long n(){ return ((long*)b)[1]/(long)sizeof(Contact<double>); } };
// ---- shapes and solver
struct MS : ShapeBase<double> { MS(); void computeLocalAABB() override; virtual void key(); }; MS::MS(){} void MS::key(){}
struct MS2 : ShapeBase<double> { MS2(); void computeLocalAABB() override; virtual void key(); }; MS2::MS2(){} void MS2::key(){}
static inline void mbv(const void*s,const T3&t,AABB<double>&b){ double a[12]; putT(a,t); double h=evp_bv(s,a); b.min_=V3(evp_out(h,0),evp_out(h,1),evp_out(h,2)); b.max_=V3(evp_out(h,3),evp_out(h,4),evp_out(h,5)); }
namespace fcl { namespace detail {
template<> struct ComputeBVImpl<double,AABB<double>,MS> { static void run(const MS&s,const T3&t,AABB<double>&b){ mbv(&s,t,b); } };
template<> struct ComputeBVImpl<double,AABB<double>,MS2> { static void run(const MS2&s,const T3&t,AABB<double>&b){ mbv(&s,t,b); } };
} }
#ifndef NCP
#define NCP 2
#endif
struct MSolver { typedef double S;
  double gjk_max_iterations;
  template<class A,class B> bool shapeIntersect(const A&s1,const T3&t1,const B&s2,const T3&t2,std::vector<ContactPoint<double>>*c) const { double a[24]; putT(a,t1); putT(a+12,t2); double h=evp_si(&s1,&s2,a);
    if(c) { c->resize(NCP); for(int k=0;k<NCP;++k){ (*c)[k].pos=V3(evp_out(h,10*k+1),evp_out(h,10*k+2),evp_out(h,10*k+3)); (*c)[k].normal=V3(evp_out(h,10*k+4),evp_out(h,10*k+5),evp_out(h,10*k+6)); (*c)[k].penetration_depth=evp_out(h,10*k+7); } } return evp_out(h,0)>0; }
  template<class A> bool shapeTriangleIntersect(const A&s,const T3&tf,cv p1,cv p2,cv p3,V3*c,double*d,V3*n) const { double a[33]; pv(a,p1);pv(a+3,p2);pv(a+6,p3); putT(a+9,tf); putId(a+21); return fin(evp_sti(&s,a),c,d,n); }
  template<class A> bool shapeTriangleIntersect(const A&s,const T3&tf,cv p1,cv p2,cv p3,const T3&t2,V3*c,double*d,V3*n) const { double a[33]; pv(a,p1);pv(a+3,p2);pv(a+6,p3); putT(a+9,tf); putT(a+21,t2); return fin(evp_sti(&s,a),c,d,n); }
  static bool fin(double h,V3*c,double*d,V3*n){ if(c)*c=V3(evp_out(h,1),evp_out(h,2),evp_out(h,3)); if(n)*n=V3(evp_out(h,4),evp_out(h,5),evp_out(h,6)); if(d)*d=evp_out(h,7); return evp_out(h,0)>0; }
  template<class A> bool shapeTriangleDistance(const A&s,const T3&tf,cv p1,cv p2,cv p3,double*d,V3*P,V3*Q) const { double a[33]; pv(a,p1);pv(a+3,p2);pv(a+6,p3); putT(a+9,tf); putId(a+21); return fid(evp_std(&s,a),d,P,Q); }
  template<class A> bool shapeTriangleDistance(const A&s,const T3&tf,cv p1,cv p2,cv p3,const T3&t2,double*d,V3*P,V3*Q) const { double a[33]; pv(a,p1);pv(a+3,p2);pv(a+6,p3); putT(a+9,tf); putT(a+21,t2); return fid(evp_std(&s,a),d,P,Q); }
  template<class A,class B> bool shapeDistance(const A&s1,const T3&t1,const B&s2,const T3&t2,double*d,V3*P,V3*Q) const { double a[24]; putT(a,t1); putT(a+12,t2); return fid(evp_sd(&s1,&s2,a),d,P,Q); }
  template<class A,class B> bool shapeSignedDistance(const A&s1,const T3&t1,const B&s2,const T3&t2,double*d,V3*P,V3*Q) const { double a[24]; putT(a,t1); putT(a+12,t2); return fid(evp_ssd(&s1,&s2,a),d,P,Q); }
  static bool fid(double h,double*d,V3*P,V3*Q){ if(P)*P=V3(evp_out(h,1),evp_out(h,2),evp_out(h,3)); if(Q)*Q=V3(evp_out(h,4),evp_out(h,5),evp_out(h,6)); if(d)*d=evp_out(h,7); return evp_out(h,0)>0; }
};
// ---- probe inputs
#define PTR(T,k) ((T*)*(void**)(in+(k)))
#define INT(k) ((int)*(long*)(in+(k)))
#define LNG(k) (*(long*)(in+(k)))
#define BOOL(k) (*(bool*)(in+(k)))
