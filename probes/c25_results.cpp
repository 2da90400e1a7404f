// C25: orders, results.  Never executed; analysed as IR.
#include "probe.h"
#include <set>
#include <iterator>
#include <new>
namespace fcl { template<typename S> struct CostSource; }
// at most four cost sources, kept in their order; equivalent sources are not merged (the inputs are distinct)
struct It25 { typedef long difference_type; typedef fcl::CostSource<double> value_type; typedef const value_type*pointer; typedef const value_type&reference; typedef std::bidirectional_iterator_tag iterator_category; fcl::CostSource<double>*p; inline It25&operator--(); inline It25&operator++(); inline It25 operator++(int); inline It25 operator--(int); inline const fcl::CostSource<double>&operator*() const; inline const fcl::CostSource<double>*operator->() const; bool operator==(const It25&o) const { return p==o.p; } bool operator!=(const It25&o) const { return p!=o.p; } };
template<> class std::set<fcl::CostSource<double>> { public: alignas(16) char b[5*sizeof(double)*8]; long n;
  typedef fcl::CostSource<double> E; typedef It25 iterator; typedef It25 const_iterator; typedef E value_type;
  inline E*p() const; inline set(); inline iterator begin() const; inline iterator end() const; inline size_t size() const; inline bool empty() const; inline void clear(); inline std::pair<iterator,bool> insert(const E&e); template<typename...A> inline void emplace(A&&...a); inline iterator erase(iterator); inline iterator erase(iterator,iterator); };
#include <utility>
#if CHK==2
// vectors of at most four elements
#include <vector>
namespace fcl { template<typename S> struct Contact; }
template<typename E,int SZ> struct Vec25 { alignas(16) char b[5*SZ]; long n; typedef E value_type; typedef E*iterator; typedef const E*const_iterator; typedef E&reference; typedef const E&const_reference; typedef size_t size_type; typedef long difference_type;
  inline E*p() const { return (E*)b; } inline Vec25():n(0){} inline E*begin(){ return p(); } inline E*end(){ return p()+n; } inline const E*begin() const { return p(); } inline const E*end() const { return p()+n; } inline const E*cbegin() const { return p(); } inline const E*cend() const { return p()+n; }
  inline size_t size() const { return n; } inline bool empty() const { return n==0; } inline void clear(){ n=0; } inline void reserve(size_t){} inline E&operator[](size_t i){ return p()[i]; } inline const E&operator[](size_t i) const { return p()[i]; } inline E&at(size_t i){ return p()[i]; } inline const E&at(size_t i) const { return p()[i]; }
  inline E&back(){ return p()[n-1]; } inline const E&back() const { return p()[n-1]; } inline E&front(){ return *p(); } inline const E&front() const { return *p(); } inline E*data(){ return p(); } inline const E*data() const { return p(); }
  inline void push_back(const E&e){ p()[n]=e; ++n; } template<typename...A> inline void emplace_back(A&&...a){ new((void*)(p()+n)) E(static_cast<A&&>(a)...); ++n; } inline void resize(size_t k){ n=k; } inline void pop_back(){ --n; }
  template<typename I> inline void assign(I a,I z){ n=0; for(;a!=z;++a) push_back(*a); } template<typename I> inline void insert(const E*,I a,I z){ for(;a!=z;++a) push_back(*a); } };
template<> class std::vector<fcl::Contact<double>>:public Vec25<fcl::Contact<double>,104> {}; template<> class std::vector<fcl::CostSource<double>>:public Vec25<fcl::CostSource<double>,64> {};
#endif
#include "fcl/narrowphase/collision_result.h"
#include "fcl/narrowphase/distance_result.h"
#include "fcl/narrowphase/continuous_collision_result.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree_array.h"
#include "fcl/narrowphase/detail/traversal/traversal_recurse.h"
using namespace fcl; using namespace fcl::detail;
typedef CostSource<double> CS; typedef std::set<CS> SET; typedef Contact<double> C; typedef CollisionResult<double> CRes; typedef DistanceResult<double> DRes; typedef CollisionGeometry<double> CG; typedef CollisionObject<double> CO;
static_assert(sizeof(CS)<=64,"");
inline It25&It25::operator--(){ --p; return *this; } inline It25&It25::operator++(){ ++p; return *this; } inline It25 It25::operator--(int){ It25 o=*this; --p; return o; } inline It25 It25::operator++(int){ It25 o=*this; ++p; return o; } inline const CS&It25::operator*() const { return *p; } inline const CS*It25::operator->() const { return p; }
inline CS*SET::p() const { return (CS*)b; } inline SET::set():n(0){} inline It25 SET::begin() const { return {p()}; } inline It25 SET::end() const { return {p()+n}; } inline size_t SET::size() const { return n; } inline bool SET::empty() const { return n==0; } inline void SET::clear(){ n=0; }
inline std::pair<It25,bool> SET::insert(const CS&e){ CS x=e; for(long i=0;i<n;++i) if(x<p()[i]) { CS t=p()[i]; p()[i]=x; x=t; } p()[n++]=x; return {It25{p()},true}; }
template<typename...A> inline void SET::emplace(A&&...a){ insert(CS(std::forward<A>(a)...)); }
inline It25 SET::erase(It25 it){ for(CS*q=it.p;q+1<p()+n;++q) *q=q[1]; --n; return it; } inline It25 SET::erase(It25 a,It25 c){ while(a.p<c.p){ erase(It25{--c.p}); } return a; }
static_assert(sizeof(Contact<double>)<=104,"");
#define PTR(T,k) ((T*)*(void**)(in+(k)))
#define LNG(k) (*(long*)(in+(k)))
#define BOOL(k) (*(bool*)(in+(k)))
extern "C" double evp_id(const void*);
// ---- contacts
static inline C con(const double*in){ C c; c.b1=LNG(0); c.b2=LNG(1); return c; }
//@ contact_lt what="order of contacts" events=none
PROBE impl_contact_lt(const double*in,double*out){ C a=con(in),b=con(in+2); out[0]=a<b; }
PROBE spec_contact_lt(const double*in,double*out){ out[0]=LNG(0)<LNG(2) || (LNG(0)==LNG(2) && LNG(1)<LNG(3)); }
//@ contact_new what="contact constructors" nonnull="0,1" events=none
PROBE impl_contact_new(const double*in,double*out){ C z; C a(PTR(CG,0),PTR(CG,1),LNG(2),LNG(3)); C b(PTR(CG,0),PTR(CG,1),LNG(2),LNG(3),V3(in[4],in[5],in[6]),V3(in[7],in[8],in[9]),in[10]); out[0]=z.o1==0&&z.o2==0; out[1]=(double)z.b1; out[2]=(double)z.b2; out[3]=a.o1==PTR(CG,0)&&a.o2==PTR(CG,1); out[4]=(double)a.b1; out[5]=(double)a.b2;
  out[6]=b.o1==PTR(CG,0)&&b.o2==PTR(CG,1); out[7]=(double)b.b1; out[8]=(double)b.b2; pv(out+9,b.pos); pv(out+12,b.normal); out[15]=b.penetration_depth; }
PROBE spec_contact_new(const double*in,double*out){ out[0]=1; out[1]=out[2]=-1; out[3]=out[6]=1; out[4]=out[7]=(double)LNG(2); out[5]=out[8]=(double)LNG(3); for(int k=0;k<7;++k) out[9+k]=in[4+k]; }
// ---- cost sources
static inline CS cs(const double*in){ CS c; c.aabb_min=V3(in[0],in[1],in[2]); c.aabb_max=V3(in[3],in[4],in[5]); c.cost_density=in[6]; c.total_cost=in[7]; return c; }
//@ cost_lt what="order of cost sources: the more expensive first" events=none
PROBE impl_cost_lt(const double*in,double*out){ CS a=cs(in),b=cs(in+8); out[0]=a<b; }
PROBE spec_cost_lt(const double*in,double*out){ const double*p=in,*q=in+8; if(p[7]!=q[7]) out[0]=p[7]>q[7]; else if(p[6]!=q[6]) out[0]=p[6]>q[6]; else if(p[0]!=q[0]) out[0]=p[0]<q[0]; else if(p[1]!=q[1]) out[0]=p[1]<q[1]; else out[0]=p[2]<q[2]; }
//@ cost_new what="cost of a region" events=none
PROBE impl_cost_new(const double*in,double*out){ CS a(V3(in[0],in[1],in[2]),V3(in[3],in[4],in[5]),in[6]); AABB<double> x; x.min_<<in[0],in[1],in[2]; x.max_<<in[3],in[4],in[5]; CS b(x,in[6]); pv(out,a.aabb_min); pv(out+3,a.aabb_max); out[6]=a.cost_density; out[7]=a.total_cost; pv(out+8,b.aabb_min); pv(out+11,b.aabb_max); out[14]=b.cost_density; out[15]=b.total_cost; }
PROBE spec_cost_new(const double*in,double*out){ for(int h=0;h<16;h+=8){ for(int k=0;k<7;++k) out[h+k]=in[k]; out[h+7]=in[6]*(in[3]-in[0])*(in[4]-in[1])*(in[5]-in[2]); } }
// three sources with different costs added one after the other; the limit is M
static inline CS cx(const double*in,int k){ CS c; c.aabb_min=V3(in[3*k+1],0,0); c.aabb_max=V3(0,0,0); c.cost_density=in[3*k+2]; c.total_cost=in[3*k]; return c; }
template<int M> static inline void add3(const double*in,double*out){ CRes r; for(int k=0;k<3;++k){ CS c=cx(in,k); r.addCostSource(c,M); } out[0]=(double)r.numCostSources(); for(int k=0;k<M&&k<3;++k){ const CS&c=r.cost_sources.p()[k]; out[1+3*k]=c.total_cost; out[2+3*k]=c.aabb_min[0]; out[3+3*k]=c.cost_density; } }
template<int M> static inline void ref3(const double*in,double*out){ out[0]=M<3?M:3; int used[3]={0,0,0}; (void)used; double a[3][3]; for(int k=0;k<3;++k) for(int j=0;j<3;++j) a[k][j]=in[3*k+j];
  for(int pass=0;pass<2;++pass) for(int k=0;k<2;++k) if(a[k+1][0]>a[k][0]||(a[k+1][0]==a[k][0]&&(a[k+1][2]>a[k][2]||(a[k+1][2]==a[k][2]&&a[k+1][1]<a[k][1])))) for(int j=0;j<3;++j){ double t=a[k][j]; a[k][j]=a[k+1][j]; a[k+1][j]=t; }
  for(int k=0;k<M&&k<3;++k){ out[1+3*k]=a[k][0]; out[2+3*k]=a[k][1]; out[3+3*k]=a[k][2]; } }
#define ADD3(M) PROBE impl_costs_##M(const double*in,double*out){ add3<M>(in,out); } PROBE spec_costs_##M(const double*in,double*out){ ref3<M>(in,out); }
//@ costs_0 what="cost sources kept with limit 0" events=none
//@ costs_1 what="cost sources kept with limit 1" events=none ties=skip
//@ costs_2 what="cost sources kept with limit 2" events=none ties=skip
//@ costs_3 what="cost sources kept with limit 3" events=none ties=skip
ADD3(0)
ADD3(1)
ADD3(2)
ADD3(3)
//@ costs_s what="cost sources kept when the limit shrinks to 1" events=none ties=skip
PROBE impl_costs_s(const double*in,double*out){ CRes r; for(int k=0;k<3;++k){ CS c=cx(in,k); r.addCostSource(c,k<2?3:1); } out[0]=(double)r.numCostSources(); const CS&c=r.cost_sources.p()[0]; out[1]=c.total_cost; out[2]=c.aabb_min[0]; out[3]=c.cost_density; }
PROBE spec_costs_s(const double*in,double*out){ ref3<1>(in,out); }
// ---- results
#if CHK!=2
//@ col_clear what="cleared collision result" nonnull="0,1" events=none
PROBE impl_col_clear(const double*in,double*out){ CRes r; CS c=cs(in); r.addCostSource(c,5); long*v=(long*)&r.contacts; v[0]=LNG(8); v[1]=LNG(8)+104*2; r.clear(); out[0]=(double)r.numCostSources(); out[1]=(double)r.numContacts(); out[2]=r.isCollision(); }
PROBE spec_col_clear(const double*in,double*out){ out[0]=out[1]=out[2]=0; }
//@ col_num what="contents of a collision result" events=none
PROBE impl_col_num(const double*in,double*out){ CRes r; long*v=(long*)&r.contacts; v[0]=0; v[1]=LNG(8)*(long)sizeof(C); out[0]=(double)r.numContacts(); out[1]=r.isCollision(); v[0]=v[1]=0; CS a=cs(in); r.addCostSource(a,5); out[2]=(double)r.numCostSources(); }
PROBE spec_col_num(const double*in,double*out){ out[0]=(double)LNG(8); out[1]=LNG(8)*(long)sizeof(C)!=0; out[2]=1; }
//@ col_get what="contact by number (the last one when out of range)" nonnull="0" events=none
PROBE impl_col_get(const double*in,double*out){ alignas(8) char x[sizeof(CRes)]; CRes&r=*(CRes*)x; C a[2]; for(int k=0;k<2;++k){ a[k].b1=LNG(1+k); } C**v=(C**)&r.contacts; v[0]=a; v[1]=a+2; out[0]=(double)r.getContact(0).b1; out[1]=(double)r.getContact(1).b1; out[2]=(double)r.getContact(5).b1; }
PROBE spec_col_get(const double*in,double*out){ out[0]=(double)LNG(1); out[1]=out[2]=(double)LNG(2); }
#else
static inline C ct(const double*in){ C c(PTR(CG,0),PTR(CG,1),LNG(2),LNG(3),V3(in[4],in[5],in[6]),V3(in[7],in[8],in[9]),in[10]); return c; }
static inline void pc(double*out,const C&c){ out[0]=evp_id(c.o1); out[1]=evp_id(c.o2); out[2]=(double)c.b1; out[3]=(double)c.b2; pv(out+4,c.normal); pv(out+7,c.pos); out[10]=c.penetration_depth; }
//@ con_add what="contacts added and read back, in order" nonnull="0,1,11,12" if=CHK:2
PROBE impl_con_add(const double*in,double*out){ CRes r; C a=ct(in),b=ct(in+11); r.addContact(a); r.addContact(b); out[0]=(double)r.numContacts(); out[1]=r.isCollision(); pc(out+2,r.getContact(0)); pc(out+13,r.getContact(1)); std::vector<C> v; r.getContacts(v); out[24]=(double)v.size(); pc(out+25,v[0]); pc(out+36,v[1]); out[47]=(double)r.numContacts(); }
PROBE spec_con_add(const double*in,double*out){ C a=ct(in),b=ct(in+11); out[0]=2; out[1]=1; pc(out+2,a); pc(out+13,b); out[24]=2; pc(out+25,a); pc(out+36,b); out[47]=2; }
//@ cost_get what="cost sources read back in order" if=CHK:2 events=none
PROBE impl_cost_get(const double*in,double*out){ CRes r; CS a=cs(in),b=cs(in+8); r.addCostSource(a,5); r.addCostSource(b,5); std::vector<CS> v; v.push_back(a); r.getCostSources(v); out[0]=(double)v.size(); for(int k=0;k<2;++k){ out[1+4*k]=v[k].total_cost; pv(out+2+4*k,v[k].aabb_max); } }
PROBE spec_cost_get(const double*in,double*out){ CS a=cs(in),b=cs(in+8); bool w=b<a; const double*p=w?in+8:in,*q=w?in:in+8; out[0]=2; out[1]=p[7]; out[5]=q[7]; for(int k=0;k<3;++k){ out[2+k]=p[3+k]; out[6+k]=q[3+k]; } }
//@ con_clear what="clear and reuse of a collision result" if=CHK:2 events=none nonnull="0,1,11,12"
PROBE impl_con_clear(const double*in,double*out){ CRes r; C a=ct(in); CS c=cs(in+11); r.addContact(a); r.addCostSource(c,3); r.clear(); out[0]=(double)r.numContacts(); out[1]=(double)r.numCostSources(); out[2]=r.isCollision(); r.addContact(a); out[3]=(double)r.numContacts(); }
PROBE spec_con_clear(const double*,double*out){ out[0]=out[1]=out[2]=0; out[3]=1; }
#endif
// distances: in 0.. old result, 20.. new values
static inline void din(DRes&R,const double*in){ R.min_distance=in[0]; R.o1=PTR(CG,1); R.o2=PTR(CG,2); R.b1=LNG(3); R.b2=LNG(4); R.nearest_points[0]=V3(in[5],in[6],in[7]); R.nearest_points[1]=V3(in[8],in[9],in[10]); }
static inline void dout(double*out,const DRes&R){ out[0]=R.min_distance; out[1]=evp_id(R.o1); out[2]=evp_id(R.o2); out[3]=(double)R.b1; out[4]=(double)R.b2; pv(out+5,R.nearest_points[0]); pv(out+8,R.nearest_points[1]); }
static inline void dref(const double*in,double*out,bool pts){ bool w=in[20]<in[0]; const double*s=in+(w?20:0); out[0]=s[0]; out[1]=w?evp_id(PTR(CG,21)):evp_id(PTR(CG,1)); out[2]=w?evp_id(PTR(CG,22)):evp_id(PTR(CG,2)); out[3]=(double)(w?LNG(23):LNG(3)); out[4]=(double)(w?LNG(24):LNG(4)); for(int k=5;k<11;++k) out[k]=w&&pts?in[20+k]:in[k]; }
//@ dis_upd what="distance result, update without points" nonnull="1,2,21,22"
PROBE impl_dis_upd(const double*in,double*out){ DRes R; din(R,in); R.update(in[20],PTR(CG,21),PTR(CG,22),LNG(23),LNG(24)); dout(out,R); }
PROBE spec_dis_upd(const double*in,double*out){ dref(in,out,false); }
//@ dis_updp what="distance result, update with points" nonnull="1,2,21,22"
PROBE impl_dis_updp(const double*in,double*out){ DRes R; din(R,in); R.update(in[20],PTR(CG,21),PTR(CG,22),LNG(23),LNG(24),V3(in[25],in[26],in[27]),V3(in[28],in[29],in[30])); dout(out,R); }
PROBE spec_dis_updp(const double*in,double*out){ dref(in,out,true); }
//@ dis_updr what="distance result, update with another result" nonnull="1,2,21,22"
PROBE impl_dis_updr(const double*in,double*out){ DRes R,Q; din(R,in); din(Q,in+20); R.update(Q); dout(out,R); }
PROBE spec_dis_updr(const double*in,double*out){ dref(in,out,true); }
//@ dis_clear what="cleared and new distance result" nonnull="1,2" events=none
PROBE impl_dis_clear(const double*in,double*out){ DRes R; din(R,in); R.clear(); DRes N; out[0]=R.min_distance; out[1]=R.o1==0&&R.o2==0; out[2]=(double)R.b1; out[3]=(double)R.b2; out[4]=N.min_distance; out[5]=N.o1==0&&N.o2==0; out[6]=(double)N.b1; out[7]=(double)N.b2; DRes K(in[0]); out[8]=K.min_distance; }
PROBE spec_dis_clear(const double*in,double*out){ for(int h=0;h<8;h+=4){ out[h]=std::numeric_limits<double>::max(); out[h+1]=1; out[h+2]=out[h+3]=-1; } out[8]=in[0]; }
//@ cc_new what="new continuous result" events=none
PROBE impl_cc_new(const double*in,double*out){ ContinuousCollisionResult<double> r; out[0]=r.is_collide; out[1]=r.time_of_contact; }
PROBE spec_cc_new(const double*in,double*out){ out[0]=0; out[1]=1; }
// ---- orders of the broadphase and of the traversal queue
#define LOW(AX,K) PROBE impl_low_##AX(const double*in,double*out){ SortBy##AX##Low<double> s; out[0]=s(PTR(CO,0),PTR(CO,1)); } PROBE spec_low_##AX(const double*in,double*out){ out[0]=PTR(CO,0)->aabb.min_[K]<PTR(CO,1)->aabb.min_[K]; }
//@ low_X what="order of lower x bounds" nonnull="0,1" events=none
//@ low_Y what="order of lower y bounds" nonnull="0,1" events=none
//@ low_Z what="order of lower z bounds" nonnull="0,1" events=none
LOW(X,0)
LOW(Y,1)
LOW(Z,2)
typedef SaPCollisionManager<double> SaP; typedef IntervalTreeCollisionManager<double> IT;
//@ sap_end what="value and sides of an interval end point" nonnull="0" events=none
PROBE impl_sap_end(const double*in,double*out){ SaP::EndPoint e; e.aabb=PTR(SaP::SaPAABB,0); e.minmax=0; for(int k=0;k<3;++k){ out[k]=e.getVal(k); } pv(out+3,e.getVal()); e.minmax=1; for(int k=0;k<3;++k){ out[6+k]=e.getVal(k); } pv(out+9,e.getVal()); const SaP::EndPoint&ce=e; out[12]=ce.getVal(1); }
PROBE spec_sap_end(const double*in,double*out){ const AABB<double>&b=PTR(SaP::SaPAABB,0)->cached; pv(out,b.min_); pv(out+3,b.min_); pv(out+6,b.max_); pv(out+9,b.max_); out[12]=b.max_[1]; }
//@ sap_pair what="pairs of the sweep" nonnull="0,1,2,3" events=none
PROBE impl_sap_pair(const double*in,double*out){ SaP::SaPPair p(nullptr,nullptr),q(nullptr,nullptr); p.obj1=PTR(CO,0); p.obj2=PTR(CO,1); q.obj1=PTR(CO,2); q.obj2=PTR(CO,3); out[0]=p==q; SaP::isUnregistered u(PTR(CO,2)); out[1]=u(p); SaP::isNotValidPair v(PTR(CO,2),PTR(CO,3)); out[2]=v(p); }
PROBE spec_sap_pair(const double*in,double*out){ void*a=PTR(CO,0),*b=PTR(CO,1),*c=PTR(CO,2),*d=PTR(CO,3); out[0]=a==c&&b==d; out[1]=a==c||b==c; out[2]=a==c&&b==d; }
PROBE alt_sap_pair(const double*in,double*out){ void*a=PTR(CO,0),*b=PTR(CO,1),*c=PTR(CO,2),*d=PTR(CO,3); out[0]=(a==c&&b==d)||(a==d&&b==c); out[1]=a==c||b==c; out[2]=(a==c&&b==d)||(a==d&&b==c); }
//@ it_lt what="order of interval end points" events=none
PROBE impl_it_lt(const double*in,double*out){ IT::EndPoint a,b; a.value=in[0]; b.value=in[1]; out[0]=a<b; }
PROBE spec_it_lt(const double*in,double*out){ out[0]=in[0]<in[1]; }
//@ bvt_lt what="the queue of the traversal yields the smallest bound first" events=none
PROBE impl_bvt_lt(const double*in,double*out){ BVT<double> a,b; a.d=in[0]; b.d=in[1]; BVT_Comparer<double> c; out[0]=c(a,b); }
PROBE spec_bvt_lt(const double*in,double*out){ out[0]=in[0]>in[1]; }
