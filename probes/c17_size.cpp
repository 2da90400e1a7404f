// C17: size and emptiness of the managers.  Never executed; analysed as IR.
#include "probe.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
using namespace fcl; using namespace fcl::detail;
typedef SSaPCollisionManager<double> SS; typedef SaPCollisionManager<double> SP; typedef NaiveCollisionManager<double> NV; typedef IntervalTreeCollisionManager<double> IT; typedef SpatialHashingCollisionManager<double> SH; typedef DynamicAABBTreeCollisionManager<double> DT; typedef DynamicAABBTreeCollisionManager_Array<double> DA;
#define LNG(k) (*(long*)(in+(k)))
#define HOLD(T) alignas(16) char b[sizeof(T)]; T&m=*(T*)b
// a vector of n elements, a list of n elements
template<class V> static inline void vec(V&v,long n){ long*p=(long*)&v; p[0]=0; p[1]=n*(long)sizeof(typename V::value_type); p[2]=p[1]; }
template<class L> static inline void lst(L&l,long n){ long*p=(long*)&l; p[2]=n; p[0]=p[1]=(long)(n==0?(void*)&l:(void*)1); }
#define VEC(NAME,T,F,DIV) PROBE impl_size_##NAME(const double*in,double*out){ HOLD(T); long n=LNG(0); F; out[0]=(double)(long)m.T::size(); } PROBE spec_size_##NAME(const double*in,double*out){ out[0]=(double)(long)LNG(0); }
//@ size_ssap what="SSaP manager: size" events=none
VEC(ssap,SS,(vec(m.objs_x,n),vec(m.objs_y,n),vec(m.objs_z,n)),1)
//@ size_it what="interval tree manager: size" events=none
PROBE impl_size_it(const double*in,double*out){ for(long n=0;n<6;++n){ HOLD(IT); vec(m.endpoints[0],2*n); vec(m.endpoints[1],2*n); vec(m.endpoints[2],2*n); out[n]=(double)(long)m.IT::size(); } } PROBE spec_size_it(const double*in,double*out){ for(long n=0;n<6;++n) out[n]=(double)n; }
//@ size_sap what="SaP manager: size" events=none
VEC(sap,SP,lst(m.AABB_arr,n),1)
//@ size_nv what="brute force manager: size" events=none
VEC(nv,NV,lst(m.objs,n),1)
//@ size_sh what="spatial hash manager: size" events=none
VEC(sh,SH,lst(m.objs,n),1)
#define EMP(NAME,T,F) PROBE impl_emp0_##NAME(const double*in,double*out){ { HOLD(T); const long n=0; F; out[0]=m.T::empty(); } { HOLD(T); const long n=3; F; out[1]=m.T::empty(); } { HOLD(T); const long n=1; F; out[2]=m.T::empty(); } } PROBE spec_emp0_##NAME(const double*in,double*out){ out[0]=1; out[1]=out[2]=0; }
//@ emp0_ssap what="SSaP manager: emptiness" events=none
EMP(ssap,SS,(vec(m.objs_x,n),vec(m.objs_y,n),vec(m.objs_z,n)))
//@ emp0_it what="interval tree manager: emptiness" events=none
EMP(it,IT,(vec(m.endpoints[0],2*n),vec(m.endpoints[1],2*n),vec(m.endpoints[2],2*n)))
//@ emp0_sap what="SaP manager: emptiness" events=none
EMP(sap,SP,lst(m.AABB_arr,n))
//@ emp0_nv what="brute force manager: emptiness" events=none
EMP(nv,NV,lst(m.objs,n))
//@ emp0_sh what="spatial hash manager: emptiness" events=none
EMP(sh,SH,lst(m.objs,n))
//@ size_dt what="tree manager: size and emptiness" events=none
PROBE impl_size_dt(const double*in,double*out){ HOLD(DT); m.dtree.n_leaves=LNG(0); m.dtree.root_node=(decltype(m.dtree.root_node))*(void**)(in+1); out[0]=(double)(long)m.DT::size(); out[1]=m.DT::empty(); }
PROBE spec_size_dt(const double*in,double*out){ out[0]=(double)(long)LNG(0); out[1]=*(void**)(in+1)==nullptr; }
//@ size_da what="array tree manager: size and emptiness" events=none
PROBE impl_size_da(const double*in,double*out){ for(long n=0;n<4;++n){ HOLD(DA); m.dtree.n_leaves=n; m.dtree.n_nodes=n?2*n-1:0; m.dtree.root_node=n?0:(size_t)-1; out[2*n]=(double)(long)m.DA::size(); out[2*n+1]=m.DA::empty(); } }
PROBE spec_size_da(const double*in,double*out){ for(long n=0;n<4;++n){ out[2*n]=(double)n; out[2*n+1]=n==0; } }
