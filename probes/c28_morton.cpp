// C28: Morton codes.  Never executed; analysed as IR.
#include "probe.h"
#include "fcl/broadphase/detail/morton.h"
using namespace fcl; using namespace fcl::detail;
typedef AABB<double> BB;
#if CHK==1
// ---- bit provenance: the argument bits every result bit is made of
extern "C" fcl::uint64 bits_code30(fcl::uint32 x,fcl::uint32 y,fcl::uint32 z){ return morton_code(x,y,z); }
extern "C" fcl::uint64 bits_code60(fcl::uint32 x,fcl::uint32 y,fcl::uint32 z){ return morton_code60(x,y,z); }
#endif
#if CHK==2
//! p+drop ^fcl::detail::morton_code\( name=code30 if=CHK:2
//! p+drop ^fcl::detail::morton_code60\( name=code60 if=CHK:2
static inline Vector3<double> pt(const double*in){ return Vector3<double>(in[0],in[1],in[2]); }
static inline BB box(const double*in){ BB b; b.min_<<in[3],in[4],in[5]; b.max_<<in[6],in[7],in[8]; return b; }
static inline double rel(const double*in,int k){ return (in[k]-in[3+k])/(in[6+k]-in[3+k]); }
static inline unsigned q(double x,unsigned n){ unsigned u=(unsigned)(x*n); return u<n-1?u:n-1; }
//@ f30 what="30-bit functor" events=none
PROBE impl_f30(const double*in,double*out){ morton_functor<double,fcl::uint32> f(box(in)); out[0]=f(pt(in)); out[1]=f.bits(); }
PROBE spec_f30(const double*in,double*out){ out[0]=morton_code(q(rel(in,0),1024),q(rel(in,1),1024),q(rel(in,2),1024)); out[1]=30; }
//@ f60 what="60-bit functor" events=none
PROBE impl_f60(const double*in,double*out){ morton_functor<double,fcl::uint64> f(box(in)); out[0]=f(pt(in)); out[1]=f.bits(); }
PROBE spec_f60(const double*in,double*out){ out[0]=morton_code60(q(rel(in,0),1<<20),q(rel(in,1),1<<20),q(rel(in,2),1<<20)); out[1]=60; }
#define FB(N) PROBE impl_fb##N(const double*in,double*out){ morton_functor<double,std::bitset<N>> f(box(in)); std::bitset<N> b=f(pt(in)); for(int i=0;i<N;++i) out[i]=b.test(i); out[N]=f.bits(); } \
 PROBE spec_fb##N(const double*in,double*out){ for(int d=0;d<3;++d) { double x=rel(in,d); for(int k=N/3-1;k>=0;--k) { bool b=x>=0.5; out[3*k+d]=b; x=b?2*x-1:2*x; } } out[N]=N; }
//@ fb3 what="3-bit set functor" events=none
FB(3)
//@ fb6 what="6-bit set functor" events=none
FB(6)
//@ fb9 what="9-bit set functor" events=none
FB(9)
#endif
