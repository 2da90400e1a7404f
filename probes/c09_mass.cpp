#include "probe.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/geometry/shape/ellipsoid.h"
#include "fcl/geometry/shape/capsule.h"
#include "fcl/geometry/shape/cone.h"
#include "fcl/geometry/shape/cylinder.h"
#include "fcl/geometry/shape/convex.h"
#include "fcl/geometry/bvh/BVH_model.h"
#include "fcl/math/bv/AABB.h"
using namespace fcl;
static const double PI_=3.14159265358979323846;
template<class G> static inline void all(const G&g,double*out){ out[0]=g.G::computeVolume(); pv(out+1,V3(g.G::computeCOM())); pm(out+4,M3(g.G::computeMomentofInertia())); }
static inline void diag(double*o,double a,double b,double c){ for(int i=0;i<9;++i)o[i]=0; o[0]=a;o[4]=b;o[8]=c; }
// volume, centre of mass and second moments are stated as integrals over the solid
// (closed forms), with unit density, in the shape's own frame.
//@ box what="Box volume, COM, inertia"
PROBE impl_box(const double*in,double*out){ all(Box<double>(in[0],in[1],in[2]),out); }
PROBE spec_box(const double*in,double*out){ double x=in[0],y=in[1],z=in[2],m=x*y*z; out[0]=m; out[1]=out[2]=out[3]=0; diag(out+4,m*(y*y+z*z)/12,m*(x*x+z*z)/12,m*(x*x+y*y)/12); }
//@ sphere what="Sphere volume, COM, inertia"
PROBE impl_sphere(const double*in,double*out){ all(Sphere<double>(in[0]),out); }
PROBE spec_sphere(const double*in,double*out){ double r=in[0],m=4*PI_*r*r*r/3,i=2*m*r*r/5; out[0]=m; out[1]=out[2]=out[3]=0; diag(out+4,i,i,i); }
//@ ellipsoid what="Ellipsoid volume, COM, inertia"
PROBE impl_ellipsoid(const double*in,double*out){ all(Ellipsoid<double>(in[0],in[1],in[2]),out); }
PROBE spec_ellipsoid(const double*in,double*out){ double x=in[0],y=in[1],z=in[2],m=4*PI_*x*y*z/3; out[0]=m; out[1]=out[2]=out[3]=0; diag(out+4,m*(y*y+z*z)/5,m*(x*x+z*z)/5,m*(x*x+y*y)/5); }
//@ cylinder what="Cylinder volume, COM, inertia"
PROBE impl_cylinder(const double*in,double*out){ all(Cylinder<double>(in[0],in[1]),out); }
PROBE spec_cylinder(const double*in,double*out){ double r=in[0],h=in[1],m=PI_*r*r*h; out[0]=m; out[1]=out[2]=out[3]=0; diag(out+4,m*(r*r/4+h*h/12),m*(r*r/4+h*h/12),m*r*r/2); }
//@ cone what="Cone volume, COM, inertia (base at -h/2, apex at +h/2)"
// second moments: x^2 integral = V*3r^2/20 ; z^2 about apex = V*3h^2/5, centroid 3h/4 below apex
PROBE impl_cone(const double*in,double*out){ all(Cone<double>(in[0],in[1]),out); }
PROBE spec_cone(const double*in,double*out){ double r=in[0],h=in[1],m=PI_*r*r*h/3,x2=3*r*r/20,z2=3*h*h/5-2*(h/2)*(3*h/4)+h*h/4; out[0]=m; out[1]=out[2]=0; out[3]=h/2-3*h/4; diag(out+4,m*(x2+z2),m*(x2+z2),2*m*x2); }
//@ capsule what="Capsule volume, COM, inertia"
PROBE impl_capsule(const double*in,double*out){ all(Capsule<double>(in[0],in[1]),out); }
PROBE spec_capsule(const double*in,double*out){ double r=in[0],h=in[1],mc=PI_*r*r*h,mh=2*PI_*r*r*r/3; // cylinder, one hemisphere
  out[0]=mc+2*mh; out[1]=out[2]=out[3]=0;
  double x2=mc*r*r/4+2*mh*r*r/5; double c=3*r/8; double z2h=r*r/5-c*c; double d=h/2+c; double z2=mc*h*h/12+2*mh*(z2h+d*d);
  diag(out+4,x2+z2,x2+z2,2*x2); }
// inertia about the centre of mass, for the shapes whose COM is not the origin
//@ relcom what="inertia relative to the centre of mass (parallel axis theorem)"
PROBE impl_relcom(const double*in,double*out){ Cone<double> c(in[0],in[1]); pm(out,c.CollisionGeometry<double>::computeMomentofInertiaRelatedToCOM()); }
PROBE spec_relcom(const double*in,double*out){ double r=in[0],h=in[1],m=PI_*r*r*h/3; diag(out,m*(3*r*r/20+3*h*h/80),m*(3*r*r/20+3*h*h/80),m*3*r*r/10); }
// general parallel axis formula with arbitrary (symbolic) mass properties
struct AnyGeom : Box<double> { const double* p; S computeVolume() const override {return p[0];} Vector3<S> computeCOM() const override {return gv(p+1);} Matrix3<S> computeMomentofInertia() const override {return gm(p+4);} AnyGeom(const double*q):Box<double>(),p(q){} };
//@ relany what="CollisionGeometry::computeMomentofInertiaRelatedToCOM for arbitrary mass properties"
PROBE impl_relany(const double*in,double*out){ AnyGeom g(in); pm(out,g.CollisionGeometry<double>::computeMomentofInertiaRelatedToCOM()); }
PROBE spec_relany(const double*in,double*out){ double V=in[0]; const double*c=in+1; double cc=dot3(c,c); for(int i=0;i<3;++i)for(int j=0;j<3;++j) out[3*i+j]=in[4+3*i+j]-V*((i==j?cc:0)-c[i]*c[j]); }
// ---- closed meshes: mass properties of the signed tetrahedra (origin, a, b, c)
// integrals over tetrahedron 0abc: V=det/6; int x = V (a+b+c)/4; int x x^T = det/120 * (s s^T + aa^T+bb^T+cc^T), s=a+b+c
static inline double det3(const double*a,const double*b,const double*c){ return a[0]*(b[1]*c[2]-b[2]*c[1])-a[1]*(b[0]*c[2]-b[2]*c[0])+a[2]*(b[0]*c[1]-b[1]*c[0]); }
static inline void tet(const double*a,const double*b,const double*c,double*acc){ double d=det3(a,b,c); acc[0]+=d/6; double s[3]; for(int i=0;i<3;++i){ s[i]=a[i]+b[i]+c[i]; acc[1+i]+=d*s[i]/24; }
  for(int i=0;i<3;++i)for(int j=0;j<3;++j) acc[4+3*i+j]+=d/120*(s[i]*s[j]+a[i]*a[j]+b[i]*b[j]+c[i]*c[j]); }
static inline void fin(const double*acc,double*out,int what){ if(what==0) out[0]=acc[0]; if(what==1) for(int i=0;i<3;++i) out[i]=acc[1+i]/acc[0]; if(what==2){ double t=acc[4]+acc[8]+acc[12]; for(int i=0;i<3;++i)for(int j=0;j<3;++j) out[3*i+j]=(i==j?t:0)-acc[4+3*i+j]; } }
typedef BVHModel<AABB<double>> Mesh;
// a mesh of two triangles with arbitrary vertices (any mesh is a sum of such terms)
static inline void mkmesh(Mesh&m,const double*in,Triangle*t){ m.vertices=(V3*)in; m.num_vertices=4; m.tri_indices=t; t[0].set(0,1,2); t[1].set(3,1,0); m.num_tris=2; }
#define MESHP(NAME,K,EXPR) PROBE impl_##NAME(const double*in,double*out){ alignas(Mesh) char buf[sizeof(Mesh)]; Mesh&m=*(Mesh*)buf; Triangle t[2]; mkmesh(m,in,t); EXPR; } \
PROBE spec_##NAME(const double*in,double*out){ double acc[13]={0,0,0,0,0,0,0,0,0,0,0,0,0}; tet(in,in+3,in+6,acc); tet(in+9,in+3,in,acc); fin(acc,out,K); }
//@ meshV what="BVHModel::computeVolume (sum of signed tetrahedra)"
MESHP(meshV,0,out[0]=m.Mesh::computeVolume())
//@ meshC what="BVHModel::computeCOM"
MESHP(meshC,1,pv(out,m.Mesh::computeCOM()))
//@ meshI what="BVHModel::computeMomentofInertia"
MESHP(meshI,2,pm(out,m.Mesh::computeMomentofInertia()))
// Convex polyhedron: a triangular face and a quadrilateral face over five vertices
struct VecRep { const void*b,*e,*c; };
static inline void cvset(char*buf,const VecRep*v,const VecRep*f){ Convex<double>&m=*(Convex<double>*)buf; new((void*)&m.vertices_) std::shared_ptr<const std::vector<V3>>(std::shared_ptr<void>(),(const std::vector<V3>*)v); new((void*)&m.faces_) std::shared_ptr<const std::vector<int>>(std::shared_ptr<void>(),(const std::vector<int>*)f); const_cast<int&>(m.num_faces_)=2; }
#define CONV(NAME,K,EXPR) PROBE impl_##NAME(const double*in,double*out){ int f[9]; f[0]=3;f[1]=0;f[2]=1;f[3]=2;f[4]=4;f[5]=3;f[6]=1;f[7]=0;f[8]=4; \
  VecRep vr={in,in+15,in+15}, fr={f,f+9,f+9}; alignas(Convex<double>) char buf[sizeof(Convex<double>)]; Convex<double>&m=*(Convex<double>*)buf; cvset(buf,&vr,&fr); EXPR; } \
PROBE spec_##NAME(const double*in,double*out){ double acc[13]={0,0,0,0,0,0,0,0,0,0,0,0,0}; double c[3],q[3]; for(int i=0;i<3;++i){ c[i]=(in[i]+in[3+i]+in[6+i])/3; q[i]=(in[9+i]+in[3+i]+in[i]+in[12+i])/4; } \
  tet(in,in+3,c,acc); tet(in+3,in+6,c,acc); tet(in+6,in,c,acc); tet(in+9,in+3,q,acc); tet(in+3,in,q,acc); tet(in,in+12,q,acc); tet(in+12,in+9,q,acc); fin(acc,out,K); if(K==2) for(int i=0;i<9;++i) out[i]/=acc[0]; }
//@ convexV what="Convex::computeVolume (triangle and quadrilateral faces)"
CONV(convexV,0,out[0]=m.Convex<double>::computeVolume())
//@ convexC what="Convex::computeCOM"
CONV(convexC,1,pv(out,m.Convex<double>::computeCOM()))
// the repository's own tests fix the mass of a Convex at one for its inertia tensor
//@ convexI what="Convex::computeMomentofInertia (for unit mass)"
CONV(convexI,2,pm(out,m.Convex<double>::computeMomentofInertia()))
