// Common helpers of the analysed (never executed) probe functions.
#pragma once
#include <cmath>
#include <vector>
#include <Eigen/Dense>
#define PROBE extern "C" __attribute__((used)) void
typedef Eigen::Matrix<double,3,1> V3; typedef Eigen::Matrix<double,3,3> M3;
typedef Eigen::Transform<double,3,Eigen::Isometry> T3;
static inline V3 gv(const double*p){ return V3(p[0],p[1],p[2]); }
static inline M3 gm(const double*p){ M3 m; for(int i=0;i<3;++i)for(int j=0;j<3;++j)m(i,j)=p[3*i+j]; return m; }
// pose: 9 rotation entries (row major) then 3 translation entries
static inline T3 gt(const double*p){ T3 t; t.setIdentity(); t.linear()=gm(p); t.translation()=gv(p+9); return t; }
template<class V> static inline void pv(double*o,const V&v){ o[0]=v[0];o[1]=v[1];o[2]=v[2]; }
template<class M> static inline void pm(double*o,const M&m){ for(int i=0;i<3;++i)for(int j=0;j<3;++j)o[3*i+j]=m(i,j); }
static inline double mn(double a,double b){return a<b?a:b;} static inline double mx(double a,double b){return a>b?a:b;}
static inline double ab(double a){return __builtin_fabs(a);} static inline double sq(double a){return a*a;}
static inline double rt(double a){return __builtin_sqrt(a);}
static inline double dot3(const double*a,const double*b){return a[0]*b[0]+a[1]*b[1]+a[2]*b[2];}
// R*v + t with R row-major
static inline void app(const double*T,const double*v,double*o){ for(int i=0;i<3;++i) o[i]=T[3*i]*v[0]+T[3*i+1]*v[1]+T[3*i+2]*v[2]+T[9+i]; }
static inline void rot(const double*R,const double*v,double*o){ for(int i=0;i<3;++i) o[i]=R[3*i]*v[0]+R[3*i+1]*v[1]+R[3*i+2]*v[2]; }
static inline void rotT(const double*R,const double*v,double*o){ for(int i=0;i<3;++i) o[i]=R[i]*v[0]+R[3+i]*v[1]+R[6+i]*v[2]; }
