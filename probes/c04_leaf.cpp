// C02, C03, C04 (-DCHK=2, 3, 4): leaf tests record the right objects, primitives, points and normals.
#include "leafnodes.h"
#define OUT MONITOR
template<class A,class B> static inline bool occ(const A*a,const B*b){ return a->cost_density>=a->threshold_occupied && b->cost_density>=b->threshold_occupied; }
template<class A,class B> static inline bool unc(const A*a,const B*b){ return !(a->cost_density<=a->threshold_free) && !(b->cost_density<=b->threshold_free); }
static inline void tp(const T3*t,cv p,double*o){ if(t){ double T[12]; putT(T,*t); app(T,p.data(),o);} else pv(o,p); }
static inline AABB<double> box3(const T3*t,cv a,cv b,cv c){ double x[3],y[3],z[3]; tp(t,a,x);tp(t,b,y);tp(t,c,z); return AABB<double>(gv(x),gv(y),gv(z)); }
static inline void addcost(const AABB<double>&a,const AABB<double>&b,double rho,long m){ AABB<double> c; a.overlap(b,c); double v[7]; pv(v,c.min_); pv(v+3,c.max_); v[6]=rho; CO(v,m); }
// two triangle meshes; rt places the second in the frame the triangles are compared in, tf1/tf2 place each mesh in the world (null: already there)
template<class BV> static inline void ref_mm(const double*in,double*out,const double*rt,const T3*tf1,const T3*tf2){
  const BVHModel<BV>*m1=PTR(BVHModel<BV>,0),*m2=PTR(BVHModel<BV>,1); V3*v1=PTR(V3,2),*v2=PTR(V3,3); Triangle*t1=PTR(Triangle,4),*t2=PTR(Triangle,5); TRIVIAL; long cnt=CNT0,maxc=MAXC; bool ec=BOOL(10),ek=BOOL(11);
  int i1=-(m1->bvs[INT(6)].first_child+1), i2=-(m2->bvs[INT(7)].first_child+1); 
  bool o=occ(m1,m2); if(!o && !(unc(m1,m2)&&ek)) return;
  cv p1=v1[t1[i1].vids[0]],p2=v1[t1[i1].vids[1]],p3=v1[t1[i1].vids[2]],q1=v2[t2[i2].vids[0]],q2=v2[t2[i2].vids[1]],q3=v2[t2[i2].vids[2]];
  double a[30]; pv(a,p1);pv(a+3,p2);pv(a+6,p3);pv(a+9,q1);pv(a+12,q2);pv(a+15,q3); for(int k=0;k<12;++k)a[18+k]=rt[k];
  double h=evp_tri(a); if(!(evp_out(h,0)>0)) return;
  if(o && cnt<maxc) { if(!ec){ double v[7]; CT(m1,m2,i1,i2,v); ++cnt; } else { int n=evp_out(h,1)>0?(evp_out(h,2)>0?2:1):0; 
     for(int k=0;k<2;++k) if(k<n&&cnt<maxc){ double v[7]; V3 c(evp_out(h,3+3*k),evp_out(h,4+3*k),evp_out(h,5+3*k)),nm(evp_out(h,10),evp_out(h,11),evp_out(h,12)); tp(tf1,c,v); if(tf1){double T[12];putT(T,*tf1);rot(T,nm.data(),v+3);} else pv(v+3,nm); v[6]=evp_out(h,9); CT(m1,m2,i1,i2,v); ++cnt; } } }
  if(ek){ addcost(box3(tf1,p1,p2,p3),box3(tf2,q1,q2,q3),in[13],LNG(12)); } }
static const double ID[12]={1,0,0,0,1,0,0,0,1,0,0,0};
//@ mesh_aabb what="MeshCollisionTraversalNode<AABB>::leafTesting"
PROBE impl_mesh_aabb(const double*in,double*out){ struct N:MeshCollisionTraversalNode<AABB<double>>{}n; SETMM(AABB<double>); n.MeshCollisionTraversalNode<AABB<double>>::leafTesting(INT(6),INT(7)); OUT; }
PROBE spec_mesh_aabb(const double*in,double*out){ ref_mm<AABB<double>>(in,out,ID,0,0); }
#define ORI(NM,BV,NODE) \
PROBE impl_mesh_##NM(const double*in,double*out){ NODE<double> n; SETMM(BV<double>); n.R=gm(in+38); n.T=gv(in+47); n.NODE<double>::leafTesting(INT(6),INT(7)); OUT; } \
PROBE spec_mesh_##NM(const double*in,double*out){ T3 a=gt(in+14),b=gt(in+26); ref_mm<BV<double>>(in,out,in+38,&a,&b); }
//@ mesh_obb what="MeshCollisionTraversalNodeOBB::leafTesting"
ORI(obb,OBB,MeshCollisionTraversalNodeOBB)
ORI(rss,RSS,MeshCollisionTraversalNodeRSS)
ORI(kios,kIOS,MeshCollisionTraversalNodekIOS)
ORI(obbrss,OBBRSS,MeshCollisionTraversalNodeOBBRSS)
// explicit relative pose
//@ mesh_obb_rt what="MeshCollisionTraversalNodeOBB::leafTesting(b1,b2,R,T)"
PROBE impl_mesh_obb_rt(const double*in,double*out){ MeshCollisionTraversalNodeOBB<double> n; SETMM(OBB<double>); n.R=gm(in+38); n.T=gv(in+47); M3 r=gm(in+60); V3 t=gv(in+69); n.leafTesting(INT(6),INT(7),r,t); OUT; }
PROBE spec_mesh_obb_rt(const double*in,double*out){ T3 a=gt(in+14),b=gt(in+26); ref_mm<OBB<double>>(in,out,in+38,&a,&b); }
//@ mesh_obb_tf what="MeshCollisionTraversalNodeOBB::leafTesting(b1,b2,tf)"
PROBE impl_mesh_obb_tf(const double*in,double*out){ MeshCollisionTraversalNodeOBB<double> n; SETMM(OBB<double>); n.R=gm(in+38); n.T=gv(in+47); T3 t=gt(in+60); n.leafTesting(INT(6),INT(7),t); OUT; }
PROBE spec_mesh_obb_tf(const double*in,double*out){ T3 a=gt(in+14),b=gt(in+26); ref_mm<OBB<double>>(in,out,in+60,&a,&b); }
// one triangle mesh and one shape; `swap`: the shape is the first geometry
template<class BV> static inline void ref_ms(const double*in,double*out,const T3*tm,const T3&ts,bool swap,bool twice=false){
  const BVHModel<BV>*m=PTR(BVHModel<BV>,swap?1:0); const MS*s=PTR(MS,swap?0:1); V3*v=PTR(V3,2); Triangle*t=PTR(Triangle,4); TRIVIAL; long cnt=CNT0,maxc=MAXC; bool ec=BOOL(10),ek=BOOL(11);
  int i=-(m->bvs[INT(swap?7:6)].first_child+1); bool o=occ(m,s); if(!o && !(unc(m,s)&&ek)) return;
  cv p1=v[t[i].vids[0]],p2=v[t[i].vids[1]],p3=v[t[i].vids[2]]; double a[33]; pv(a,p1);pv(a+3,p2);pv(a+6,p3); putT(a+9,ts); if(tm) putT(a+21,*tm); else putId(a+21);
  double h=evp_sti(s,a); if(!(evp_out(h,0)>0)) return;
  if(o && cnt<maxc) { if(ec){ double w[7]; double g=swap?1:-1; for(int k=0;k<3;++k){ w[k]=evp_out(h,1+k); w[3+k]=g*evp_out(h,4+k); } w[6]=evp_out(h,7); if(swap) CT(s,m,-1,i,w); else CT(m,s,i,-1,w); }
    else { double w[7]; if(swap) CT(s,m,-1,i,w); else CT(m,s,i,-1,w); } ++cnt; }
  if(ek){ AABB<double> b; mbv(s,ts,b); AABB<double> t=box3(tm,p1,p2,p3); addcost(t,b,in[13],LNG(12)); if(twice && o && unc(m,s)) addcost(t,b,in[13],LNG(12)); } }
//@ mesh_shape what="MeshShapeCollisionTraversalNode<AABB>::leafTesting"
PROBE impl_mesh_shape(const double*in,double*out){ MeshShapeCollisionTraversalNode<AABB<double>,MS,MSolver> n; SETMS(AABB<double>); n.leafTesting(INT(6),INT(7)); OUT; }
PROBE spec_mesh_shape(const double*in,double*out){ ref_ms<AABB<double>>(in,out,0,gt(in+26),false); }
// the same cost source added twice to the set is the same as once
PROBE alt_mesh_shape(const double*in,double*out){ ref_ms<AABB<double>>(in,out,0,gt(in+26),false,true); }
//@ shape_mesh what="ShapeMeshCollisionTraversalNode<AABB>::leafTesting"
PROBE impl_shape_mesh(const double*in,double*out){ ShapeMeshCollisionTraversalNode<MS,AABB<double>,MSolver> n; SETSM(AABB<double>); n.leafTesting(INT(6),INT(7)); OUT; }
PROBE spec_shape_mesh(const double*in,double*out){ ref_ms<AABB<double>>(in,out,0,gt(in+14),true); }
#define MSO(NM,BV,NODE) \
PROBE impl_ms_##NM(const double*in,double*out){ NODE<MS,MSolver> n; SETMS(BV<double>); n.leafTesting(INT(6),INT(7)); OUT; } \
PROBE spec_ms_##NM(const double*in,double*out){ T3 a=gt(in+14); ref_ms<BV<double>>(in,out,&a,gt(in+26),false); }
//@ ms_obb what="MeshShapeCollisionTraversalNodeOBB::leafTesting"
MSO(obb,OBB,MeshShapeCollisionTraversalNodeOBB)
MSO(rss,RSS,MeshShapeCollisionTraversalNodeRSS)
MSO(kios,kIOS,MeshShapeCollisionTraversalNodekIOS)
MSO(obbrss,OBBRSS,MeshShapeCollisionTraversalNodeOBBRSS)
// two shapes (the solver reports NCP contact points)
//! n+drop ^void\sstd::partial_sort< if=CHK:2
//! w+drop ^void\sstd::partial_sort< name=sort_by_depth
//@ shape_shape what="ShapeCollisionTraversalNode::leafTesting"
PROBE impl_shape_shape(const double*in,double*out){ ShapeCollisionTraversalNode<MS,MS2,MSolver> n; SETSS; n.leafTesting(INT(6),INT(7)); OUT; }
PROBE spec_shape_shape(const double*in,double*out){ const MS*s1=PTR(MS,0); const MS2*s2=PTR(MS2,1); TRIVIAL; long cnt=CNT0,maxc=MAXC; bool ec=BOOL(10),ek=BOOL(11); T3 t1=gt(in+14),t2=gt(in+26);
  bool o=occ(s1,s2); if(!o && !(unc(s1,s2)&&ek)) return; double a[24]; putT(a,t1); putT(a+12,t2); double h=evp_si(s1,s2,a); if(!(evp_out(h,0)>0)) return;
  if(o && cnt<maxc) { if(!ec) { double v[7]; CT(s1,s2,-1,-1,v); ++cnt; } else { std::vector<ContactPoint<double>> c(NCP); for(int k=0;k<NCP;++k){ c[k].pos=V3(evp_out(h,10*k+1),evp_out(h,10*k+2),evp_out(h,10*k+3)); c[k].normal=V3(evp_out(h,10*k+4),evp_out(h,10*k+5),evp_out(h,10*k+6)); c[k].penetration_depth=evp_out(h,10*k+7); }
     if(maxc-cnt<NCP) std::partial_sort(c.begin(),c.begin()+(maxc-cnt),c.end(),std::bind(comparePenDepth<double>, std::placeholders::_2, std::placeholders::_1));
     for(int k=0;k<NCP;++k) if(cnt<maxc){ double v[7]; pv(v,c[k].pos); pv(v+3,c[k].normal); v[6]=c[k].penetration_depth; CT(s1,s2,-1,-1,v); ++cnt; } } }
  if(ek){ AABB<double> x,y; mbv(s1,t1,x); mbv(s2,t2,y); addcost(x,y,in[13],LNG(12)); } }
