// C19: grid coordinates are those of the staggered cell
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp spatialops/structured/Grid.cpp
#include "nopool.h"
#include "fields.h"
#include <spatialops/structured/Grid.h>
static const char* const NV[6]={"f_vmx","f_vpx","f_vmy","f_vpy","f_vmz","f_vpz"};
struct G3{
  int n[3]; double len[3]; std::vector<double> v; Grid g;
  static std::vector<double> lens( double* l ){ l[0]=vc_real("lx"); l[1]=vc_real("ly"); l[2]=vc_real("lz"); return std::vector<double>(l,l+3); }
  static IntVec np( int* n ){ const int N=1<<20; n[0]=vc_int("npx",1,N); n[1]=vc_int("npy",1,N); n[2]=vc_int("npz",1,N); return IntVec(n[0],n[1],n[2]); }
  G3() : v(lens(len)), g(np(n),v) {}
};
VC(spacing){
  G3 s;
  vc_eq( s.g.spacing<SpatialOps::XDIR>()*s.n[0], s.len[0], "spacing times number of cells is the length (x)" );
  vc_eq( s.g.spacing<SpatialOps::YDIR>()*s.n[1], s.len[1], "spacing times number of cells is the length (y)" );
  vc_eq( s.g.spacing<SpatialOps::ZDIR>()*s.n[2], s.len[2], "spacing times number of cells is the length (z)" );
  for(int q=0;q<3;++q){ vc_check( s.g.extent(q)==s.n[q] && s.g.extent()[q]==s.n[q], "the grid has the requested extent" ); vc_check( s.g.length(q)==s.len[q], "the grid has the requested length" ); }
}
template<class F> struct Ctx{ VF<F>* f; Box r; double h, half; int dir; };
template<class F> static double rule( void* c, long gx, long gy, long gz, long i, long j, long k, double old ){
  Ctx<F>* x=(Ctx<F>*)c; VF<F>& f=*x->f; i-=f.gm(0); j-=f.gm(1); k-=f.gm(2);
  if( !( x->r.in(i,j,k) && x->r.done(i,j,k,gx,gy,gz) ) ) return old;
  return x->h*( x->dir==0 ? i : x->dir==1 ? j : k ) + x->half;
}
// staggering: a face (or staggered volume) in direction q sits at the low side of its cell, everything else at the middle
static inline int ext( int shape, int q, const char* n ){ return shape & (1<<q) ? vc_int(n,2,1<<20) : 1; }
// shape: the set of axes that are not collapsed; bc: the axes with a physical boundary on the high side
template<class F,class D> static void fill( int dir, bool face, int shape, int bc ){
  G3 s; const IntVec d( ext(shape,0,"dx"), ext(shape,1,"dy"), ext(shape,2,"dz") );
  VF<F> f("f",d,VC_GHOST("f",d),BoundaryCellInfo::build<F>( bc&1, bc&2, bc&4 ));
  Ctx<F> c; c.f=&f; c.dir=dir; c.h=s.g.template spacing<D>(); c.half= face ? 0 : c.h/2;
  int vm[3], vp[3];
  for(int q=0;q<3;++q){
    vm[q]=f.gm(q); vp[q]=f.gp(q);
    if( d[q]>1 ){ vm[q]=vc_int(NV[2*q],0,vm[q]); vp[q]=vc_int(NV[2*q+1],0,vp[q]); }
    c.r.lo[q]=-vm[q]; c.r.hi[q]=d[q]+f.x(q)+vp[q];
  }
  f.f.reset_valid_ghosts( GhostData(vm[0],vp[0],vm[1],vp[1],vm[2],vp[2]) );
  vc_pre_(); VC_LOOP(c.r); vc_array_rule_(f.p,rule<F>,&c);
  s.g.template set_coord<D>(f.f);
  vc_loop_end_();
  VC_FORALL3(p,f.n(0),f.n(1),f.n(2)){
    const long i=p.i-f.gm(0), j=p.j-f.gm(1), k=p.k-f.gm(2);
    if( c.r.in(i,j,k) ) vc_eq( vc_at_(f.p,p.i,p.j,p.k), c.h*(dir==0 ? i : dir==1 ? j : k)+c.half, "the cell has its coordinate" );
    else vc_check( vc_at_(f.p,p.i,p.j,p.k)==vc_old_at_(f.p,p.i,p.j,p.k), "cells outside the field are unchanged" );
  }
}
#define DIRS(name,F,fx,fy,fz,sh,bc) \
  VC(name##_x){ fill<F,SpatialOps::XDIR>(0,fx,sh,bc); } VC(name##_y){ fill<F,SpatialOps::YDIR>(1,fy,sh,bc); } VC(name##_z){ fill<F,SpatialOps::ZDIR>(2,fz,sh,bc); }
#define FIELD(name,F,fx,fy,fz) DIRS(name##_all,F,fx,fy,fz,7,7)
#define NONE(name,F,fx,fy,fz) DIRS(name##_none,F,fx,fy,fz,7,0)
FIELD(svol,SVolField,0,0,0) FIELD(ssurfx,SSurfXField,1,0,0) FIELD(ssurfy,SSurfYField,0,1,0) FIELD(ssurfz,SSurfZField,0,0,1)
FIELD(xvol,XVolField,1,0,0) FIELD(xsurfx,XSurfXField,0,0,0) FIELD(xsurfy,XSurfYField,1,1,0) FIELD(xsurfz,XSurfZField,1,0,1)
FIELD(yvol,YVolField,0,1,0) FIELD(ysurfx,YSurfXField,1,1,0) FIELD(ysurfy,YSurfYField,0,0,0) FIELD(ysurfz,YSurfZField,0,1,1)
FIELD(zvol,ZVolField,0,0,1) FIELD(zsurfx,ZSurfXField,1,0,1) FIELD(zsurfy,ZSurfYField,0,1,1) FIELD(zsurfz,ZSurfZField,0,0,0)
NONE(ssurfy,SSurfYField,0,1,0) NONE(xvol,XVolField,1,0,0) NONE(zvol,ZVolField,0,0,1) NONE(xsurfz,XSurfZField,1,0,1)
// fields with two extra directions, one of them on the boundary
#define TWO(name,F,fx,fy,fz) DIRS(name##_b1,F,fx,fy,fz,7,(fx?1:2)) DIRS(name##_b2,F,fx,fy,fz,7,(fz?4:2))
TWO(xsurfy,XSurfYField,1,1,0) TWO(ysurfz,YSurfZField,0,1,1) TWO(zsurfx,ZSurfXField,1,0,1)
// collapsed axes
#define SHAPES(name,F,fx,fy,fz,bc) DIRS(name##_1,F,fx,fy,fz,1,bc) DIRS(name##_2,F,fx,fy,fz,2,bc) DIRS(name##_4,F,fx,fy,fz,4,bc) DIRS(name##_3,F,fx,fy,fz,3,bc) DIRS(name##_5,F,fx,fy,fz,5,bc) DIRS(name##_6,F,fx,fy,fz,6,bc) DIRS(name##_0,F,fx,fy,fz,0,bc)
SHAPES(svol,SVolField,0,0,0,7) SHAPES(xvol,XVolField,1,0,0,7) SHAPES(ysurfz,YSurfZField,0,1,1,7) SHAPES(zvol,ZVolField,0,0,1,0)
