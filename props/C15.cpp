// C15: boundary conditions by stencil inversion hold exactly
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: BoundaryConditionOp (single point and list form) and NeboBoundaryConditionBuilder are executed symbolically: any mesh, ghosts, boundary point, side, coefficients and values; the written cell is derived from the staggered positions, not from the library's type algebra.
//! bounded: direct_list_yvol lists of two points (any points)
//! bounded: grad_svol_x_list_minus lists of two points (any points)
//! bounded: grad_svol_x_list_plus lists of two points (any points)
//! bounded: interp_xvol_list_minus lists of two points (any points)
//! bounded: interp_xvol_list_plus lists of two points (any points)
//! assume: OperatorDatabase::retrieve_operator returns the registered operator (its own contract is C23)
#define SpatialOpDatabase_h
namespace SpatialOps{ struct OperatorDatabase{ const void* op; template<typename Op> Op* retrieve_operator( const int =-1 ) const { return (Op*)op; } }; }
namespace boost{ namespace mpl{} }
#include "nopool.h"
#include "mask.h"
#include "stencil.h"
#include <spatialops/structured/stencil/FVStaggeredBCOp.h>
#include <spatialops/structured/FVStaggeredBCTools.h>
struct Val{ double v; Val(double x):v(x){} double operator()() const { return v; } };
static bool dim1( int ax, int q, int shape ){ return q!=ax && !((shape>>q)&1); }
// the two source cells next to destination cell p: finite differences use the cells one away
template<class S,class D> static int side_cell( int q, int side, int fd ){ return fd>=0 ? (q==fd ? (side ? 1 : -1) : 0) : adj<S,D>(q,side); }
template<class T,class S,class D> struct One{
  typedef typename OperatorTypeBuilder<T,S,D>::type Op;
  IntVec d; VF<S> f; double lo, hi, v; Op op; int fd;
  static double nz( const char* n ){ const double x=vc_real(n); vc_assume( x!=0 ); return x; }
  One( const IntVec& dim, const bool* bc, int fd_ ) : d(dim), f("f",dim,VC_GHOST("f",dim),sbc<S>(bc)), lo(nz("lo")), hi(nz("hi")), v(vc_real("v")), op( build_two_point_coef_collection(lo,hi) ), fd(fd_) {}
  // a destination cell both neighbours of which are allocated
  IntVec point( const char* a, const char* b, const char* c ) const {
    const char* n[3]={a,b,c}; IntVec p;
    for(int q=0;q<3;++q){ const int s0=side_cell<S,D>(q,0,fd), s1=side_cell<S,D>(q,1,fd); p[q]=vc_int(n[q],-f.gm(q)-s0,d[q]+f.x(q)+f.gp(q)-1-s1); }
    return p;
  }
  IntVec cell( const IntVec& p, int side ) const { return IntVec( p[0]+side_cell<S,D>(0,side,fd), p[1]+side_cell<S,D>(1,side,fd), p[2]+side_cell<S,D>(2,side,fd) ); }
  double now( const IntVec& p ) const { return f.at(p[0],p[1],p[2]); }
  double old( const IntVec& p ) const { return f.old(p[0],p[1],p[2]); }
};
static inline IntVec mesh( int shape ){ const int N=1<<20; return IntVec( shape&1 ? vc_int("dx",2,N) : 1, shape&2 ? vc_int("dy",2,N) : 1, shape&4 ? vc_int("dz",2,N) : 1 ); }
template<class S> static void untouched( const VF<S>& f, const IntVec& a, const IntVec& b, const char* what ){
  VC_FORALL3(p,f.n(0),f.n(1),f.n(2)){
    const long i=p.i-f.gm(0), j=p.j-f.gm(1), k=p.k-f.gm(2);
    const bool is=((i==a[0])&(j==a[1])&(k==a[2])) | ((i==b[0])&(j==b[1])&(k==b[2]));
    vc_check( is | (vc_at_(f.p,p.i,p.j,p.k)==vc_old_at_(f.p,p.i,p.j,p.k)), what );
  }
}
template<class T,class S,class D> static void single( int shape, int bcs, BCSide side, int fd=-1 ){
  const bool bc[3]={bool(bcs&1),bool(bcs&2),bool(bcs&4)};
  typedef One<T,S,D> X; X x( mesh(shape), bc, fd ); const IntVec p=x.point("px","py","pz");
  OperatorDatabase db; db.op=&x.op;
  const BoundaryConditionOp<typename X::Op,Val> b( p, side, Val(x.v), db );
  vc_pre_();
  b( x.f.f );
  const int s= side==PLUS_SIDE; const IntVec g=x.cell(p,s), in=x.cell(p,!s);
  vc_eq( x.lo*x.now(x.cell(p,0))+x.hi*x.now(x.cell(p,1)), x.v, "the operator gives the boundary value at the point" );
  vc_check( x.now(in)==x.old(in), "the cell on the other side keeps its value" );
  untouched( x.f, g, g, "only the cell on the chosen side is changed" );
}
#define SINGLE(name,T,S,D,shape,bc) VC(name##_minus){ single<T,S,D>(shape,bc,MINUS_SIDE); } VC(name##_plus){ single<T,S,D>(shape,bc,PLUS_SIDE); }
SINGLE(grad_svol_x,Gradient,SVolField,SSurfXField,7,7)
SINGLE(interp_svol_y,Interpolant,SVolField,SSurfYField,7,7)
SINGLE(grad_svol_z_flat,Gradient,SVolField,SSurfZField,5,4)
SINGLE(div_ssurfx,Divergence,SSurfXField,SVolField,3,1)
SINGLE(interp_xvol,Interpolant,XVolField,SVolField,7,1)
SINGLE(grad_svol_yvol,Gradient,SVolField,YVolField,6,2)
VC(fd_grad_x_none){ single<GradientX,SVolField,SVolField>(7,0,NO_SIDE,0); }
VC(fd_grad_y_minus){ single<GradientY,SVolField,SVolField>(7,2,MINUS_SIDE,1); }
VC(fd_interp_z_plus){ single<InterpolantZ,SVolField,SVolField>(7,4,PLUS_SIDE,2); }
// a list of points, one after the other; the points do not share cells
template<class T,class S,class D> static void list( int shape, int bcs, BCSide side, int fd=-1 ){
  const bool bc[3]={bool(bcs&1),bool(bcs&2),bool(bcs&4)};
  typedef One<T,S,D> X; X x( mesh(shape), bc, fd ); const IntVec p=x.point("px","py","pz");
  const int s= side==PLUS_SIDE;
  IntVec r=x.point("rx","ry","rz");
  { // the second point lies in another row or plane (or two cells or more further)
    bool apart=false; for(int q=0;q<3;++q) apart=apart | (r[q]-p[q]>1) | (p[q]-r[q]>1);
    vc_assume( apart );
  }
  OperatorDatabase db; db.op=&x.op;
  std::vector<IntVec> l; l.push_back(p); l.push_back(r);
  const BoundaryConditionOp<typename X::Op,Val> b( x.f.f.window_without_ghost(), l, side, Val(x.v), db );
  vc_pre_();
  b( x.f.f );
  vc_eq( x.lo*x.now(x.cell(p,0))+x.hi*x.now(x.cell(p,1)), x.v, "the operator gives the boundary value at the first point" );
  vc_eq( x.lo*x.now(x.cell(r,0))+x.hi*x.now(x.cell(r,1)), x.v, "the operator gives the boundary value at the last point" );
  untouched( x.f, x.cell(p,s), x.cell(r,s), "only the cells on the chosen side are changed" );
}
#define LIST(name,T,S,D,shape,bc) VC(name##_list_minus){ list<T,S,D>(shape,bc,MINUS_SIDE); } VC(name##_list_plus){ list<T,S,D>(shape,bc,PLUS_SIDE); }
LIST(grad_svol_x,Gradient,SVolField,SSurfXField,7,7)
LIST(interp_xvol,Interpolant,XVolField,SVolField,3,1)

// ---- a mask of boundary points on the face field: every masked face sets the cell on its minus or plus side
template<class Phi,class G> struct MB{
  VF<Phi>* f; VF<G>* g; const unsigned* w; int o[3], s[3]; double dc, sc, v; int kind; Box r;   // o: face of a cell; s: the other cell of that face, relative to the cell
  bool masked( long i, long j, long k ) const {
    i+=o[0]; j+=o[1]; k+=o[2];
    i+=g->gm(0); j+=g->gm(1); k+=g->gm(2);
    if( !( 0<=i && i<g->n(0) && 0<=j && j<g->n(1) && 0<=k && k<g->n(2) ) ) return false;
    return vcmask::bit(w,g->w,i,j,k);
  }
  double gamma( long i, long j, long k ) const { return kind==0 ? v : kind==1 ? g->old(i+o[0],j+o[1],k+o[2]) : g->old(i+o[0],j+o[1],k+o[2])*v; }
  double want( long i, long j, long k ) const { return ( gamma(i,j,k) - f->old(i+s[0],j+s[1],k+s[2])*sc )/dc; }
};
template<class Phi,class G> static double mrule( void* c, long gx, long gy, long gz, long i, long j, long k, double old ){
  MB<Phi,G>* x=(MB<Phi,G>*)c; i-=x->f->gm(0); j-=x->f->gm(1); k-=x->f->gm(2);
  if( !( x->r.in(i,j,k) && x->r.done(i,j,k,gx,gy,gz) ) ) return old;
  return x->masked(i,j,k) ? x->want(i,j,k) : old;
}
template<class Phi,class G> static bool apart( void* c, long gx, long gy, long gz, long, long, long ){
  MB<Phi,G>* x=(MB<Phi,G>*)c; const long i=gx+x->r.lo[0], j=gy+x->r.lo[1], k=gz+x->r.lo[2];
  return !x->masked(i,j,k) || !x->masked(i+x->s[0],j+x->s[1],k+x->s[2]);
}
template<int AX,int V> struct Off{ typedef IndexTriplet< AX==0?V:0, AX==1?V:0, AX==2?V:0 > type; };
template<class Phi,class G,int AX,int LO,int HI> static void masked( int shape, int bcs, bool minus, int kind ){
  const IntVec d=mesh(shape); const bool bc[3]={bool(bcs&1),bool(bcs&2),bool(bcs&4)};
  VF<Phi> f("f",d,VC_GHOST("f",d),sbc<Phi>(bc)); VF<G> g("g",d,VC_GHOST("g",d),sbc<G>(bc));
  vcmask::start(); vcmask::room(g.w,"mask");
  SpatialMask<G> m(g.f,std::vector<IntVec>());
  vc_loop_end_();
  vcmask::any(m,"any");
  MB<Phi,G> x; x.f=&f; x.g=&g; x.w=m.mask_values(); x.kind=kind; x.v=vc_real("v"); x.sc=vc_real("sc"); x.dc=vc_real("dc"); vc_assume( x.dc!=0 );
  for(int q=0;q<3;++q){
    const int a0=adj<Phi,G>(q,0), a1=adj<Phi,G>(q,1);      // cells below and above a face
    x.o[q]= minus ? -a0 : -a1; x.s[q]= minus ? a1-a0 : a0-a1;
    // the cells of f whose face is in g and whose other cell is in f
    const long lo=vcmin( vcmin(f.gm(q),g.gm(q)+vcmin(0,x.o[q])), f.gm(q)+vcmin(0,x.s[q]) ), hi=vcmin( vcmin(f.gp(q)+f.x(q),g.gp(q)+g.x(q)-vcmax(0,x.o[q])), f.gp(q)+f.x(q)-vcmax(0,x.s[q]) );
    vc_assume( lo>=0 && hi>=f.x(q) );
    x.r.lo[q]=-lo; x.r.hi[q]=d[q]+hi;
  }
  if( !vc_symbolic() )     // no two masked faces share a cell
    for(long k=x.r.lo[2];k<x.r.hi[2];++k) for(long j=x.r.lo[1];j<x.r.hi[1];++j) for(long i=x.r.lo[0];i<x.r.hi[0];++i)
      if( x.masked(i,j,k) && x.masked(i+x.s[0],j+x.s[1],k+x.s[2]) ) { const long q=i+x.o[0]+g.gm(0)+g.n(0)*(j+x.o[1]+g.gm(1)+long(g.n(1))*(k+x.o[2]+g.gm(2))); const_cast<unsigned*>(x.w)[q/32]&=~(1u<<(q%32)); }
  vc_pre_(); VC_LOOP(x.r); vc_array_rule_(f.p,mrule<Phi,G>,&x); vc_loop_assume_(apart<Phi,G>,&x);
  typedef NeboBoundaryConditionBuilder<typename Off<AX,LO>::type,typename Off<AX,HI>::type,Phi,G> Bm;
  typedef NeboBoundaryConditionBuilder<typename Off<AX,HI>::type,typename Off<AX,LO>::type,Phi,G> Bp;
  if( minus ){ const Bm b(x.dc,x.sc); if( kind==0 ) b(m,f.f,x.v,true);  else if( kind==1 ) b(m,f.f,g.f,true);  else b(m,f.f,g.f*x.v,true); }
  else       { const Bp b(x.dc,x.sc); if( kind==0 ) b(m,f.f,x.v,false); else if( kind==1 ) b(m,f.f,g.f,false); else b(m,f.f,g.f*x.v,false); }
  vc_loop_end_();
  VC_FORALL3(p,f.n(0),f.n(1),f.n(2)){
    const long i=p.i-f.gm(0), j=p.j-f.gm(1), k=p.k-f.gm(2);
    const double was=vc_old_at_(f.p,p.i,p.j,p.k), now=vc_at_(f.p,p.i,p.j,p.k);
    if( x.r.in(i,j,k) && x.masked(i,j,k) ) vc_eq( now, x.want(i,j,k), "the operator inverted at a masked point gives the boundary value" );
    else vc_check( now==was, "cells at no masked point keep their values" );
  }
}
// the two cells of a face named by their offsets: -1,0 where the faces lie below the cells, 0,1 where they lie above
VC(mask_x_minus_scalar){ masked<SVolField,SSurfXField,0,-1,0>(1,1,true,0); }
VC(mask_x_plus_field){ masked<SVolField,SSurfXField,0,-1,0>(1,1,false,1); }
VC(mask_xy_minus_field){ masked<SVolField,SSurfXField,0,-1,0>(3,1,true,1); }
VC(mask_y_plus_expr){ masked<SVolField,SSurfYField,1,-1,0>(3,0,false,2); }
VC(mask_xz_minus_expr){ masked<SVolField,SSurfZField,2,-1,0>(5,4,true,2); }
VC(mask_xvol_plus_scalar){ masked<XVolField,XSurfXField,0,0,1>(1,1,false,0); }
VC(mask_yvol_minus_field){ masked<YVolField,SVolField,1,0,1>(2,2,true,1); }
// ---- a value set directly
template<class F> static void direct( int shape, int bcs, bool list ){
  const IntVec d=mesh(shape); const bool bc[3]={bool(bcs&1),bool(bcs&2),bool(bcs&4)};
  VF<F> f("f",d,VC_GHOST("f",d),sbc<F>(bc)); IntVec p, r; const char* n[6]={"px","py","pz","rx","ry","rz"};
  for(int q=0;q<3;++q){ p[q]=vc_int(n[q],-f.gm(q),d[q]+f.x(q)+f.gp(q)-1); r[q]= list ? vc_int(n[3+q],-f.gm(q),d[q]+f.x(q)+f.gp(q)-1) : p[q]; }
  const double v=vc_real("v");
  vc_pre_();
  if( list ){ std::vector<IntVec> l; l.push_back(p); l.push_back(r); const BoundaryCondition<F,ConstValEval> b( f.f.window_without_ghost(), l, ConstValEval(v) ); b(f.f); }
  else { const BoundaryCondition<F,ConstValEval> b( p, ConstValEval(v) ); b(f.f); }
  vc_check( f.at(p[0],p[1],p[2])==v, "the first point gets the boundary value" );
  vc_check( f.at(r[0],r[1],r[2])==v, "the last point gets the boundary value" );
  untouched( f, p, r, "only the listed points are changed" );
}
VC(direct_svol){ direct<SVolField>(7,5,false); }
VC(direct_list_yvol){ direct<YVolField>(7,2,true); }
