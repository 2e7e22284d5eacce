// C14: stencil operators
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: The assignment loop of each shape of stencil operator (two point, four point, finite difference, box filter, null, face and volume staggerings) is under contract for all meshes, ghosts and boundary flags against a neighbour table written from the staggering; build_stencils is under contract against the callee contract of OperatorDatabase::register_new_operator, which receives every operator and has its points and coefficients checked.
//! assume: OperatorDatabase::register_new_operator keeps the operator it is given (its own contract is C23)
// callee contract of the operator database: what build_stencils hands over (replaces OperatorDatabase.h in this harness)
#define SpatialOpDatabase_h
namespace SpatialOps{ struct OperatorDatabase{ template<typename Op> int register_new_operator( Op* op ); }; }
#include "stencil.h"
#include <spatialops/structured/stencil/StencilBuilder.cpp>
template<typename T,typename S,typename D> static void two( int full=0 ){
  typedef typename OperatorTypeBuilder<T,S,D>::type Op;
  const double lo=vc_real("lo"), hi=vc_real("hi");
  applies<Op,S,D>( Op( build_two_point_coef_collection(lo,hi) ), pts2<S,D>(lo,hi), full );
}
template<typename S,typename D> static Pts pts4( const double* c ){
  Pts p; p.n=4; int ax[2]={0,0},n=0; for(int q=0;q<3;++q) if( At<S>::p(q)!=At<D>::p(q) ){ if( n<2 ) ax[n]=q; ++n; }
  for(int t=0;t<4;++t){ p.c[t]=c[t]; for(int q=0;q<3;++q) p.o[t][q]=0; p.o[t][ax[0]]=adj<S,D>(ax[0],t&1); p.o[t][ax[1]]=adj<S,D>(ax[1],t>>1); }
  return p;
}
template<typename S,typename D> static void four(){
  typedef typename OperatorTypeBuilder<Interpolant,S,D>::type Op;
  const double c[4]={ vc_real("c1"),vc_real("c2"),vc_real("c3"),vc_real("c4") };
  applies<Op,S,D>( Op( build_four_point_coef_collection(c[0],c[1],c[2],c[3]) ), pts4<S,D>(c) );
}
static Pts box27(){ Pts p; p.n=27; for(int t=0;t<27;++t){ p.o[t][0]=t%3-1; p.o[t][1]=t/3%3-1; p.o[t][2]=t/9-1; p.c[t]=1.0/27; } return p; }
template<typename F> static void filter(){
  typedef typename OperatorTypeBuilder<Filter,F,F>::type Op;
  applies<Op,F,F>( Op(), box27(), -1 );
}
static Pts ptsfd( int ax, double lo, double hi ){ Pts p; p.n=2; p.c[0]=lo; p.c[1]=hi; for(int q=0;q<3;++q){ p.o[0][q]=q==ax?-1:0; p.o[1][q]=q==ax?1:0; } return p; }
template<typename T,typename F> static void fd( int ax ){
  typedef typename OperatorTypeBuilder<T,F,F>::type Op;
  const double lo=vc_real("lo"), hi=vc_real("hi");
  applies<Op,F,F>( Op( build_two_point_coef_collection(lo,hi) ), ptsfd(ax,lo,hi) );
}
static Pts pts0(){ Pts p; p.n=1; p.c[0]=1; for(int q=0;q<3;++q) p.o[0][q]=0; return p; }
template<typename S,typename D> static void null(){
  typedef typename OperatorTypeBuilder<Interpolant,S,D>::type Op;
  applies<Op,S,D>( Op(), pts0() );
}
// ---- the evaluation loop, by shape
VC(interp_SVol_SSurfX_any_boundary){ two<Interpolant,SVolField,SSurfXField>(1); }
VC(interp_SSurfY_SVol){ two<Interpolant,SSurfYField,SVolField>(); }
VC(grad_ZVol_YSurfZ){ two<Gradient,ZVolField,YSurfZField>(); }
VC(grad_SVol_YVol){ two<Gradient,SVolField,YVolField>(); }
VC(div_XSurfX_XVol){ two<Divergence,XSurfXField,XVolField>(); }
VC(div_ZSurfY_ZVol){ two<Divergence,ZSurfYField,ZVolField>(); }
VC(four_XVol_ZVol){ four<XVolField,ZVolField>(); }
VC(four_SVol_XSurfY){ four<SVolField,XSurfYField>(); }
VC(filter_SVol){ filter<SVolField>(); }
VC(fd_Y_ZVol){ fd<GradientY,ZVolField>(1); }
VC(fd_X_XVol){ fd<InterpolantX,XVolField>(0); }
VC(null_XVol_SSurfX){ null<XVolField,SSurfXField>(); }
// an operator applied to an expression reads the expression at the neighbouring cells
struct ECtx{ VF<SSurfXField>* a; VF<SVolField> *b,*c; Box r; double lo,hi,s;
  double e( long i,long j,long k ) const { return b->old(i,j,k)*s+c->old(i,j,k); }
  double want( long i,long j,long k ) const { return lo*e(i-1,j,k)+hi*e(i,j,k); } };
static double erule( void* c, long gx, long gy, long gz, long i, long j, long k, double old ){
  ECtx* x=(ECtx*)c; i-=x->a->gm(0); j-=x->a->gm(1); k-=x->a->gm(2);
  return x->r.in(i,j,k) && x->r.done(i,j,k,gx,gy,gz) ? x->want(i,j,k) : old;
}
VC(operator_on_expression){
  const IntVec d=vcmesh(); vc_assume( d[0]>1 && d[1]>1 && d[2]>1 );
  const BoundaryCellInfo nb=BoundaryCellInfo::build<SVolField>(false,false,false);
  VF<SSurfXField> a("a",d,VC_GHOST("a",d),BoundaryCellInfo::build<SSurfXField>(false,false,false));
  VF<SVolField> b("b",d,VC_GHOST("b",d),nb), c("c",d,VC_GHOST("c",d),nb);
  ECtx x; x.a=&a; x.b=&b; x.c=&c; x.lo=vc_real("lo"); x.hi=vc_real("hi"); x.s=vc_real("s");
  for(int q=0;q<3;++q){
    const long m=vcmin(a.gm(q),vcmin(b.gm(q),c.gm(q))-(q==0)), p=vcmin(a.gp(q),vcmin(b.gp(q),c.gp(q)));
    vc_assume( m>=0 ); x.r.lo[q]=-m; x.r.hi[q]=d[q]+p;
  }
  vc_pre_(); VC_LOOP(x.r); vc_array_rule_(a.p,erule,&x);
  const BasicOpTypes<SVolField>::GradX op( build_two_point_coef_collection(x.lo,x.hi) );
  a.f <<= op( b.f*x.s + c.f );
  vc_loop_end_();
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)){
    const long i=p.i-a.gm(0), j=p.j-a.gm(1), k=p.k-a.gm(2);
    const double was=vc_old_at_(a.p,p.i,p.j,p.k), now=vc_at_(a.p,p.i,p.j,p.k);
    if( x.r.in(i,j,k) ) vc_eq( now, x.want(i,j,k), "an operator combines the values of its argument expression at the neighbouring cells" );
    else                vc_check( now==was, "a cell whose stencil leaves the source is not set" );
  }
}
// ---- every operator the library builds: points and coefficients
static double g_h[3];     // spacings
template<typename P> struct PtList{ static void get( Pts& p ){ PtList<typename P::Collection>::get(p); const IntVec v=P::Point::int_vec(); for(int q=0;q<3;++q) p.o[p.n][q]=v[q]; ++p.n; } };
template<> struct PtList<NeboNil>{ static void get( Pts& p ){ p.n=0; } };
template<typename Op> struct Seen{ static int n; };
template<typename Op> int Seen<Op>::n=0;
static void same_points( const Pts& have, const Pts& want ){
  vc_check( have.n==want.n, "an operator has the number of stencil points of its kind" );
  for(int t=0;t<want.n;++t) for(int q=0;q<3;++q) vc_check( have.o[t][q]==want.o[t][q], "the stencil points are the adjacent source cells" );
}
template<typename T> struct Kind;      // finite difference direction (or -1) and whether it differentiates
template<> struct Kind<Interpolant>{ enum{ax=-1,diff=0}; }; template<> struct Kind<Gradient>{ enum{ax=-1,diff=1}; }; template<> struct Kind<Divergence>{ enum{ax=-1,diff=1}; };
template<> struct Kind<InterpolantX>{ enum{ax=0,diff=0}; }; template<> struct Kind<InterpolantY>{ enum{ax=1,diff=0}; }; template<> struct Kind<InterpolantZ>{ enum{ax=2,diff=0}; };
template<> struct Kind<GradientX>{ enum{ax=0,diff=1}; }; template<> struct Kind<GradientY>{ enum{ax=1,diff=1}; }; template<> struct Kind<GradientZ>{ enum{ax=2,diff=1}; };
template<typename T,typename P,typename S,typename D> static void handed( NeboStencilBuilder<T,P,S,D>* op ){
  Pts have; PtList<P>::get(have);
  double c[4]={0.5,0.5,0,0}; Pts want;
  int ax=Kind<T>::ax, n=0;
  if( ax<0 ){ for(int q=0;q<3;++q) if( At<S>::p(q)!=At<D>::p(q) ){ ++n; ax=q; } }
  else n=1;
  vc_check( n==1 || n==2, "an operator is built only between staggered locations" );
  if( n==2 ){ for(int t=0;t<4;++t) c[t]=0.25; want=pts4<S,D>(c); vc_check( !Kind<T>::diff, "derivatives act along one direction" ); }
  else{
    if( Kind<T>::diff ){ const double w= Kind<T>::ax<0 ? 1.0 : 0.5; c[0]=-w/g_h[ax]; c[1]=w/g_h[ax]; }
    if( Kind<T>::ax<0 ) want=pts2<S,D>(c[0],c[1]); else want=ptsfd(ax,c[0],c[1]);
  }
  same_points(have,want);
  if( have.n==want.n ) for(int t=0;t<want.n;++t) vc_eq( op->coefs().get_coef(t), want.c[t], "the coefficients are those of equal spacing" );
  Seen<NeboStencilBuilder<T,P,S,D> >::n++;
}
template<typename P,typename S,typename D> static void handed( NeboSumStencilBuilder<P,S,D>* ){
  Pts have; PtList<P>::get(have);
  for(int q=0;q<3;++q) vc_check( At<S>::p(q)==At<D>::p(q), "the no-op interpolant joins coinciding locations" );
  same_points(have,pts0()); Seen<NeboSumStencilBuilder<P,S,D> >::n++;
}
template<typename P,typename S,typename D> static void handed( NeboAverageStencilBuilder<P,S,D>* ){
  Pts have; PtList<P>::get(have);
  for(int q=0;q<3;++q) vc_check( At<S>::p(q)==At<D>::p(q), "the filter joins coinciding locations" );
  same_points(have,box27()); Seen<NeboAverageStencilBuilder<P,S,D> >::n++;
}
template<typename Op> int OperatorDatabase::register_new_operator( Op* op ){ handed(op); delete op; return 0; }
template<typename T,typename S,typename D> static void built(){ typedef Seen<typename OperatorTypeBuilder<T,S,D>::type> N; const int n=N::n; N::n=0; vc_check( n==1, "every operator is registered once" ); }
template<typename V> static void built_basic(){
  typedef typename FaceTypes<V>::XFace X; typedef typename FaceTypes<V>::YFace Y; typedef typename FaceTypes<V>::ZFace Z;
  built<Interpolant,V,X>(); built<Interpolant,V,Y>(); built<Interpolant,V,Z>(); built<Interpolant,X,V>(); built<Interpolant,Y,V>(); built<Interpolant,Z,V>();
  built<Gradient,V,X>(); built<Gradient,V,Y>(); built<Gradient,V,Z>(); built<Divergence,X,V>(); built<Divergence,Y,V>(); built<Divergence,Z,V>();
  built<Interpolant,V,V>(); built<Filter,V,V>();
  built<InterpolantX,V,V>(); built<InterpolantY,V,V>(); built<InterpolantZ,V,V>(); built<GradientX,V,V>(); built<GradientY,V,V>(); built<GradientZ,V,V>();
}
template<typename S,typename D> static void built2(){ built<Interpolant,S,D>(); built<Gradient,S,D>(); }
VC(built_operators){
  const unsigned nx=vc_int("nx",1,1<<20), ny=vc_int("ny",1,1<<20), nz=vc_int("nz",1,1<<20);
  const double Lx=vc_real("Lx"), Ly=vc_real("Ly"), Lz=vc_real("Lz"); vc_assume( Lx>0 && Ly>0 && Lz>0 );
  g_h[0]=Lx/nx; g_h[1]=Ly/ny; g_h[2]=Lz/nz;
  OperatorDatabase db;
  build_stencils( nx,ny,nz, Lx,Ly,Lz, db );
  built_basic<SVolField>(); built_basic<XVolField>(); built_basic<YVolField>(); built_basic<ZVolField>();
  built2<XVolField,YSurfXField>(); built2<XVolField,ZSurfXField>(); built2<YVolField,XSurfYField>(); built2<YVolField,ZSurfYField>(); built2<ZVolField,XSurfZField>(); built2<ZVolField,YSurfZField>();
  built2<SVolField,XVolField>(); built2<SVolField,YVolField>(); built2<SVolField,ZVolField>(); built2<XVolField,SVolField>(); built2<YVolField,SVolField>(); built2<ZVolField,SVolField>();
  built<Interpolant,XVolField,SSurfXField>(); built<Interpolant,YVolField,SSurfYField>(); built<Interpolant,ZVolField,SSurfZField>();
  built<Interpolant,SVolField,XSurfXField>(); built<Interpolant,SVolField,YSurfYField>(); built<Interpolant,SVolField,ZSurfZField>();
  built<Interpolant,XSurfXField,SVolField>(); built<Interpolant,YSurfYField,SVolField>(); built<Interpolant,ZSurfZField,SVolField>();
  built<Interpolant,SVolField,XSurfYField>(); built<Interpolant,SVolField,XSurfZField>(); built<Interpolant,SVolField,YSurfXField>(); built<Interpolant,SVolField,YSurfZField>(); built<Interpolant,SVolField,ZSurfXField>(); built<Interpolant,SVolField,ZSurfYField>();
  built<Interpolant,XSurfYField,SVolField>(); built<Interpolant,XSurfZField,SVolField>(); built<Interpolant,YSurfXField,SVolField>(); built<Interpolant,YSurfZField,SVolField>(); built<Interpolant,ZSurfXField,SVolField>(); built<Interpolant,ZSurfYField,SVolField>();
  built<Interpolant,XVolField,YVolField>(); built<Interpolant,XVolField,ZVolField>(); built<Interpolant,YVolField,XVolField>(); built<Interpolant,YVolField,ZVolField>(); built<Interpolant,ZVolField,XVolField>(); built<Interpolant,ZVolField,YVolField>();
}
VC(coef_collection){
  const double a=vc_real("a"), b=vc_real("b"), c=vc_real("c"), e=vc_real("e");
  const NeboStencilCoefCollection<4> k=build_four_point_coef_collection(a,b,c,e);
  vc_check( k.get_coef(0)==a && k.get_coef(1)==b && k.get_coef(2)==c && k.get_coef(3)==e, "coefficients keep their order" );
  const int i=vc_int("i",-3,9);
  bool t4=false,t2=false,t1=false;
  try{ k.get_coef(i); } catch( std::runtime_error& ){ t4=true; }
  try{ build_two_point_coef_collection(a,b).get_coef(i); } catch( std::runtime_error& ){ t2=true; }
  try{ build_coef_collection(a).get_coef(i); } catch( std::runtime_error& ){ t1=true; }
  vc_check( t4==(i<0 || i>3) && t2==(i<0 || i>1), "a coefficient that does not exist is refused" );
  vc_check( t1==(i<0 || i>0), "a coefficient that does not exist is refused (one point)" );
}
