// C24: stencil type algebra gives consistent offsets
//! src: spatialops/structured/GhostData.cpp
//! explain: The point lists of every operator type the library defines are read out through the real int_vec() of each point and compared with the neighbour table derived from the staggered positions; possible_ghosts of every point list is proved for all ghost counts. Triplet arithmetic is checked over all component pairs in [-2,2].
//! bounded: triplets component values enumerated from -2 to 2, every ordered pair in every component
//! trust: template arguments are evaluated by clang; its constant evaluation is not re-checked
#include "vc.h"
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <spatialops/Nebo.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
using namespace SpatialOps; using namespace SpatialOps::structured;
#include <utility>
// position of a field location in half cells: 0 at the middle of the scalar cell, -1 on its low face
template<class F> struct Pos{};
#define POS(F,x,y,z) template<> struct Pos<F>{ static int p(int q){ const int a[3]={x,y,z}; return a[q]; } };
POS(SVolField,0,0,0) POS(SSurfXField,-1,0,0) POS(SSurfYField,0,-1,0) POS(SSurfZField,0,0,-1)
POS(XVolField,-1,0,0) POS(XSurfXField,0,0,0) POS(XSurfYField,-1,-1,0) POS(XSurfZField,-1,0,-1)
POS(YVolField,0,-1,0) POS(YSurfXField,-1,-1,0) POS(YSurfYField,0,0,0) POS(YSurfZField,0,-1,-1)
POS(ZVolField,0,0,-1) POS(ZSurfXField,-1,0,-1) POS(ZSurfYField,0,-1,-1) POS(ZSurfZField,0,0,0)
// the points of a list, last added first
struct List{ int n; int o[32][3]; };
template<class C> struct Read{ static void go( List& l ){ Read<typename C::Collection>::go(l); const IntVec v=C::Point::int_vec(); for(int q=0;q<3;++q) l.o[l.n][q]=v[q]; ++l.n; } };
template<> struct Read<NeboNil>{ static void go( List& ){} };
static bool distinct( const List& l ){
  bool ok=true; for(int a=0;a<l.n;++a) for(int b=0;b<a;++b) ok=ok & !( (l.o[a][0]==l.o[b][0]) & (l.o[a][1]==l.o[b][1]) & (l.o[a][2]==l.o[b][2]) ); return ok;
}
template<class C> static List points(){ List l; l.n=0; Read<C>::go(l); return l; }
// the ghost cells that remain after the shifts of the list
template<class C> static void covers( const List& l ){
  const int m[3]={vc_int("gmx",2,50),vc_int("gmy",2,50),vc_int("gmz",2,50)}, p[3]={vc_int("gpx",2,50),vc_int("gpy",2,50),vc_int("gpz",2,50)};
  const GhostData g=C::possible_ghosts( GhostData(m[0],p[0],m[1],p[1],m[2],p[2]) );
  for(int q=0;q<3;++q){
    int dn=0, up=0;
    for(int t=0;t<l.n;++t){ if( -l.o[t][q]>dn ) dn=-l.o[t][q]; if( l.o[t][q]>up ) up=l.o[t][q]; }
    vc_check( g.get_minus(q)==m[q]-dn, "the destination covers what the shifts leave on the minus side" );
    vc_check( g.get_plus(q)==p[q]-up, "the destination covers what the shifts leave on the plus side" );
  }
}
template<class T,class S,class D> static void op(){
  typedef typename OperatorTypeBuilder<T,S,D>::type::PointCollectionType C;
  const List l=points<C>();
  int nd=0; for(int q=0;q<3;++q) nd+= Pos<S>::p(q)!=Pos<D>::p(q);
  vc_check( l.n==(nd==0 ? 1 : nd==1 ? 2 : 4), "one point at the same location, two or four points around it otherwise" );
  vc_check( distinct(l), "the points are distinct" );
  for(int q=0;q<3;++q){
    int lo=0, hi=0; bool ok=true; const bool diff= Pos<S>::p(q)!=Pos<D>::p(q);
    for(int t=0;t<l.n;++t){
      const int d=2*l.o[t][q]+Pos<S>::p(q)-Pos<D>::p(q);      // half cells from the destination to the source point
      lo+= d==-1; hi+= d==1; ok=ok & ( diff ? (d==-1)|(d==1) : d==0 );
    }
    vc_check( ok, "the points differ from the destination by half a cell exactly where the locations differ" );
    vc_check( !diff | ((lo==hi) & (lo==l.n/2)), "the points lie on both sides of the destination" );
  }
  covers<C>(l);
}
template<class T,class F> static void fd( int ax ){
  typedef typename OperatorTypeBuilder<T,F,F>::type::PointCollectionType C;
  const List l=points<C>();
  vc_check( l.n==2, "a finite difference has two points" );
  for(int q=0;q<3;++q) vc_check( q==ax ? (l.o[0][q]+l.o[1][q]==0) & (l.o[0][q]*l.o[1][q]==-1) : (l.o[0][q]==0) & (l.o[1][q]==0), "the points of a finite difference are one cell away on both sides" );
  covers<C>(l);
}
template<class F> static void filter(){
  typedef typename OperatorTypeBuilder<Filter,F,F>::type::PointCollectionType C;
  const List l=points<C>();
  bool in=true; for(int t=0;t<l.n;++t) for(int q=0;q<3;++q) in=in & (l.o[t][q]>=-1) & (l.o[t][q]<=1);
  vc_check( l.n==27 && in && distinct(l), "the box filter has the 27 points of the box" );
  covers<C>(l);
}
#define BASIC(V) { typedef FaceTypes<V>::XFace X; typedef FaceTypes<V>::YFace Y; typedef FaceTypes<V>::ZFace Z; \
  op<Interpolant,V,X>(); op<Interpolant,V,Y>(); op<Interpolant,V,Z>(); op<Interpolant,X,V>(); op<Interpolant,Y,V>(); op<Interpolant,Z,V>(); \
  op<Gradient,V,X>(); op<Gradient,V,Y>(); op<Gradient,V,Z>(); op<Divergence,X,V>(); op<Divergence,Y,V>(); op<Divergence,Z,V>(); }
VC(basic_svol) BASIC(SVolField)
VC(basic_xvol) BASIC(XVolField)
VC(basic_yvol) BASIC(YVolField)
VC(basic_zvol) BASIC(ZVolField)
#define IG(S,D) op<Interpolant,S,D>(); op<Gradient,S,D>();
VC(staggered){
  IG(XVolField,YSurfXField) IG(XVolField,ZSurfXField) IG(YVolField,XSurfYField) IG(YVolField,ZSurfYField) IG(ZVolField,XSurfZField) IG(ZVolField,YSurfZField)
  IG(SVolField,XVolField) IG(SVolField,YVolField) IG(SVolField,ZVolField) IG(XVolField,SVolField) IG(YVolField,SVolField) IG(ZVolField,SVolField)
}
VC(same_location){
  op<Interpolant,XVolField,SSurfXField>(); op<Interpolant,YVolField,SSurfYField>(); op<Interpolant,ZVolField,SSurfZField>();
  op<Interpolant,SVolField,XSurfXField>(); op<Interpolant,SVolField,YSurfYField>(); op<Interpolant,SVolField,ZSurfZField>();
  op<Interpolant,XSurfXField,SVolField>(); op<Interpolant,YSurfYField,SVolField>(); op<Interpolant,ZSurfZField,SVolField>();
  op<Interpolant,SVolField,SVolField>(); op<Interpolant,ZSurfYField,ZSurfYField>();
}
#define I4(S,D) op<Interpolant,S,D>();
VC(four_point){
  I4(SVolField,XSurfYField) I4(SVolField,XSurfZField) I4(SVolField,YSurfXField) I4(SVolField,YSurfZField) I4(SVolField,ZSurfXField) I4(SVolField,ZSurfYField)
  I4(XSurfYField,SVolField) I4(XSurfZField,SVolField) I4(YSurfXField,SVolField) I4(YSurfZField,SVolField) I4(ZSurfXField,SVolField) I4(ZSurfYField,SVolField)
  I4(XVolField,YVolField) I4(XVolField,ZVolField) I4(YVolField,XVolField) I4(YVolField,ZVolField) I4(ZVolField,XVolField) I4(ZVolField,YVolField)
}
#define FDS(F) fd<InterpolantX,F>(0); fd<InterpolantY,F>(1); fd<InterpolantZ,F>(2); fd<GradientX,F>(0); fd<GradientY,F>(1); fd<GradientZ,F>(2);
VC(finite_difference){ FDS(SVolField) FDS(XVolField) FDS(YVolField) FDS(ZVolField) }
VC(box_filter){ filter<SVolField>(); filter<XVolField>(); filter<YVolField>(); filter<ZVolField>(); }
// ---- the points a stencil list of two or four points would have between any two locations
template<class S,class D> static void pair2(){
  typedef typename Stencil2Collection<Interpolant,S,D>::StPtCollection C; const List l=points<C>();
  vc_check( l.n==2, "a two point operator has two points" );
  for(int q=0;q<3;++q){
    const int d0=2*l.o[0][q]+Pos<S>::p(q)-Pos<D>::p(q), d1=2*l.o[1][q]+Pos<S>::p(q)-Pos<D>::p(q);
    vc_check( Pos<S>::p(q)!=Pos<D>::p(q) ? (d0==-1) & (d1==1) : (d0==0) & (d1==0), "low point first, high point second, half a cell away where the locations differ" );
  }
  covers<C>(l);
}
template<class S> static void pairs2(){
  pair2<S,SVolField>(); pair2<S,SSurfXField>(); pair2<S,SSurfYField>(); pair2<S,SSurfZField>(); pair2<S,XVolField>(); pair2<S,XSurfXField>(); pair2<S,XSurfYField>(); pair2<S,XSurfZField>();
  pair2<S,YVolField>(); pair2<S,YSurfXField>(); pair2<S,YSurfYField>(); pair2<S,YSurfZField>(); pair2<S,ZVolField>(); pair2<S,ZSurfXField>(); pair2<S,ZSurfYField>(); pair2<S,ZSurfZField>();
}
VC(pairs_svol){ pairs2<SVolField>(); } VC(pairs_ssurfx){ pairs2<SSurfXField>(); } VC(pairs_ssurfy){ pairs2<SSurfYField>(); } VC(pairs_ssurfz){ pairs2<SSurfZField>(); }
VC(pairs_xsurfy){ pairs2<XSurfYField>(); } VC(pairs_ysurfz){ pairs2<YSurfZField>(); } VC(pairs_zsurfx){ pairs2<ZSurfXField>(); }
// ---- the location table: a face lies half a cell below the volume it belongs to (and at the scalar cell for the doubly staggered ones)
template<class F> static void loc(){
  typedef typename F::Location::Offset O; const IntVec v=O::int_vec();
  for(int q=0;q<3;++q) vc_check( v[q]==Pos<F>::p(q), "the offset of a location is its stagger" );
  vc_check( (IndexStagger<F,SpatialOps::XDIR>::value==Pos<F>::p(0)) & (IndexStagger<F,SpatialOps::YDIR>::value==Pos<F>::p(1)) & (IndexStagger<F,SpatialOps::ZDIR>::value==Pos<F>::p(2)), "IndexStagger is the offset along its direction" );
}
VC(locations){
  loc<SVolField>(); loc<SSurfXField>(); loc<SSurfYField>(); loc<SSurfZField>(); loc<XVolField>(); loc<XSurfXField>(); loc<XSurfYField>(); loc<XSurfZField>();
  loc<YVolField>(); loc<YSurfXField>(); loc<YSurfYField>(); loc<YSurfZField>(); loc<ZVolField>(); loc<ZSurfXField>(); loc<ZSurfYField>(); loc<ZSurfZField>();
}
// ---- triplets
#define IS(T,x,y,z,what) { vc_check( (int(T::X)==(x)) & (int(T::Y)==(y)) & (int(T::Z)==(z)), what ); const IntVec v=T::int_vec(); vc_check( (v[0]==(x)) & (v[1]==(y)) & (v[2]==(z)) & (T::x_value()==(x)) & (T::y_value()==(y)) & (T::z_value()==(z)), "the run-time form of a triplet has its components" ); }
static int mx(int a,int b){ return a>b?a:b; }
static int ab(int a){ return a<0?-a:a; }
template<int A,int B,int C> struct One{ static void go(){
  typedef IndexTriplet<A,B,C> T; typedef typename T::Abs TA; typedef typename T::PositiveOrZero TP; typedef typename T::Negate TN;
  IS(T,A,B,C,"a triplet has its components") IS(TA,ab(A),ab(B),ab(C),"Abs is componentwise") IS(TP,mx(0,A),mx(0,B),mx(0,C),"PositiveOrZero is componentwise") IS(TN,-A,-B,-C,"Negate is componentwise")
  vc_check( (int(IndexTripletExtract<T,SpatialOps::XDIR>::value)==A) & (int(IndexTripletExtract<T,SpatialOps::YDIR>::value)==B) & (int(IndexTripletExtract<T,SpatialOps::ZDIR>::value)==C), "IndexTripletExtract gives the component of its direction" );
} };
template<int A,int B> struct Two{ static void go(){
  typedef IndexTriplet<A,B,A> T; typedef IndexTriplet<B,A,-B> U;
  typedef typename Add<T,U>::result Sa; typedef typename Subtract<T,U>::result Ss; typedef typename Multiply<T,U>::result Sm; typedef typename LessThan<T,U>::result Sl; typedef typename GreaterThan<T,U>::result Sg;
  IS(Sa,A+B,B+A,A-B,"Add is componentwise") IS(Ss,A-B,B-A,A+B,"Subtract is componentwise") IS(Sm,A*B,A*B,-A*B,"Multiply is componentwise")
  IS(Sl,(A<B),(B<A),(A<-B),"LessThan is componentwise") IS(Sg,(A>B),(B>A),(A>-B),"GreaterThan is componentwise")
  vc_check( (int(Max<A,B>::result)==(A>B?A:B)) & (int(Min<A,B>::result)==(A<B?A:B)) & (int(Abs<A>::result)==ab(A)) & (int(LThan<A,B>::result)==(A<B)) & (int(GThan<A,B>::result)==(A>B)) & (int(Kronecker<A,B>::value)==(A==B)), "scalar metafunctions" );
  One<A,B,0>::go(); One<B,0,A>::go(); One<0,A,B>::go(); One<A,B,1>::go(); One<A,B,-2>::go(); One<-1,B,A>::go(); One<A,2,B>::go();
} };
template<int... I> static void all( std::integer_sequence<int,I...> ){ int x[]={ (Two<I/5-2,I%5-2>::go(),0)... }; (void)x; }
VC(triplets){ all( std::make_integer_sequence<int,25>() ); }
template<class D> static int dirno(){ return IsSameType<D,SpatialOps::XDIR>::result ? 0 : IsSameType<D,SpatialOps::YDIR>::result ? 1 : IsSameType<D,SpatialOps::ZDIR>::result ? 2 : 3; }
VC(directions){
  typedef UnitTriplet<SpatialOps::XDIR>::type X; typedef UnitTriplet<SpatialOps::YDIR>::type Y; typedef UnitTriplet<SpatialOps::ZDIR>::type Z;
  IS(X,1,0,0,"unit triplet") IS(Y,0,1,0,"unit triplet") IS(Z,0,0,1,"unit triplet")
  vc_check( (dirno<GetNonzeroDir<X>::DirT>()==0) & (dirno<GetNonzeroDir<Y>::DirT>()==1) & (dirno<GetNonzeroDir<Z>::DirT>()==2), "the direction of a unit triplet" );
  vc_check( (dirno<GetNonzeroDir<X::Negate>::DirT>()==0) & (dirno<GetNonzeroDir<Y::Negate>::DirT>()==1) & (dirno<GetNonzeroDir<Z::Negate>::DirT>()==2), "the direction of a negative unit triplet" );
  typedef IndexTriplet<0,0,0> N; vc_check( dirno<GetNonzeroDir<N>::DirT>()==3, "the zero triplet has no direction" );
}
