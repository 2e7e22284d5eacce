// C12: expression operators, conditionals and masks mean what they say
//! nopt: -O0
//! config: serial threads
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: Every operator overload (24 operand combinations of number, field, expression, single-value field and single-value expression per binary operator; 4 per function) is run for symbolic operand values in every evaluation mode; sub-expressions are probe operands that stand for an arbitrary expression, so the operator contracts compose to expressions of any size. Conditionals and masks likewise.
//! assume: elementary functions of the C++ library are uninterpreted (the operator must call the right one on the right argument)
//! opt: cond_bool_num_expr {"quick_config":"serial"}
//! opt: cond_bool_num_mask {"quick_config":"serial"}
//! opt: cond_bool_field_expr {"quick_config":"serial"}
//! opt: cond_bool_field_mask {"quick_config":"serial"}
//! opt: cond_bool_expr_expr {"quick_config":"serial"}
//! opt: cond_bool_expr_mask {"quick_config":"serial"}
//! opt: cond_expr_num_expr {"quick_config":"serial"}
//! opt: cond_expr_num_mask {"quick_config":"serial"}
//! opt: cond_expr_field_expr {"quick_config":"serial"}
//! opt: cond_expr_field_mask {"quick_config":"serial"}
//! opt: cond_expr_expr_expr {"quick_config":"serial"}
//! opt: cond_expr_expr_mask {"quick_config":"serial"}
//! opt: cond_mask_num_expr {"quick_config":"serial"}
//! opt: cond_mask_num_mask {"quick_config":"serial"}
//! opt: cond_mask_field_expr {"quick_config":"serial"}
//! opt: cond_mask_field_mask {"quick_config":"serial"}
//! opt: cond_mask_expr_expr {"quick_config":"serial"}
//! opt: cond_mask_expr_mask {"quick_config":"serial"}
#include "nopool.h"
#include "mask.h"
#include "expr.h"
typedef SVolField F; typedef SpatialField<SingleValue,double> SV;
typedef NeboExpression<Pr<Initial,0,double,F>,F> E1; typedef NeboExpression<Pr<Initial,1,double,F>,F> E2;
typedef NeboSingleValueExpression<Pr<Initial,2,double,SV>,double> S1; typedef NeboSingleValueExpression<Pr<Initial,3,double,SV>,double> S2;

// operands: numbers, 2-cell fields, probe expressions, single-value fields
struct Env{
  double x,y; IntVec d; BoundaryCellInfo bc; GhostData g;
  VF<F> f1,f2; VF<SV> v1,v2; E1 e1; E2 e2; S1 s1; S2 s2;
  Env() : x(vc_real("x")), y(vc_real("y")), d(2,1,1), bc(BoundaryCellInfo::build<F>(false,false,false)), g(0),
    f1("f1",d,g,bc), f2("f2",d,g,bc),
    v1("v1",IntVec(1,1,1),g,BoundaryCellInfo::build<SV>(false,false,false)), v2("v2",IntVec(1,1,1),g,BoundaryCellInfo::build<SV>(false,false,false)),
    e1(Pr<Initial,0,double,F>()), e2(Pr<Initial,1,double,F>()), s1(Pr<Initial,2,double,SV>()), s2(Pr<Initial,3,double,SV>())
  {
    static const char* const n[8]={"p00","p01","p10","p11","p20","p21","p30","p31"};
    for(int i=0;i<4;++i) for(int c=0;c<2;++c) probe::val[i][c]=vc_real(n[2*i+c]);
    probe::reset();
  }
  // the value of operand kind k (0 number,1 field,2 expression,3 single value,4 single value expression), side q, at cell c
  double value( int k, int q, int c ) const {
    switch(k){
      case 0: return q ? y : x;
      case 1: return q ? f2.at(c,0,0) : f1.at(c,0,0);
      case 2: return probe::val[q][c];
      case 3: return q ? v2.at(0,0,0) : v1.at(0,0,0);
    }
    return probe::val[2+q][c];
  }
};
template<class X,class W> static void modes( const X& x, W w0, W w1 ){
  const IntVec z(0,0,0), one(1,1,1);
  { auto s=x.init(z,z,z); vc_check( same(s.eval(),w0), "the operator is applied to the operand values of the cell, in operand order" );
    s.next(); vc_check( same(s.eval(),w1), "the operator is applied to the operand values of the next cell" ); }
  { auto s=x.reduce_init(z,z,z); vc_check( same(s.eval(),w0), "the same value in reductions" );
    s.next(); vc_check( same(s.eval(),w1), "the same value in reductions at the next cell" ); }
#ifdef FIELD_EXPRESSION_THREADS
  { auto s=x.resize(z,z).init(z,one,z); vc_check( same(s.eval(),w0), "the same value in threaded pieces" );
    s.next(); vc_check( same(s.eval(),w1), "the same value in threaded pieces at the next cell" ); }
#endif
}
#define BINOP(N,OP) struct N{ template<class A,class B> static auto go( A const& a, B const& b ) -> decltype(a OP b) { return a OP b; } };
#define BINFN(N,FN,W) struct N{ template<class A,class B> static auto go( A const& a, B const& b ) -> decltype(FN(a,b)) { return FN(a,b); } static double go( double a, double b ){ return W; } };
BINOP(OAdd,+) BINOP(OSub,-) BINOP(OMul,*) BINOP(ODiv,/) BINOP(OEq,==) BINOP(ONe,!=) BINOP(OLt,<) BINOP(OLe,<=) BINOP(OGt,>) BINOP(OGe,>=)
BINFN(OPow,pow,std::pow(a,b)) BINFN(OMax,max,(a>b?a:b)) BINFN(OMin,min,(a<b?a:b))
template<class Op,class A,class B> static void one( const Env& e, A const& a, B const& b, int ka, int kb ){
  modes( Op::go(a,b).expr(), Op::go(e.value(ka,0,0),e.value(kb,1,0)), Op::go(e.value(ka,0,1),e.value(kb,1,1)) );
}
template<class Op> static void left( const Env& e, bool nozero ){
  if( nozero ) for(int k=0;k<5;++k) for(int c=0;c<2;++c) vc_assume( e.value(k,1,c)!=0 );
  one<Op>(e,e.x,e.f2.f,0,1);    one<Op>(e,e.x,e.e2,0,2);    one<Op>(e,e.x,e.v2.f,0,3);    one<Op>(e,e.x,e.s2,0,4);
  one<Op>(e,e.f1.f,e.y,1,0);    one<Op>(e,e.f1.f,e.f2.f,1,1); one<Op>(e,e.f1.f,e.e2,1,2);  one<Op>(e,e.f1.f,e.v2.f,1,3); one<Op>(e,e.f1.f,e.s2,1,4);
  one<Op>(e,e.e1,e.y,2,0);      one<Op>(e,e.e1,e.f2.f,2,1);
}
template<class Op> static void right( const Env& e, bool nozero ){
  if( nozero ) for(int k=0;k<5;++k) for(int c=0;c<2;++c) vc_assume( e.value(k,1,c)!=0 );
  one<Op>(e,e.e1,e.e2,2,2);    one<Op>(e,e.e1,e.v2.f,2,3);   one<Op>(e,e.e1,e.s2,2,4);
  one<Op>(e,e.v1.f,e.y,3,0);    one<Op>(e,e.v1.f,e.f2.f,3,1); one<Op>(e,e.v1.f,e.e2,3,2);  one<Op>(e,e.v1.f,e.v2.f,3,3); one<Op>(e,e.v1.f,e.s2,3,4);
  one<Op>(e,e.s1,e.y,4,0);      one<Op>(e,e.s1,e.f2.f,4,1);   one<Op>(e,e.s1,e.e2,4,2);    one<Op>(e,e.s1,e.v2.f,4,3);   one<Op>(e,e.s1,e.s2,4,4);
}
#define OPS(n,Op,nz) VC(n##_l){ Env e; left<Op>(e,nz); } VC(n##_r){ Env e; right<Op>(e,nz); }
OPS(plus,OAdd,false)
OPS(minus,OSub,false)
OPS(times,OMul,false)
OPS(divide,ODiv,true)
OPS(equal,OEq,false)
OPS(unequal,ONe,false)
OPS(less,OLt,false)
OPS(less_equal,OLe,false)
OPS(greater,OGt,false)
OPS(greater_equal,OGe,false)
OPS(power,OPow,false)
// max and min: one contract per operand combination (the value depends on a comparison)
#define MM(n,a,b,ka,kb) VC(max_##n){ Env e; one<OMax>(e,a,b,ka,kb); } VC(min_##n){ Env e; one<OMin>(e,a,b,ka,kb); }
MM(num_field,e.x,e.f2.f,0,1)
MM(num_expr,e.x,e.e2,0,2)
MM(num_single,e.x,e.v2.f,0,3)
MM(num_singleexpr,e.x,e.s2,0,4)
MM(field_num,e.f1.f,e.y,1,0)
MM(field_field,e.f1.f,e.f2.f,1,1)
MM(field_expr,e.f1.f,e.e2,1,2)
MM(field_single,e.f1.f,e.v2.f,1,3)
MM(field_singleexpr,e.f1.f,e.s2,1,4)
MM(expr_num,e.e1,e.y,2,0)
MM(expr_field,e.e1,e.f2.f,2,1)
MM(expr_expr,e.e1,e.e2,2,2)
MM(expr_single,e.e1,e.v2.f,2,3)
MM(expr_singleexpr,e.e1,e.s2,2,4)
MM(single_num,e.v1.f,e.y,3,0)
MM(single_field,e.v1.f,e.f2.f,3,1)
MM(single_expr,e.v1.f,e.e2,3,2)
MM(single_single,e.v1.f,e.v2.f,3,3)
MM(single_singleexpr,e.v1.f,e.s2,3,4)
MM(singleexpr_num,e.s1,e.y,4,0)
MM(singleexpr_field,e.s1,e.f2.f,4,1)
MM(singleexpr_expr,e.s1,e.e2,4,2)
MM(singleexpr_single,e.s1,e.v2.f,4,3)
MM(singleexpr_singleexpr,e.s1,e.s2,4,4)
// ---- functions of one operand
template<class Fn,class A> static void one1( const Env& e, A const& a, int k, bool pos ){
  for(int c=0;c<2;++c) if( pos ) vc_assume( e.value(k,0,c)>0 );
  modes( Fn::go(a).expr(), Fn::std(e.value(k,0,0)), Fn::std(e.value(k,0,1)) );
}
#define FUN(n,FN,STD,pos) struct Fun_##n{ template<class A> static auto go( A const& a ) -> decltype(FN(a)) { return FN(a); } static double std( double a ){ return STD; } }; \
  VC(fn_##n){ Env e; one1<Fun_##n>(e,e.f1.f,1,pos); one1<Fun_##n>(e,e.e1,2,pos); one1<Fun_##n>(e,e.v1.f,3,pos); one1<Fun_##n>(e,e.s1,4,pos); } \
  VC(wire_##n){ wire1<Fun_##n>(false); } VC(ghosts_##n){ wire1<Fun_##n>(true); }
// ---- how an operator sets up and steps its operands
static void recorded( int id, int inits, const IntVec& a, const IntVec& b, const IntVec& c ){
  vc_check( probe::rec[id].inits==inits, "every operand is set up exactly once" );
  for(int q=0;q<3;++q){
    vc_check( probe::rec[id].a[q]==a[q] && probe::rec[id].b[q]==b[q] && probe::rec[id].c[q]==c[q], "every operand is set up for the same region" );
  }
}
struct Wire{
  GhostData g0,g1; IntVec m,p,s;
  Wire() : g0(vcvec("am","bm","cm",0,40),vcvec("ap","bp","cp",0,40)), g1(vcvec("dm","em","fm",0,40),vcvec("dp","ep","fp",0,40)),
    m(vcvec("mx","my","mz",0,40)), p(vcvec("px","py","pz",0,40)), s(vcvec("sx","sy","sz",-3,3)) { probe::gh[0]=&g0; probe::gh[1]=&g1; probe::reset(); }
};
template<class X> static void wghosts( const X& x, Wire&, int nops ){
  const GhostData g=x.possible_ghosts();
  for(int q=0;q<3;++q){
    int lo=probe::gh[0]->get_minus(q), hi=probe::gh[0]->get_plus(q);
    for(int i=1;i<nops;++i){ const int l=probe::gh[i]->get_minus(q), h=probe::gh[i]->get_plus(q); lo=l<lo?l:lo; hi=h<hi?h:hi; }
    vc_check( g.get_minus(q)==lo && g.get_plus(q)==hi, "the operator is available where all its operands are" );
  }
}
template<class X> static void wiring( const X& x, Wire& w, int nops ){
  for(int c=0;c<3;++c) for(int i=0;i<2;++i){ static const char* const n[6]={"v0","v1","v2","v3","v4","v5"}; probe::val[i][c]=vc_real(n[2*c+i]); vc_assume(probe::val[i][c]>0.1); }
  { auto s=x.init(w.m,w.p,w.s); for(int i=0;i<nops;++i) recorded(i,1,w.m,w.p,w.s);
    s.next(); s.next(); for(int i=0;i<nops;++i) vc_check( probe::rec[i].nexts==2, "stepping steps every operand once" ); }
  probe::reset();
  static const char* const ne[5]={"e0","e1","e2","e3","e4"}; static const char* const nl[5]={"l0","l1","l2","l3","l4"};
  bool end=false, len=false; // no short circuit: one path
  for(int i=0;i<nops;++i){ probe::aend[i]=vc_bool(ne[i]); probe::hlen[i]=vc_bool(nl[i]); end=end|probe::aend[i]; len=len|probe::hlen[i]; }
  { auto s=x.reduce_init(w.m,w.p,w.s); for(int i=0;i<nops;++i) recorded(i,1,w.m,w.p,w.s);
    s.next(); for(int i=0;i<nops;++i) vc_check( probe::rec[i].nexts==1, "stepping a reduction steps every operand once" );
    vc_check( same(s.at_end(),end), "a reduction ends where an operand ends" );
    vc_check( same(s.has_length(),len), "a reduction has a length if an operand has one" ); }
#ifdef FIELD_EXPRESSION_THREADS
  probe::reset();
  { auto r=x.resize(w.m,w.p); for(int i=0;i<nops;++i) recorded(i,1,w.m,w.p,IntVec(0,0,0));
    auto s=r.init(w.s,w.p,w.m); for(int i=0;i<nops;++i) recorded(i,2,w.s,w.p,w.m);
    s.next(); for(int i=0;i<nops;++i) vc_check( probe::rec[i].nexts==1, "stepping a piece steps every operand once" ); }
#endif
}
template<class Fn> static void wire1( bool g ){ Wire w; E1 e((Pr<Initial,0,double,F>())); if( g ) wghosts( Fn::go(e).expr(), w, 1 ); else wiring( Fn::go(e).expr(), w, 1 ); }
template<class Op> static void wire2( bool g ){ Wire w; E1 a((Pr<Initial,0,double,F>())); E2 b((Pr<Initial,1,double,F>())); if( g ) wghosts( Op::go(a,b).expr(), w, 2 ); else wiring( Op::go(a,b).expr(), w, 2 ); }
#define WIRE(n,Op) VC(wire_##n){ wire2<Op>(false); } VC(ghosts_##n){ wire2<Op>(true); }
WIRE(plus,OAdd) WIRE(minus,OSub) WIRE(times,OMul) WIRE(divide,ODiv) WIRE(power,OPow) WIRE(maximum,OMax) WIRE(minimum,OMin)
WIRE(equal,OEq) WIRE(unequal,ONe) WIRE(less,OLt) WIRE(less_equal,OLe) WIRE(greater,OGt) WIRE(greater_equal,OGe)
FUN(sin,sin,std::sin(a),false) FUN(cos,cos,std::cos(a),false) FUN(tan,tan,std::tan(a),false) FUN(exp,exp,std::exp(a),false) FUN(tanh,tanh,std::tanh(a),false)
FUN(abs,abs,std::abs(a),false) FUN(negate,-,-(a),false) FUN(sqrt,sqrt,std::sqrt(a),true) FUN(log,log,std::log(a),true) FUN(log10,log10,std::log10(a),true)
FUN(erf,erf,::erf(a),false) FUN(erfc,erfc,::erfc(a),false)
// ---- logical operators and conditionals: test operands are a boolean, a boolean expression or a mask
typedef NeboBooleanExpression<Pr<Initial,4,bool,F>,F> B1; typedef NeboBooleanExpression<Pr<Initial,5,bool,F>,F> B2;
typedef SpatialMask<F> M;
struct BEnv : Env{
  bool b1,b2; B1 t1; B2 t2; bool mbit[2][2]; M m1,m2;
  BEnv() : b1(vc_bool("b1")), b2(vc_bool("b2")), t1(Pr<Initial,4,bool,F>()), t2(Pr<Initial,5,bool,F>()), m1(mk(*this,"mask1")), m2(mk(*this,"mask2")) {
    static const char* const n[4]={"t00","t01","t10","t11"}; 
    vcmask::any(m1,"any1"); vcmask::any(m2,"any2");
    for(int i=0;i<2;++i) for(int c=0;c<2;++c){ probe::bval[4+i][c]=vc_bool(n[2*i+c]); mbit[i][c]=vcmask::bit((i?m2:m1).mask_values(),f1.w,c,0,0); }
  }
  static M mk( Env& e, const char* n ){ if( n[4]=='1' ) vcmask::start(); vcmask::room(e.f1.w,n); return M(e.f1.f,std::vector<IntVec>()); }
  // truth of test kind k (0 boolean, 1 expression, 2 mask), side q, at cell c
  bool truth( int k, int q, int c ) const { return k==0 ? (q?b2:b1) : k==1 ? probe::bval[4+q][c] : mbit[q][c]; }
};
BINOP(LAnd,&&) BINOP(LOr,||)
template<class Op,class A,class B> static void logic( const BEnv& e, A const& a, B const& b, int ka, int kb ){
  modes( Op::go(a,b).expr(), Op::go(e.truth(ka,0,0),e.truth(kb,1,0)), Op::go(e.truth(ka,0,1),e.truth(kb,1,1)) );
}
#define LG(n,a,b,ka,kb) VC(and_##n){ BEnv e; logic<LAnd>(e,a,b,ka,kb); } \
  VC(or_##n){ BEnv e; logic<LOr>(e,a,b,ka,kb); }
LG(bool_expr,e.b1,e.t2,0,1)
LG(bool_mask,e.b1,e.m2,0,2)
LG(expr_bool,e.t1,e.b2,1,0)
LG(expr_expr,e.t1,e.t2,1,1)
LG(expr_mask,e.t1,e.m2,1,2)
LG(mask_bool,e.m1,e.b2,2,0)
LG(mask_expr,e.m1,e.t2,2,1)
LG(mask_mask,e.m1,e.m2,2,2)
VC(not_expr){ BEnv e; modes( (!e.t1).expr(), !e.truth(1,0,0), !e.truth(1,0,1) ); }
VC(not_mask){ BEnv e; modes( (!e.m1).expr(), !e.truth(2,0,0), !e.truth(2,0,1) ); }
// an expression that is a mask: 1 at mask points, 0 elsewhere
VC(mask_value){ BEnv e; modes( NeboMask<Initial,F>(e.m1), e.mbit[0][0]?1.0:0.0, e.mbit[0][1]?1.0:0.0 ); }
typedef NeboBooleanExpression<Pr<Initial,0,bool,F>,F> W1; typedef NeboBooleanExpression<Pr<Initial,1,bool,F>,F> W2;
template<class Op> static void wireb( bool g ){ Wire w; W1 a((Pr<Initial,0,bool,F>())); W2 b((Pr<Initial,1,bool,F>())); if( g ) wghosts( Op::go(a,b).expr(), w, 2 ); else wiring( Op::go(a,b).expr(), w, 2 ); }
VC(wire_and){ wireb<LAnd>(false); } VC(ghosts_and){ wireb<LAnd>(true); }
VC(wire_or){ wireb<LOr>(false); } VC(ghosts_or){ wireb<LOr>(true); }
VC(wire_not){ Wire w; W1 a((Pr<Initial,0,bool,F>())); wiring( (!a).expr(), w, 1 ); }
VC(ghosts_not){ Wire w; W1 a((Pr<Initial,0,bool,F>())); wghosts( (!a).expr(), w, 1 ); }
// ---- conditionals: the first true clause wins, otherwise the final value; clauses and finals of every kind
struct CEnv : BEnv{
  double u,v; // a second pair of numbers
  E1 r1; E2 r2; typedef NeboExpression<Pr<Initial,6,double,F>,F> E3; E3 r3;
  VF<F> f3;
  CEnv() : u(vc_real("u")), v(vc_real("v")), r1(e1), r2(e2), r3(Pr<Initial,6,double,F>()), f3("f3",d,g,bc) { probe::val[6][0]=vc_real("p60"); probe::val[6][1]=vc_real("p61"); }
  // value of kind k (0 number, 1 field, 2 expression) in place q (0 first clause, 1 second clause, 2 final)
  double cval( int k, int q, int c ) const {
    if( k==0 ) return q==0 ? x : q==1 ? y : u;
    if( k==1 ) return q==0 ? f1.at(c,0,0) : q==1 ? f2.at(c,0,0) : f3.at(c,0,0);
    return q==0 ? probe::val[0][c] : q==1 ? probe::val[1][c] : probe::val[6][c];
  }
  double want( int t0, int v0, int t1, int v1, int vf, int c ) const {
    if( truth(t0,0,c) ) return cval(v0,0,c);
    if( t1>=0 ) if( truth(t1,1,c) ) return cval(v1,1,c);
    return cval(vf,2,c);
  }
};
template<class X> static void cmodes( const X& x, double w0, double w1 ){ modes(x.expr(),w0,w1); }
static void cmodes( double x, double w0, double w1 ){ vc_check( same(x,w0) && same(x,w1), "the conditional is the value of its first true clause" ); }
template<class C> static void finals( const CEnv& e, C c, int t0, int v0, int t1, int v1 ){
  cmodes( c(e.u), e.want(t0,v0,t1,v1,0,0), e.want(t0,v0,t1,v1,0,1) );
  cmodes( c(e.f3.f), e.want(t0,v0,t1,v1,1,0), e.want(t0,v0,t1,v1,1,1) );
  cmodes( c(e.r3), e.want(t0,v0,t1,v1,2,0), e.want(t0,v0,t1,v1,2,1) );
}
// one contract per first clause and kind of second test
template<class C> static void second( const CEnv& e, C c, int t0, int v0, int t1 ){
  switch( t1 ){
    case -1: finals(e,c,t0,v0,-1,0); break;
    case 0: finals(e,c(e.b2,e.y),t0,v0,0,0); finals(e,c(e.b2,e.f2.f),t0,v0,0,1); finals(e,c(e.b2,e.r2),t0,v0,0,2); break;
    case 1: finals(e,c(e.t2,e.y),t0,v0,1,0); finals(e,c(e.t2,e.f2.f),t0,v0,1,1); finals(e,c(e.t2,e.r2),t0,v0,1,2); break;
    case 2: finals(e,c(e.m2,e.y),t0,v0,2,0); finals(e,c(e.m2,e.f2.f),t0,v0,2,1); finals(e,c(e.m2,e.r2),t0,v0,2,2); break;
  }
}
#define CD(n,a,b,t,v) \
  VC(cond_##n){ CEnv e; second(e,cond(a,b),t,v,-1); } \
  VC(cond_##n##_bool){ CEnv e; second(e,cond(a,b),t,v,0); } \
  VC(cond_##n##_expr){ CEnv e; second(e,cond(a,b),t,v,1); } \
  VC(cond_##n##_mask){ CEnv e; second(e,cond(a,b),t,v,2); }
CD(bool_num,e.b1,e.x,0,0)
CD(bool_field,e.b1,e.f1.f,0,1)
CD(bool_expr,e.b1,e.r1,0,2)
CD(expr_num,e.t1,e.x,1,0)
CD(expr_field,e.t1,e.f1.f,1,1)
CD(expr_expr,e.t1,e.r1,1,2)
CD(mask_num,e.m1,e.x,2,0)
CD(mask_field,e.m1,e.f1.f,2,1)
CD(mask_expr,e.m1,e.r1,2,2)
// no clause at all
VC(cond_final){ CEnv e; cmodes( cond(e.u), e.u, e.u ); cmodes( cond(e.f3.f), e.cval(1,2,0), e.cval(1,2,1) ); cmodes( cond(e.r3), e.cval(2,2,0), e.cval(2,2,1) ); }
// longer chains: one earlier clause makes all later ones irrelevant, whatever their kind
VC(cond_four){ CEnv e;
  const bool b3=vc_bool("b3"), b4=vc_bool("b4");
  #define WANT4(c,A,B,C,D,Z) ( e.b1 ? (A) : e.b2 ? (B) : b3 ? (C) : b4 ? (D) : (Z) )
  cmodes( cond(e.b1,e.x)(e.b2,e.y)(b3,e.u)(b4,e.v)(2.5), WANT4(0,e.x,e.y,e.u,e.v,2.5), WANT4(1,e.x,e.y,e.u,e.v,2.5) );
  cmodes( cond(e.b1,e.x)(e.b2,e.y)(b3,e.u)(b4,e.v)(e.f3.f), WANT4(0,e.x,e.y,e.u,e.v,e.cval(1,2,0)), WANT4(1,e.x,e.y,e.u,e.v,e.cval(1,2,1)) );
  cmodes( cond(e.b1,e.x)(e.b2,e.y)(b3,e.r3)(b4,e.v)(2.5), WANT4(0,e.x,e.y,e.cval(2,2,0),e.v,2.5), WANT4(1,e.x,e.y,e.cval(2,2,1),e.v,2.5) );
  cmodes( cond(e.b1,e.f1.f)(e.b2,e.y)(b3,e.r3)(b4,e.v)(e.r2), WANT4(0,e.cval(1,0,0),e.y,e.cval(2,2,0),e.v,probe::val[1][0]), WANT4(1,e.cval(1,0,1),e.y,e.cval(2,2,1),e.v,probe::val[1][1]) );
}
VC(cond_four_expr){ CEnv e; vc_assume( !e.mbit[0][1] ); vc_assume( !e.mbit[1][0] ); vc_assume( !e.mbit[1][1] );
  #define WANTX(c,A,B,C,D,Z) ( probe::bval[4][c] ? (A) : probe::bval[5][c] ? (B) : e.mbit[0][c] ? (C) : e.b1 ? (D) : (Z) )
  cmodes( cond(e.t1,e.f1.f)(e.t2,e.y)(e.m1,e.r3)(e.b1,e.v)(e.r2), WANTX(0,e.cval(1,0,0),e.y,e.cval(2,2,0),e.v,probe::val[1][0]), WANTX(1,e.cval(1,0,1),e.y,e.cval(2,2,1),e.v,probe::val[1][1]) );
}
// set-up, stepping and ghosts of a conditional's parts
static void wcond( bool g ){
  Wire w; for(int i=2;i<5;++i) probe::gh[i]=i%2?&w.g1:&w.g0;
  GhostData g2(vcvec("gm","hm","im",0,40),vcvec("gp","hp","ip",0,40)); if( g ) probe::gh[2]=&g2;   // the final value has ghosts of its own
  W1 t((Pr<Initial,0,bool,F>())); E2 a((Pr<Initial,1,double,F>()));
  NeboExpression<Pr<Initial,2,double,F>,F> z((Pr<Initial,2,double,F>()));
  if( g ) wghosts( cond(t,a)(z).expr(), w, 3 ); else wiring( cond(t,a)(z).expr(), w, 3 );
}
static void wcond2( bool g ){
  Wire w; for(int i=2;i<5;++i) probe::gh[i]=i%2?&w.g1:&w.g0;
  W1 t((Pr<Initial,0,bool,F>())); E2 a((Pr<Initial,1,double,F>()));
  NeboBooleanExpression<Pr<Initial,2,bool,F>,F> t2((Pr<Initial,2,bool,F>()));
  NeboExpression<Pr<Initial,3,double,F>,F> a2((Pr<Initial,3,double,F>()));
  NeboExpression<Pr<Initial,4,double,F>,F> z((Pr<Initial,4,double,F>()));
  if( g ) wghosts( cond(t,a)(t2,a2)(z).expr(), w, 5 ); else wiring( cond(t,a)(t2,a2)(z).expr(), w, 5 );
}
VC(wire_cond){ wcond(false); } VC(ghosts_cond){ wcond(true); }
VC(wire_cond2){ wcond2(false); } VC(ghosts_cond2){ wcond2(true); }
