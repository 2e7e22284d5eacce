// C17: field comparisons decide exactly the stated tolerance
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: field_equal / field_not_equal (relative, with given and with default absolute part), _abs and _ulp, of two fields and of a number and a field, for every mesh, ghosts, valid ghosts, boundary cells, values and tolerances: the loop invariant is that every cell before the loop position satisfies the tolerance; a true answer comes only after the last cell, a false answer only at a cell that violates it.
//! assume: values, tolerances and the absolute part are real numbers (no NaN or infinity)
//! assume: boost::math::float_distance is antisymmetric (an arbitrary such function stands for it)
//! assume: the norm used by the default absolute part is the one contracted in C13 (an arbitrary number of no sign stands for it)
#include <climits>
#include "nopool.h"
#ifdef VC_SYMBOLIC
# define BOOST_MATH_SPECIAL_NEXT_HPP
# include "vc.h"
namespace boost{ namespace math{ static inline double float_distance( double a, double b ){ return vc_uf_("ulp",vc_uf_("ulp1",a)+vc_uf_("ulp2",b))-vc_uf_("ulp",vc_uf_("ulp1",b)+vc_uf_("ulp2",a)); } } }
#endif
#include "fields.h"
#include <cmath>
#ifndef VC_SYMBOLIC
# include <boost/math/special_functions/next.hpp>
#endif
namespace SpatialOps{ namespace structured{
  static const void* normed; static double norm;
  template<class F> static double vcnorm( const F& f ){ normed=&f; return vc_symbolic() ? norm : nebo_norm(f); }
} }
#define nebo_norm vcnorm
#include <spatialops/structured/FieldComparisons.h>
#undef nebo_norm
typedef XVolField F;
static BoundaryCellInfo vcbc( const IntVec& d ){ return BoundaryCellInfo::build<F>( d[0]>1 ? vc_bool("bc") : false, false, false ); }
enum Kind{ REL, ABS, ULP };
struct Ctx{
  IntVec d; GhostData g; BoundaryCellInfo bc; int vm[3], vp[3]; Box r; VF<F> a, b; bool num; double s; Kind k; double tol, eabs; unsigned ul;
  Ctx( bool number, Kind kind, bool zero ) : d(vcmesh()), g(VC_GHOST("g",d)), bc(vcbc(d)), a("a",d,g,bc), b("b",d,g,bc), num(number), s(vc_real("s")), k(kind), tol(0), eabs(0), ul(0) {
    const char* n[6]={"vmx","vpx","vmy","vpy","vmz","vpz"};
    for(int q=0;q<3;++q){
      vm[q]= d[q]>1 ? int(vc_int(n[2*q],0,a.gm(q))) : 0; vp[q]= d[q]>1 ? int(vc_int(n[2*q+1],0,a.gp(q))) : 0;
      r.lo[q]=-vm[q]; r.hi[q]=d[q]+a.x(q)+vp[q];
    }
    const GhostData v(vm[0],vp[0],vm[1],vp[1],vm[2],vp[2]); a.f.reset_valid_ghosts(v); b.f.reset_valid_ghosts(v);
    if( k==ULP ){ ul= zero ? 0 : vc_int("ulps",1,1<<30); tol=ul; }
    else tol= zero ? 0 : vc_real("tol");
    eabs=vc_real("eabs");
    if( vc_symbolic() ){ if( k!=ULP && !zero ) vc_assume( tol!=0 ); vc_assume( eabs>0 ); }
    else { // few values, many coincidences; tolerances whose products are exact
      const int how=vc_int("how",0,3), at=vc_int("where",0,1<<20);
      if( k!=ULP && !zero ) tol= (tol<0?-1.:1.)*std::ldexp(1.,vc_int("e",-3,2));
      if( k==ULP && !zero ) tol=ul=vc_int("few",1,3);
      eabs=std::ldexp(1.,vc_int("f",-2,3)); s=vc_int("si",-4,4)*0.5;
      const long m=long(a.n(0))*a.n(1)*a.n(2);
      for(long i=0;i<m;++i){ if( how<3 ){ if( num ) a.p[i]=s; else b.p[i]=a.p[i]; } }
      if( k==ULP ) for(int q=0;q<vc_int("steps",0,4);++q) { double& t= (num ? a : b).p[at%m]; t=std::nextafter(t,how&1 ? 1e9 : -1e9); }
      else if( how ) a.p[at%m]+= how==1 ? tol : how==2 ? 0.5*tol*eabs : 1;
    }
  }
  double x( long i, long j, long l ) const { return num ? s : a.old(i,j,l); }
  double y( long i, long j, long l ) const { return num ? a.old(i,j,l) : b.old(i,j,l); }
  bool ok( long i, long j, long l ) const {
    const double u=x(i,j,l), v=y(i,j,l), t=std::abs(tol);
    if( k==ULP ) return tol==0 ? boost::math::float_distance(u,v)==0 : std::abs(boost::math::float_distance(u,v))<=tol;
    if( tol==0 ) return u==v;
    if( k==ABS ) return std::abs(u-v)<=t;
    return std::abs(u-v)/(std::abs(u)+eabs)<=t;
  }
};
static bool inv( void* c, long gx, long gy, long gz, long i, long j, long k ){
  Ctx* x=(Ctx*)c; i+=x->r.lo[0]; j+=x->r.lo[1]; k+=x->r.lo[2];
  return !x->r.done(i,j,k,gx,gy,gz) || x->ok(i,j,k);
}
static void decide( Ctx& c, bool equal ){
  if( vc_symbolic() ){
    const long i=vc_int("ci",0,c.r.ext(0)-1), j=vc_int("cj",0,c.r.ext(1)-1), k=vc_int("ck",0,c.r.ext(2)-1);
    if( !vc_has_exit_() ){ // a region of one cell
      if( equal ) vc_check( c.ok(i+c.r.lo[0],j+c.r.lo[1],k+c.r.lo[2]), "answers equal only if every valid cell satisfies the tolerance" ); else vc_check( !c.ok(i+c.r.lo[0],j+c.r.lo[1],k+c.r.lo[2]), "answers unequal only if some valid cell violates the tolerance" );
    }
    else if( equal ){ vc_use_inv_(i,j,k); vc_check( c.ok(i+c.r.lo[0],j+c.r.lo[1],k+c.r.lo[2]), "answers equal only if every valid cell satisfies the tolerance" ); }
    else { const bool in=c.r.in(vc_exit_(0)+c.r.lo[0],vc_exit_(1)+c.r.lo[1],vc_exit_(2)+c.r.lo[2]); vc_check( in && !c.ok(vc_exit_(0)+c.r.lo[0],vc_exit_(1)+c.r.lo[1],vc_exit_(2)+c.r.lo[2]), "answers unequal only if some valid cell violates the tolerance" ); }
  } else {
    bool all=true; for(long k=c.r.lo[2];k<c.r.hi[2];++k) for(long j=c.r.lo[1];j<c.r.hi[1];++j) for(long i=c.r.lo[0];i<c.r.hi[0];++i) all=all && c.ok(i,j,k);
    if( equal ) vc_check( all, "answers equal only if every valid cell satisfies the tolerance" ); else vc_check( !all, "answers unequal only if some valid cell violates the tolerance" );
  }
  vc_loop_end_();
  VC_FORALL3(p,c.a.n(0),c.a.n(1),c.a.n(2)){
    vc_check( vc_at_(c.a.p,p.i,p.j,p.k)==vc_old_at_(c.a.p,p.i,p.j,p.k), "the first field is not modified" );
    vc_check( vc_at_(c.b.p,p.i,p.j,p.k)==vc_old_at_(c.b.p,p.i,p.j,p.k), "the second field is not modified" );
  }
}
enum Form{ EQ, NE }; 
static bool ask( Ctx& c, Form f, bool deflt ){
  const F &a=c.a.f, &b=c.b.f;
  switch( c.k ){
    case REL: if( deflt ) return f==EQ ? (c.num ? field_equal(c.s,a,c.tol) : field_equal(a,b,c.tol)) : !(c.num ? field_not_equal(c.s,a,c.tol) : field_not_equal(a,b,c.tol));
              return f==EQ ? (c.num ? field_equal(c.s,a,c.tol,c.eabs) : field_equal(a,b,c.tol,c.eabs)) : !(c.num ? field_not_equal(c.s,a,c.tol,c.eabs) : field_not_equal(a,b,c.tol,c.eabs));
    case ABS: return f==EQ ? (c.num ? field_equal_abs(c.s,a,c.tol) : field_equal_abs(a,b,c.tol)) : !(c.num ? field_not_equal_abs(c.s,a,c.tol) : field_not_equal_abs(a,b,c.tol));
    default:  { const unsigned u=c.ul; return f==EQ ? (c.num ? field_equal_ulp(c.s,a,u) : field_equal_ulp(a,b,u)) : !(c.num ? field_not_equal_ulp(c.s,a,u) : field_not_equal_ulp(a,b,u)); }
  }
}
static void cmp( Kind k, bool number, bool zero, Form f, bool deflt=false ){
  Ctx c(number,k,zero);
  if( deflt ){
    norm=vc_real("norm"); normed=0;
    if( vc_symbolic() ){ vc_assume( norm*c.tol>0 ); c.eabs=norm*c.tol*.000001; }
    else {
      double t=0; for(long z=c.r.lo[2];z<c.r.hi[2];++z) for(long j=c.r.lo[1];j<c.r.hi[1];++j) for(long i=c.r.lo[0];i<c.r.hi[0];++i) t+=c.a.at(i,j,z)*c.a.at(i,j,z);
      c.eabs=std::sqrt(t)*c.tol*.000001; vc_assume( c.eabs>0 && t>1e-3 );
      for(long z=c.r.lo[2];z<c.r.hi[2];++z) for(long j=c.r.lo[1];j<c.r.hi[1];++j) for(long i=c.r.lo[0];i<c.r.hi[0];++i){ const double u= number ? c.s : c.a.at(i,j,z), v= number ? c.a.at(i,j,z) : c.b.at(i,j,z); vc_assume( std::abs(std::abs(u-v)/(std::abs(u)+c.eabs)-c.tol)>1e-9 ); }
    }
  }
  vc_pre_(); VC_LOOP(c.r); vc_loop_inv_(inv,&c);
  const bool r=ask(c,f,deflt);
  if( deflt && vc_symbolic() ) vc_check( normed==&c.a.f, "the default absolute part is scaled by the norm of the first field" );
  decide(c,r);
}
VC(exact){ cmp(REL,false,true,EQ); }               VC(exact_number){ cmp(REL,true,true,EQ); }
VC(relative){ cmp(REL,false,false,EQ); }           VC(relative_number){ cmp(REL,true,false,EQ); }
VC(relative_not){ cmp(REL,false,false,NE); }       VC(relative_number_not){ cmp(REL,true,false,NE); }
VC(relative_default){ cmp(REL,false,false,EQ,true); }   VC(relative_number_default){ cmp(REL,true,false,EQ,true); }
VC(relative_default_not){ cmp(REL,false,false,NE,true); } VC(relative_number_default_not){ cmp(REL,true,false,NE,true); }
VC(absolute){ cmp(ABS,false,false,EQ); }           VC(absolute_number){ cmp(ABS,true,false,EQ); }
VC(absolute_not){ cmp(ABS,false,false,NE); }       VC(absolute_number_not){ cmp(ABS,true,false,NE); }
VC(absolute_exact){ cmp(ABS,false,true,EQ); }      VC(absolute_number_exact){ cmp(ABS,true,true,NE); }
VC(ulps){ cmp(ULP,false,false,EQ); }               VC(ulps_number){ cmp(ULP,true,false,EQ); }
VC(ulps_not){ cmp(ULP,false,false,NE); }           VC(ulps_number_not){ cmp(ULP,true,false,NE); }
VC(ulps_exact){ cmp(ULP,false,true,EQ); }          VC(ulps_number_exact){ cmp(ULP,true,true,NE); }
// fields with windows of different shape are refused
VC(unequal_size){
  const IntVec d=vcmesh(), e=vcmesh("ex","ey","ez"); const BoundaryCellInfo n=BoundaryCellInfo::build<F>(false,false,false);
  VF<F> a("a",d,VC_GHOST("a",d),n), b("b",e,VC_GHOST("b",e),n);
  vc_assume( !((a.n(0)==b.n(0))&(a.n(1)==b.n(1))&(a.n(2)==b.n(2))) );
  const int k=vc_int("k",0,2); bool threw=false;
  vc_pre_();
  try{ if( k==0 ) field_equal(a.f,b.f,0.1,1.); else if( k==1 ) field_equal_abs(a.f,b.f,0.1); else field_equal_ulp(a.f,b.f,2); } catch( std::runtime_error& ){ threw=true; }
  vc_check( threw, "fields of different size are refused" );
}
