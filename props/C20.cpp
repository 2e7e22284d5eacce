// C20: polynomial interpolation reproduces polynomials
//! explain: get_interp_coefs_indices, get_derivative_coefs_indices, LagrangeInterpolant::value and LagrangeDerivative::value for data of any length (strictly increasing abscissae), any evaluation point and orders one to three: the points used are a contiguous run of order+1 points inside the data around the evaluation point, and each coefficient is the Lagrange basis polynomial (or its derivative) of that run. Lemmas (polynomial identities) show that these coefficients sum to one (zero) and reproduce every polynomial up to the order (its derivative) exactly.
//! assume: std::lower_bound by its contract (first position whose entry is not below the value), not its body
//! assume: real arithmetic instead of floating point
//! bounded: made_interp construction from data of four points
//! bounded: made_deriv construction from data of four points
#include <vector>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <iostream>
#include <iterator>
#include "vc.h"
typedef __gnu_cxx::__normal_iterator<const double*, std::vector<double> > It;
static const double* xb_; static long n_, p_; static double x_;
#ifdef VC_SYMBOLIC
namespace std{
  // the contract of std::lower_bound on the (sorted) abscissae: position p_ with x[p-1] < v <= x[p]
  template<> inline It lower_bound<It,double>( It b, It e, const double& v ){
    vc_check( &*b==xb_, "the search starts at the first abscissa" ); vc_check( e-b==n_, "the search covers all abscissae" ); vc_check( v==x_, "the search is for the evaluation point" );
    return b+p_;
  }
}
#endif
#include <spatialops/SpatialOpsConfigure.h>
#define private public
#define class struct
#include <spatialops/structured/onedim/LagrangePoly.h>
#undef private
#undef class
#include <spatialops/structured/onedim/LagrangePoly.cpp>

// data of any length: n abscissae (strictly increasing: instances on the four points around the search position), ordinates, evaluation point
// where: 0,1 the first positions, 2 anywhere inside, 3,4 the last positions;  n==0: any length of four or more
struct Data{
  long n; double *x, *y, xe; long p, b;
  Data( int len, int where, bool node=false ) : n(len ? len : vc_int("n",4,1<<20)), x(vc_darray_("x",n,1,1)), y(vc_darray_("y",n,1,1)) {
    if( !vc_symbolic() ){
      x[0]=std::floor(x[0]); for(long i=0;i<n;++i) y[i]=std::floor(8*y[i])/8;
      for(long i=1;i<n;++i) x[i]=x[i-1]+0.25*( 1+std::floor(3.9*std::fabs(x[i]-std::floor(x[i]))) );
      xe = std::floor(16*vc_real("xe"))/16; const long q=vc_int("q",0,4*n+4); if( q>3 ){ const long c=(q/4)%n; xe = q%4==0 || node ? x[c] : x[c]+ (q%4)*0.25*( c+1<n ? x[c+1]-x[c] : 1 ); } else if( node ) xe=x[0];
      p=std::lower_bound(x,x+n,xe)-x; b=0; return;
    }
    p = where==0 ? 0 : where==1 ? 1 : where==3 ? n-1 : where==4 ? n : len ? len-1 : long(vc_int("p",2,1<<20));
    if( !len && where==2 ) vc_assume( p<=n-2 );
    b = len || where<2 ? 0 : where==2 ? p-2 : n-4;
    const int m= len && len<4 ? len : 4;
    for(int i=0;i+1<m;++i) vc_assume( x[b+i]<x[b+i+1] );
    if( node ) xe=x[p]; else xe=vc_real("xe");
    if( where>0 ) vc_assume( x[p-1]<xe );
    if( where<4 && !(len && p==len) ) vc_assume( !(x[p]<xe) );
    xb_=x; n_=n; p_=p; x_=xe;
  }
};
template<class T> struct Raw{ alignas(16) char raw[sizeof(T)]; T& ref(){ return *(T*)raw; } };   // never destroyed: its vectors are views
static void put( const std::vector<double>& v, double* a, long n ){ double* w[3]={a,a+n,a+n}; memcpy((void*)&v,w,sizeof w); }
// expected coefficient of the k-th of m points starting at x, at e: numerator and denominator
static double den( const double* x, int m, int k ){ double d=1; for(int i=0;i<m;++i) if( i!=k ) d*=x[k]-x[i]; return d; }
static double basis( const double* x, int m, int k, double e ){ double d=1; for(int i=0;i<m;++i) if( i!=k ) d*=(e-x[i])/(x[k]-x[i]); return d; }
static double num( const double* x, int m, int k, double e ){ double d=1; for(int i=0;i<m;++i) if( i!=k ) d*=e-x[i]; return d; }
static double dnum( const double* x, int m, int k, double e ){ double s=0;
  for(int j=0;j<m;++j) if( j!=k ){ double d=1; for(int i=0;i<m;++i) if( i!=k && i!=j ) d*=e-x[i]; s+=d; }
  return s; }
static void around( const Data& d, int o, long s ){
  const int m=o+1;
  vc_check( s>=0 && s+m<=d.n, "the run lies inside the data" );
  // away from the ends the evaluation point lies in the middle of the run
  if( s>0 && s+m<d.n ){
    if( m%2==0 ){ vc_check( d.x[s+m/2-1]<d.xe, "half of the run lies below the point" ); vc_check( d.xe<=d.x[s+m/2], "half of the run lies above the point" ); }
    else{ const double lo=d.x[s+m/2-1], c=d.x[s+m/2], hi=d.x[s+m/2+1];
      vc_check( d.xe-c<=hi-d.xe, "the middle of the run is the point closest from below" ); vc_check( c-d.xe<=d.xe-lo, "the middle of the run is the point closest from above" ); }
  }
  // at an end the run is the one next to it: the ideal run would have stuck out or lie there
  else if( m%2==0 ){
    if( s+m<d.n ) vc_check( d.xe<=d.x[s+m/2], "the run at the lower end is not left of the point" );
    if( s>0 ) vc_check( d.x[s+m/2-1]<d.xe, "the run at the upper end is not right of the point" );
  } else {
    if( s+m<d.n ) vc_check( d.xe-d.x[s+m/2]<=d.x[s+m/2+1]-d.xe, "the run at the lower end is not left of the point" );
    if( s>0 ) vc_check( d.x[s+m/2]-d.xe<=d.xe-d.x[s+m/2-1], "the run at the upper end is not right of the point" );
  }
}
template<bool D> static void coefs( int o, int len, int where ){
  if( !vc_symbolic() && len && len<o+1 ) len=o+1;
  Data d(len,where);
  Raw<LagrangeCoefficients> r; std::vector<double> none; new(r.raw) LagrangeCoefficients(none); LagrangeCoefficients& lc=r.ref();
  put(lc.xpts_,d.x,d.n);
  std::vector<double> c; std::vector<int> ix; c.reserve(8); ix.reserve(8);
  c.push_back(7); ix.push_back(7);   // stale contents
  if( D ) lc.get_derivative_coefs_indices(d.xe,o,c,ix); else lc.get_interp_coefs_indices(d.xe,o,c,ix);
  const int m=o+1;
  vc_check( c.size()==size_t(m) && ix.size()==size_t(m), "order+1 points are used" );
  const long s=ix[0];
  around(d,o,s);
  for(int k=0;k<m;++k) vc_check( ix[k]==s+k, "the points are a contiguous run" );
  for(int k=0;k<m;++k){
    const double w= D ? dnum(d.x+s,m,k,d.xe)/den(d.x+s,m,k) : basis(d.x+s,m,k,d.xe);
    vc_eq( c[k], w, "a coefficient is the basis polynomial of its point" );
  }
}
// values: the interpolant and its derivative at a point
template<class L> static void give( L& l, const Data& d ){ put(l.coefs_.xpts_,d.x,d.n); put(l.ypts_,d.y,d.n); }
template<class L,bool D> static void values( int o, int len, int where, bool node, bool deflt ){
  if( !vc_symbolic() && len && len<o+1 ) len=o+1;
  Data d(len,where,node);
  Raw<L> r; std::vector<double> none; if( deflt && o==2 ) new(r.raw) L(none,none); else new(r.raw) L(none,none, deflt ? o : o==1 ? 3 : 1); L& l=r.ref();
  give(l,d);
  l.coefVals_.reserve(8); l.indices_.reserve(8);
  const double v= deflt ? l.value(d.xe) : l.value(d.xe,o);
  const int m=o+1;
  if( node ){ vc_eq( v, d.y[d.p], "the interpolant passes through its points" ); return; }
  const long s=l.indices_[0]; double w=0;
  for(int k=0;k<m;++k) w+=d.y[s+k]*( D ? dnum(d.x+s,m,k,d.xe)/den(d.x+s,m,k) : basis(d.x+s,m,k,d.xe) );
  vc_eq( v, w, "the value is the sum of ordinates times basis polynomials" );
  std::vector<double> c; std::vector<int> ix; c.reserve(8); ix.reserve(8);
  l.get_coefs_indices(d.xe,o,c,ix);
  vc_check( c.size()==size_t(m) && ix.size()==size_t(m), "the coefficients reported are those of the run" );
  double u=0; for(int k=0;k<m;++k) u+=d.y[ix[k]]*c[k];
  vc_eq( u, w, "the reported coefficients give the value" );
}
#define CLASSES(N,O,CALL) \
  VC(N##_first){ CALL(O,0,0); } VC(N##_second){ CALL(O,0,1); } VC(N##_inside){ CALL(O,0,2); } VC(N##_last){ CALL(O,0,3); } VC(N##_beyond){ CALL(O,0,4); }
#define SMALL(N,O,LEN,CALL) \
  VC(N##_s##LEN##_first){ CALL(O,LEN,0); } VC(N##_s##LEN##_second){ CALL(O,LEN,1); } VC(N##_s##LEN##_last){ CALL(O,LEN,3); } VC(N##_s##LEN##_beyond){ CALL(O,LEN,4); }
#define IC(O,L,W) coefs<false>(O,L,W)
#define DC(O,L,W) coefs<true>(O,L,W)
#define IV(O,L,W) values<LagrangeInterpolant,false>(O,L,W,false,false)
#define DV(O,L,W) values<LagrangeDerivative,true>(O,L,W,false,false)
#define IE(O,L,W) values<LagrangeInterpolant,false>(O,L,W,false,true)
#define DE(O,L,W) values<LagrangeDerivative,true>(O,L,W,false,true)
#define IN(O,L,W) values<LagrangeInterpolant,false>(O,L,W,true,false)
CLASSES(interp1,1,IC) CLASSES(interp2,2,IC) CLASSES(interp3,3,IC) SMALL(interp1,1,2,IC) SMALL(interp1,1,3,IC) SMALL(interp2,2,3,IC)
CLASSES(deriv1,1,DC)  CLASSES(deriv2,2,DC)  CLASSES(deriv3,3,DC)  SMALL(deriv1,1,2,DC)  SMALL(deriv1,1,3,DC)  SMALL(deriv2,2,3,DC)
CLASSES(value1,1,IV) CLASSES(value2,2,IV) CLASSES(value3,3,IV) CLASSES(dvalue1,1,DV) CLASSES(dvalue2,2,DV) CLASSES(dvalue3,3,DV)
VC(default_value1){ IE(1,0,2); } VC(default_value2){ IE(2,0,2); } VC(default_dvalue2){ DE(2,0,2); } VC(default_dvalue3){ DE(3,0,2); }
#define NODES(N,O) VC(N##_first){ IN(O,0,0); } VC(N##_second){ IN(O,0,1); } VC(N##_inside){ IN(O,0,2); } VC(N##_last){ IN(O,0,3); }
NODES(node1,1) NODES(node2,2) NODES(node3,3)
// lemmas, free of division: with coefficients num/den (den nonzero), multiply by all denominators
template<bool D> static void lemma( int o ){
  if( !vc_symbolic() ) return;   // exact identities
  const int m=o+1; double x[4]; const double e=vc_real("e"); const char* nm[4]={"x0","x1","x2","x3"}; for(int i=0;i<m;++i) x[i]=vc_real(nm[i]);
  double all=1; for(int k=0;k<m;++k) all*=den(x,m,k);
  double p=1, q=0;      // e^t and its derivative
  for(int t=0;t<=o;++t){
    double s=0;
    for(int k=0;k<m;++k){
      double r= D ? dnum(x,m,k,e) : num(x,m,k,e); for(int i=0;i<m;++i) if( i!=k ) r*=den(x,m,i);
      for(int i=0;i<t;++i) r*=x[k];
      s+=r;
    }
    vc_eq( s, ( D ? q : p )*all, "the coefficients reproduce the monomial" );
    q=q*e+p; p*=e;
  }
}
VC(lemma_interp1){ lemma<false>(1); } VC(lemma_interp2){ lemma<false>(2); } VC(lemma_interp3){ lemma<false>(3); }
VC(lemma_deriv1){ lemma<true>(1); }   VC(lemma_deriv2){ lemma<true>(2); }   VC(lemma_deriv3){ lemma<true>(3); }
// construction keeps the data
static void data4( std::vector<double>& x, std::vector<double>& y ){ const char *a[4]={"x0","x1","x2","x3"}, *b[4]={"y0","y1","y2","y3"};
  for(int i=0;i<4;++i){ x.push_back(vc_real(a[i])); y.push_back(vc_real(b[i])); } }
template<class L> static void made(){
  std::vector<double> x,y; data4(x,y); const L l(x,y);
  vc_check( l.ypts_.size()==4 && l.coefs_.get_x().size()==4, "all points are kept" );
  for(int i=0;i<4;++i){ vc_check( l.ypts_[i]==y[i], "the ordinates are kept" ); vc_check( l.coefs_.get_x()[i]==x[i], "the abscissae are kept" ); }
  const LagrangeCoefficients c(&x[0],&x[0]+4);
  vc_check( c.get_x().size()==4, "all points are kept" ); for(int i=0;i<4;++i) vc_check( c.get_x()[i]==x[i], "the abscissae are kept" );
}
VC(made_interp){ made<LagrangeInterpolant>(); } VC(made_deriv){ made<LagrangeDerivative>(); }
