// staggering table and a generic contract for applying a stencil operator; independent of the library's type algebra
#ifndef VC_STENCIL_H
#define VC_STENCIL_H
#include "fields.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
// position of cell 0 of each field type relative to the center of scalar cell 0, in half cells
template<typename F> struct At;
#define AT(F,a,b,c) template<> struct At<F##Field>{ static int p(int q){ return q==0?a:q==1?b:c; } };
AT(SVol,0,0,0) AT(SSurfX,-1,0,0) AT(SSurfY,0,-1,0) AT(SSurfZ,0,0,-1)
AT(XVol,-1,0,0) AT(XSurfX,0,0,0) AT(XSurfY,-1,-1,0) AT(XSurfZ,-1,0,-1)
AT(YVol,0,-1,0) AT(YSurfX,-1,-1,0) AT(YSurfY,0,0,0) AT(YSurfZ,0,-1,-1)
AT(ZVol,0,0,-1) AT(ZSurfX,-1,0,-1) AT(ZSurfY,0,-1,-1) AT(ZSurfZ,0,0,0)
// source cells next to destination cell 0: on an axis where the locations differ the two cells half a spacing away, else the cell itself
template<typename S,typename D> static inline int adj( int q, int side ){
  const int s=At<S>::p(q), d=At<D>::p(q);
  if( s==d ) return 0;
  // cell c of the source lies at s+2c: c=(d-1-s)/2 below, (d+1-s)/2 above
  return side==0 ? (d-1-s)/2 : (d+1-s)/2;
}
struct Pts{ int n; int o[27][3]; double c[27]; };
template<typename D,typename S> struct SCtx{
  VF<D>* a; VF<S>* b; Pts s; Box r;
  double want( long i, long j, long k ) const {
    double v=0; for(int t=0;t<s.n;++t) v+=s.c[t]*b->old(i+s.o[t][0],j+s.o[t][1],k+s.o[t][2]);
    return v;
  }
  // every stencil point lies in the source
  bool covered( long i, long j, long k ) const {
    const long p[3]={i,j,k}; bool ok=true;
    for(int q=0;q<3;++q){
      int lo=0,hi=0; for(int t=0;t<s.n;++t){ lo=s.o[t][q]<lo?s.o[t][q]:lo; hi=s.o[t][q]>hi?s.o[t][q]:hi; }
      ok=ok & (p[q]+lo>=-b->gm(q)) & (p[q]+hi<b->n(q)-b->gm(q));
    }
    return ok;
  }
};
template<typename D,typename S> static double srule( void* c, long gx, long gy, long gz, long i, long j, long k, double old ){
  SCtx<D,S>* x=(SCtx<D,S>*)c;
  i-=x->a->gm(0); j-=x->a->gm(1); k-=x->a->gm(2);
  return x->r.in(i,j,k) && x->r.done(i,j,k,gx,gy,gz) ? x->want(i,j,k) : old;
}
// boundary flags shared by the two fields (they live on one mesh)
template<typename F> static inline BoundaryCellInfo sbc( const bool* b ){ return BoundaryCellInfo::build<F>(b[0],b[1],b[2]); }
template<typename Op,typename S,typename D> static void applies( const Op& op, const Pts& pts, int full=0 ){
  const IntVec d=vcmesh();
  if( full<=0 ) vc_assume( d[0]>1 && d[1]>1 && d[2]>1 );
  for(int q=0;q<3;++q) for(int t=0;t<pts.n;++t) if( pts.o[t][q]!=0 ){ vc_assume( d[q]>1 ); break; }   // a direction the operator acts in is not collapsed
  bool b[3]; const char* bn[]={"bx","by","bz"};
  // full: a boundary or none on every axis; else only on the axes the operator acts in
  for(int q=0;q<3;++q){ bool act=full>0; for(int t=0;t<pts.n;++t) act=act || pts.o[t][q]!=0; b[q]= act && full>=0 && d[q]>1 ? vc_bool(bn[q]) : false; }
  VF<D> a("a",d,VC_GHOST("a",d),sbc<D>(b));
  VF<S> s("s",d,VC_GHOST("s",d),sbc<S>(b));
  SCtx<D,S> x; x.a=&a; x.b=&s; x.s=pts;
  for(int q=0;q<3;++q){
    int lo=0,hi=0; for(int t=0;t<pts.n;++t){ if( pts.o[t][q]<lo ) lo=pts.o[t][q]; if( pts.o[t][q]>hi ) hi=pts.o[t][q]; }
    const long m=vcmin(a.gm(q),s.gm(q)+lo), p=vcmin(a.gp(q)+a.x(q),s.gp(q)+s.x(q)-hi);
    vc_assume( p>=a.x(q) );       // the source reaches the destination's boundary cell (refused otherwise: see C11 operand_too_short)
    vc_assume( m>=0 && p>=0 );    // the source has the ghosts the interior of the destination needs (asserted by the library)
    x.r.lo[q]=-m; x.r.hi[q]=d[q]+p;
  }
  vc_pre_(); VC_LOOP(x.r); vc_array_rule_(a.p,(vc_rule_t)srule<D,S>,&x);
  op.apply_to_field( s.f, a.f );
  vc_loop_end_();
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)){
    const long i=p.i-a.gm(0), j=p.j-a.gm(1), k=p.k-a.gm(2);
    const double was=vc_old_at_(a.p,p.i,p.j,p.k), now=vc_at_(a.p,p.i,p.j,p.k);
    if( x.covered(i,j,k) ) vc_eq( now, x.want(i,j,k), "a covered cell gets the weighted sum of its neighbours" );
    else                   vc_check( now==was, "a cell whose stencil leaves the source is not set" );
  }
  VC_FORALL3(p,s.n(0),s.n(1),s.n(2)) vc_check( vc_at_(s.p,p.i,p.j,p.k)==vc_old_at_(s.p,p.i,p.j,p.k), "the source is not modified" );
}
template<typename S,typename D> static Pts pts2( double lo, double hi ){
  Pts p; p.n=2; p.c[0]=lo; p.c[1]=hi; for(int q=0;q<3;++q){ p.o[0][q]=adj<S,D>(q,0); p.o[1][q]=adj<S,D>(q,1); } return p;
}
#endif
