// C11 pointwise assignment
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
#include "fields.h"
typedef XVolField F;   // a staggered type: carries an extra plus-side cell where the domain ends (bc)
static BoundaryCellInfo anybc( const char* n, const IntVec& d ){ return BoundaryCellInfo::build<F>( d[0]>1 ? vc_bool(n) : false, d[1]>1 ? vc_bool("bcy") : false, d[2]>1 ? vc_bool("bcz") : false ); }
static BoundaryCellInfo xbc( const char* n, const IntVec& d ){ return BoundaryCellInfo::build<F>( d[0]>1 ? vc_bool(n) : false, false, false ); }

struct Ctx{ Box r; double s; VF<F> *a,*b,*c; int kind; };
// the value the assignment must give to mesh point (i,j,k) of the assigned region
static double want( const Ctx* x, long i, long j, long k, double old ){
  switch( x->kind ){
    case 0: return x->s;
    case 1: return x->b->old(i,j,k);
    case 2: return x->b->old(i,j,k)*x->s + x->c->old(i,j,k);
    case 3: return old*x->s - x->b->old(i,j,k);
  }
  return x->s;
}
static double rule( void* c, long gx, long gy, long gz, long i, long j, long k, double old ){
  Ctx* x=(Ctx*)c;
  i-=x->a->gm(0); j-=x->a->gm(1); k-=x->a->gm(2);
  return x->r.in(i,j,k) && x->r.done(i,j,k,gx,gy,gz) ? want(x,i,j,k,old) : old;
}
// after the loop: every point of the region has the value, every other allocated cell is as before
static void post( Ctx* x ){
  vc_loop_end_();
  VF<F>& a=*x->a;
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)){
    const long i=p.i-a.gm(0), j=p.j-a.gm(1), k=p.k-a.gm(2);
    const double was=vc_old_at_(a.p,p.i,p.j,p.k), now=vc_at_(a.p,p.i,p.j,p.k);
    if( x->r.in(i,j,k) ) vc_eq( now, want(x,i,j,k,was), "every point of the region holds the value of the expression there" );
    else                 vc_check( now==was, "cells outside the region are unchanged" );
  }
  if( x->b ) VC_FORALL3(p,x->b->n(0),x->b->n(1),x->b->n(2)) vc_check( vc_at_(x->b->p,p.i,p.j,p.k)==vc_old_at_(x->b->p,p.i,p.j,p.k), "operands are not modified" );
}
static void region( Ctx* x, bool ghosts ){
  for(int q=0;q<3;++q){
    VF<F>& a=*x->a;
    if( ghosts ){
      long m=a.gm(q), p=a.gp(q)+a.x(q);
      if( x->b ){ m=vcmin(m,x->b->gm(q)); p=vcmin(p,x->b->gp(q)+x->b->x(q)); }
      if( x->c ){ m=vcmin(m,x->c->gm(q)); p=vcmin(p,x->c->gp(q)+x->c->x(q)); }
      vc_assume( p>=a.x(q) );      // operands reach the boundary cell (the library throws otherwise: see operand_too_short)
      x->r.lo[q]=-m; x->r.hi[q]=a.d[q]+p;
    } else { x->r.lo[q]=0; x->r.hi[q]=a.d[q]+a.x(q); }
  }
  vc_pre_();
  VC_LOOP(x->r);
  vc_array_rule_(x->a->p,rule,x);
}
VC(assign_scalar){
  const IntVec d=vcmesh();
  VF<F> a("a",d,VC_GHOST("a",d),anybc("a_bc",d));
  Ctx c; c.s=vc_real("s"); c.kind=0; c.a=&a; c.b=c.c=0;
  region(&c,true);
  a.f <<= c.s;
  post(&c);
}
VC(assign_field){
  const IntVec d=vcmesh();
  VF<F> a("a",d,VC_GHOST("a",d),anybc("a_bc",d));
  VF<F> b("b",d,VC_GHOST("b",d),anybc("b_bc",d));
  Ctx c; c.kind=1; c.a=&a; c.b=&b; c.c=0;
  region(&c,true);
  a.f <<= b.f;
  post(&c);
}
VC(assign_expression){
  const IntVec d=vcmesh();
  VF<F> a("a",d,VC_GHOST("a",d),xbc("bc",d));
  VF<F> b("b",d,VC_GHOST("b",d),xbc("bc",d));
  VF<F> e("c",d,VC_GHOST("c",d),xbc("bc",d));
  Ctx c; c.kind=2; c.a=&a; c.b=&b; c.c=&e; c.s=vc_real("s");
  region(&c,true);
  a.f <<= b.f*c.s + e.f;
  post(&c);
}
VC(assign_in_place){
  const IntVec d=vcmesh();
  VF<F> a("a",d,VC_GHOST("a",d),xbc("a_bc",d));
  VF<F> b("b",d,VC_GHOST("b",d),xbc("b_bc",d));
  Ctx c; c.kind=3; c.a=&a; c.b=&b; c.c=0; c.s=vc_real("s");
  region(&c,true);
  a.f <<= a.f*c.s - b.f;
  post(&c);
}
VC(assign_interior){
  const IntVec d=vcmesh();
  VF<F> a("a",d,VC_GHOST("a",d),anybc("bc",d));
  VF<F> b("b",d,VC_GHOST("b",d),anybc("bc",d));
  Ctx c; c.kind=1; c.a=&a; c.b=&b; c.c=0;
  region(&c,false);
  interior_assign( a.f, b.f );
  post(&c);
}
// an operand that does not reach the boundary cell of the left hand side is refused, and nothing is written
VC(operand_too_short){
  const IntVec d=vcmesh();
  VF<F> a("a",d,VC_GHOST("a",d),BoundaryCellInfo::build<F>(true,false,false));
  VF<F> b("b",d,VC_GHOST("b",d),BoundaryCellInfo::build<F>(false,false,false));
  vc_assume( d[0]>1 && b.gp(0)==0 );
  vc_pre_();
  bool thrown=false;
  try{ a.f <<= b.f; } catch( std::runtime_error& ){ thrown=true; }
  vc_check( thrown, "assignment from an operand that does not cover the boundary cell throws" );
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)) vc_check( vc_at_(a.p,p.i,p.j,p.k)==vc_old_at_(a.p,p.i,p.j,p.k), "a refused assignment writes nothing" );
}
