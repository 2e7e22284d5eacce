// C22: point gather and scatter use exactly the listed cells
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: PointToField and FieldToPoint on lists of any length, parent fields of any size and any values: gather sets point t to the value of the cell with the t-th index (loop contract over the points); scatter sets the cell of every listed index to its point's value and leaves every other cell (loop predicates over the points). Building the operator keeps the list as given, or the flagged cells of a field in memory order (lists of up to three entries and small flag fields).
//! assume: the list entries are cells of the parent field and, for scatter, no cell is listed twice (both read at the current loop position)
//! bounded: kept_gather_1 lists of one or three entries
//! bounded: kept_gather_3 lists of one or three entries
//! bounded: kept_scatter_1 lists of one or three entries
//! bounded: kept_scatter_3 lists of one or three entries
//! bounded: flagged_gather flag fields of 2x2x1 cells
//! bounded: flagged_scatter flag fields of 1x2x2 cells
#include <climits>
#include <cstring>
#include <map>
#include <set>
#include <vector>
#include <cassert>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <iterator>
#include "nopool.h"
#include "fields.h"
#include <spatialops/pointfield/PointOperators.h>
using namespace SpatialOps::Point;
typedef XVolField F;
// a parent field seen as its memory: n cells; the operators address it by flat index only
struct Parent{
  IntVec d; long n; MemoryWindow w; double* p; F f;
  Parent( const IntVec& dim, long cells=0 ) : d(dim), n( cells ? cells : vc_symbolic() ? long(vc_int("cells",1,1<<30)) : long(d[0])*d[1]*d[2] ), w(d), p(vc_darray_("f",n,1,1)), f(w,BoundaryCellInfo::build<F>(false,false,false),GhostData(0),p,ExternalStorage) {}
  double at( long i ) const { return vc_at_(p,i,0,0); }
  double old( long i ) const { return vc_old_at_(p,i,0,0); }
};
struct Points{
  long n; double* p; PointField f;
  Points( long k ) : n(k), p(vc_darray_("pts",n,1,1)), f(MemoryWindow(IntVec(int(n),1,1)),BoundaryCellInfo::build<PointField>(false,false,false),GhostData(0),p,ExternalStorage) {}
  double at( long i ) const { return vc_at_(p,i,0,0); }
  double old( long i ) const { return vc_old_at_(p,i,0,0); }
};
// an operator whose list has any length (its only member is the list)
template<class Op> struct With{
  const long* a; alignas(16) char raw[sizeof(Op)];
  With( const long* ix, long n ) : a(ix) { new(raw) Op(std::vector<size_t>()); const long* v[3]={a,a+n,a+n}; memcpy(raw,v,sizeof v); }
  Op& op(){ return *(Op*)raw; }
};
struct Ctx{ Parent* f; Points* t; const long* a; long n, pick, cell; };
static double grule( void* c, long g, long, long gz, long i, long, long, double old ){ Ctx* x=(Ctx*)c; return gz>0 || i<g ? x->f->old(x->a[i]) : old; }
static bool inside( void* c, long g, long, long, long, long, long ){ Ctx* x=(Ctx*)c; return (0<=x->a[g]) & (x->a[g]<x->f->n); }
static bool once( void* c, long g, long, long, long, long, long ){ Ctx* x=(Ctx*)c; return (0<=x->a[g]) & (x->a[g]<x->f->n) & ((g==x->pick) | (x->a[g]!=x->a[x->pick])); }
static bool other( void* c, long g, long, long, long, long, long ){ Ctx* x=(Ctx*)c; return (0<=x->a[g]) & (x->a[g]<x->f->n) & (x->a[g]!=x->cell); }
static bool stored( void* c, long g, long, long gz, long, long, long ){ Ctx* x=(Ctx*)c; return ((gz==0) & (g<=x->pick)) | (x->f->at(x->a[x->pick])==x->t->old(x->pick)); }
static bool kept( void* c, long, long, long, long, long, long ){ Ctx* x=(Ctx*)c; return x->f->at(x->cell)==x->f->old(x->cell); }
static IntVec shape(){ const int N=1<<10; if( vc_symbolic() ) return IntVec(2,3,4);   // (not used: the operators see the memory only)
  return IntVec( vc_int("nx",1,N), vc_int("ny",1,N), vc_int("nz",1,N) ); }
struct List{
  long n; long* a;
  List( long cells, bool distinct ) : n(vc_int("npts",1,1<<20)), a(vc_larray_("list",n,1,1)) {
    if( vc_symbolic() ) return;
    if( distinct && n>cells ) n=cells;
    for(long i=0;i<n;++i){ a[i]%=cells; if( distinct ) for(bool again=true;again;){ again=false; for(long j=0;j<i;++j) if( a[j]==a[i] ){ a[i]=(a[i]+1)%cells; again=true; } } }
  }
};
VC(gather){
  Parent f(shape()); List l(f.n,false); Points t(l.n);
  Ctx x; x.f=&f; x.t=&t; x.a=l.a; x.n=l.n;
  vc_assume( 0<=l.a[0] && l.a[0]<f.n );
  With< FieldToPoint<F> > w(l.a,l.n);
  vc_pre_();
  if( l.n>1 ){ vc_loop_space_(l.n,1,1,0); vc_array_rule_(t.p,grule,&x); vc_loop_assume_(inside,&x); }   // (a single point needs no loop contract)
  w.op().apply_to_field(f.f,t.f);
  vc_loop_end_();
  VC_FORALL3(q,l.n,1,1) vc_check( t.at(q.i)==f.old(l.a[q.i]), "a point gets the value of its cell" );
  VC_FORALL3(c,f.n,1,1) vc_check( f.at(c.i)==f.old(c.i), "the parent field is not modified" );
}
static void scatter( Ctx& x, Parent& f, Points& t, List& l, bool one ){
  x.f=&f; x.t=&t; x.a=l.a; x.n=l.n;
  With< PointToField<F> > w(l.a,l.n);
  vc_loop_space_(l.n,1,1,0); vc_loop_inv_(one ? stored : kept,&x); vc_loop_assume_(one ? once : other,&x);
  w.op().apply_to_field(t.f,f.f);
  vc_use_inv_(0,0,0); vc_loop_end_();
}
VC(scatter_listed){
  Parent f(shape()); List l(f.n,true); Points t(l.n);
  Ctx x; x.pick=vc_int("pick",0,l.n-1);
  vc_assume( 0<=l.a[x.pick] && l.a[x.pick]<f.n );
  vc_pre_();
  scatter(x,f,t,l,true);
  vc_check( f.at(l.a[x.pick])==t.old(x.pick), "a listed cell gets the value of its point" );
  VC_FORALL3(q,l.n,1,1) vc_check( t.at(q.i)==t.old(q.i), "the points are not modified" );
}
VC(scatter_others){
  Parent f(shape()); List l(f.n,true); Points t(l.n);
  Ctx x; x.cell=vc_int("cell",0,f.n-1); x.pick=0;
  if( !vc_symbolic() ) for(long i=0;i<l.n;++i) vc_assume( l.a[i]!=x.cell );
  vc_assume( 0<=l.a[0] && l.a[0]<f.n && l.a[0]!=x.cell );
  vc_pre_();
  scatter(x,f,t,l,false);
  vc_check( f.at(x.cell)==f.old(x.cell), "a cell that is not listed keeps its value" );
}
// the built operator, observed through what it does: a gather, and a scatter into zeros
static long n_, ix_[4];
template<class A> static void seen( const FieldToPoint<F>& op, const A& want, long cells ){
  Parent f(IntVec(int(cells),1,1),cells); Points t(n_);
  vc_pre_(); op.apply_to_field(f.f,t.f);
  for(long i=0;i<n_;++i) vc_check( t.at(i)==f.old(want[i]), "the operator uses the cells in the order given" );
}
template<class A> static void seen( const PointToField<F>& op, const A& want, long cells ){
  Parent f(IntVec(int(cells),1,1),cells); Points t(n_);
  vc_pre_(); op.apply_to_field(t.f,f.f);
  for(long i=0;i<n_;++i) vc_check( f.at(want[i])==t.old(i), "the operator uses the cells in the order given" );
}
template<class Op> static void kept_list( int n ){
  n_=n; std::vector<size_t> v; const char* nm[3]={"i0","i1","i2"};
  for(int q=0;q<n;++q){ ix_[q]=vc_int(nm[q],0,99); v.push_back(size_t(ix_[q])); for(int k=0;k<q;++k) vc_assume( ix_[k]!=ix_[q] ); }
  const Op op(v);
  seen(op,ix_,100);
}
VC(kept_gather_1){ kept_list< FieldToPoint<F> >(1); }  VC(kept_gather_3){ kept_list< FieldToPoint<F> >(3); }
VC(kept_scatter_1){ kept_list< PointToField<F> >(1); } VC(kept_scatter_3){ kept_list< PointToField<F> >(3); }
template<class Op> static void flagged( int nx, int ny, int nz ){
  const IntVec d(nx,ny,nz); VF<F> f("flags",d,GhostData(0),BoundaryCellInfo::build<F>(false,false,false));
  const int z= vc_symbolic() ? 0 : vc_int("zeros",0,14);
  n_=0;
  for(int i=0;i<nx*ny*nz;++i){ if( z>>i&1 ) f.p[i]=0; }
  for(int k=0;k<nz;++k) for(int j=0;j<ny;++j) for(int i=0;i<nx;++i) if( f.at(i,j,k)!=0 ) ix_[n_++]=i+nx*(j+ny*k);
  vc_assume( n_>0 );
  const Op op(f.f);
  seen(op,ix_,nx*ny*nz);
}
VC(flagged_gather){ flagged< FieldToPoint<F> >(2,2,1); }
VC(flagged_scatter){ flagged< PointToField<F> >(1,2,2); }
