// C16: multi-threaded evaluation equals serial evaluation
//! config: threads
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: The threaded assignment is cut at the task: NeboField<Resize>::assign (the task body) is under contract for an arbitrary piece of an arbitrary split (sets exactly the cells of its piece, from operands at the same mesh location, posts once); thread_parallel_assign is verified against that contract, with a pool whose contract is "runs every scheduled task exactly once before the wait for it returns": every piece of the split is scheduled exactly once on the serial region, and exactly as many waits follow. Pieces of a split are disjoint and cover the region (C02), so any execution order gives the serial result.
//! assume: the thread pool runs every scheduled task exactly once before the matching wait returns (C26, not applicable)
// contracts of the pool and of the semaphore (replace ThreadPool.h and Semaphore.h in this harness)
#define Field_Expr_ThreadPool_h
#define Nebo_Semaphore_h
#include <set>
#include <vector>
#include "vc.h"
namespace SpatialOps{
  static int g_sched=0, g_wait=0, g_post=0;
  struct Semaphore{
    Semaphore(int v=0):n(v){}
    ~Semaphore(){ vc_check( n==0, "every scheduled piece is waited for" ); }
    void post(){ ++n; ++g_post; }
    void wait(){ vc_check( n>0, "no wait without a scheduled piece" ); --n; ++g_wait; }
    int n;
  };
  struct ThreadPoolFIFO{
    static ThreadPoolFIFO& self(){ static ThreadPoolFIFO p; return p; }
    static int get_pool_capacity(){ return 4; }
    static int get_pool_size(){ return 4; }
    static int resize_pool( int n ){ return n; }
    static int set_pool_capacity( int n ){ return n; }
    static int get_pool_capacity_max(){ return 4; }
    static bool is_thread_parallel(){ return true; }
    template<typename T> void schedule( T const& task ){ T t(task); t(); ++g_sched; }
  };
}
#include "stencil.h"
// ---- callee contract of the task body for the type used in the dispatch contracts: records and checks its arguments
typedef YVolField G;
static struct{ IntVec split, lo, ext; std::set<std::vector<int> >* seen; bool rhs; } g_d;
namespace SpatialOps{
template<> inline NeboConstField<SeqWalk,G> NeboConstField<Resize,G>::init( IntVec const& shift, IntVec const& split, IntVec const& location ) const {
  const MemoryWindow& w=field_.window_with_ghost();
  for(int q=0;q<3;++q) vc_check( (int)w.extent(q)==g_d.ext[q], "the operands of the pieces span the region of the serial assignment" );
  g_d.rhs=true;
  return SeqWalkType(field_);
}
template<> template<> inline void NeboField<Resize,G>::assign< NeboConstField<Resize,G> >( NeboConstField<Resize,G> const& rhs, IntVec const& split, IntVec const& location, Semaphore* s ){
  const MemoryWindow& w=field_.window_with_ghost();
  for(int q=0;q<3;++q){
    vc_check( split[q]==g_d.split[q], "all pieces are pieces of one split" );
    vc_check( 0<=location[q] && location[q]<split[q], "every scheduled piece is a piece of the split" );
    vc_check( (int)w.offset(q)==g_d.lo[q] && (int)w.extent(q)==g_d.ext[q], "the pieces divide the region of the serial assignment" );
  }
  if( vc_symbolic() ) vc_check( location[2]+split[2]*(location[1]+split[1]*location[0])==g_post, "every piece is scheduled once" );
  else{ std::vector<int> v(3); for(int q=0;q<3;++q) v[q]=location[q]; vc_check( g_d.seen->insert(v).second, "every piece is scheduled once" ); }
  rhs.init( IntVec(0,0,0), split, location );
  s->post();
}
}
static void ghostregion( long* m, long* p, bool ghosts, const VF<G>& a, const VF<G>* b ){
  for(int q=0;q<3;++q){
    m[q]=ghosts ? a.gm(q) : 0; p[q]=a.x(q)+(ghosts ? a.gp(q) : 0);
    if( b && ghosts ){ m[q]=vcmin(m[q],b->gm(q)); p[q]=vcmin(p[q],b->gp(q)+b->x(q)); }
    vc_assume( p[q]>=a.x(q) && (!b || b->gp(q)+b->x(q)>=a.x(q)) );
  }
}
static void dispatch( bool ghosts, int nmax ){
  const IntVec d=vcmesh();
  const bool bc=d[1]>1 ? vc_bool("bc") : false;
  VF<G> a("a",d,VC_GHOST("a",d),BoundaryCellInfo::build<G>(false,bc,false)), b("b",d,VC_GHOST("b",d),BoundaryCellInfo::build<G>(false,bc,false));
  long m[3],p[3]; ghostregion(m,p,ghosts,a,&b);
  for(int q=0;q<3;++q){ g_d.lo[q]=a.gm(q)-m[q]; g_d.ext[q]=d[q]+m[q]+p[q]; }
  const int n=vc_int("count",1,nmax); a.f.set_partition_count(n);
  for(int q=2;q>=0;--q) if( vc_case_( n<=g_d.ext[q] ) ) break;    // cases of the proof
  g_d.split=nebo_find_partition(g_d.ext,n);
  std::set<std::vector<int> >* const seen= vc_symbolic() ? 0 : new std::set<std::vector<int> >; g_d.seen=seen; g_d.rhs=false;
  g_sched=g_wait=g_post=0;
  const IntVec s=g_d.split; const long total=(long)s[0]*s[1]*s[2];
  vc_pre_(); vc_loop_space_(s[2],s[1],s[0],0); vc_loop_next_(total,1,1,0);
  if( ghosts ) a.f <<= b.f; else interior_assign(a.f,b.f);
  vc_loop_end_();
  vc_check( g_sched==total && g_post==total, "every piece is scheduled once, and no other" );
  vc_check( g_wait==total, "every scheduled piece is waited for, and no other" );
  VC_FORALL3(c,a.n(0),a.n(1),a.n(2)) vc_check( vc_at_(a.p,c.i,c.j,c.k)==vc_old_at_(a.p,c.i,c.j,c.k), "only the pieces write" );
  delete seen;
}
VC(dispatch_all){ dispatch(true,1<<21); }
VC(dispatch_interior){ dispatch(false,1<<21); }
// ---- the split: fits the region for any requested number of pieces
VC(find_partition){
  const int N=1<<21; const IntVec e( vc_int("ex",1,N), vc_int("ey",1,N), vc_int("ez",1,N) ); const int n=vc_int("count",1,N);
  const IntVec s=nebo_find_partition(e,n);
  for(int q=0;q<3;++q) vc_check( 1<=s[q] && s[q]<=e[q], "a split has no more pieces on an axis than points" );
  if( n==1 ) vc_check( nebo_partition_count(s)==1, "one partition is the whole region" );
}
VC(next_partition){
  const int N=100; const IntVec s( vc_int("sx",1,N), vc_int("sy",1,N), vc_int("sz",1,N) );
  const int total=nebo_partition_count(s);
  vc_check( total==s[0]*s[1]*s[2], "the number of pieces is that of the split" );
  if( vc_symbolic() ){
    const IntVec l( vc_int("lx",0,s[0]-1), vc_int("ly",0,s[1]-1), vc_int("lz",0,s[2]-1) );
    const bool last= l[0]==s[0]-1 && l[1]==s[1]-1 && l[2]==s[2]-1;
    const IntVec n=nebo_next_partition(l,s);
    if( !last ){
      for(int q=0;q<3;++q) vc_check( 0<=n[q] && n[q]<s[q], "the next piece is a piece of the split" );
      vc_check( n[2]+s[2]*(n[1]+s[1]*n[0])==1+l[2]+s[2]*(l[1]+s[1]*l[0]), "the pieces are enumerated without gap or repetition" );
    }
  } else if( total<=100000 ){
    std::set<std::vector<int> > seen; IntVec l(0,0,0);
    for(int c=0;c<total;++c){
      std::vector<int> v(3); for(int q=0;q<3;++q){ v[q]=l[q]; vc_check( 0<=l[q] && l[q]<s[q], "the next piece is a piece of the split" ); }
      vc_check( seen.insert(v).second, "the pieces are enumerated without gap or repetition" );
      l=nebo_next_partition(l,s);
    }
  }
}
// ---- the task body
typedef XVolField F;
struct PCtx{ VF<F>*a,*b,*c; Box r; double s; int kind;
  double want( long i,long j,long k,double old ) const {
    if( kind==0 ) return b->old(i,j,k)*s+c->old(i,j,k);
    if( kind==1 ) return old*s-b->old(i,j,k);
    return s;
  } };
static double prule( void* c, long gx, long gy, long gz, long i, long j, long k, double old ){
  PCtx* x=(PCtx*)c; i-=x->a->gm(0); j-=x->a->gm(1); k-=x->a->gm(2);
  return x->r.in(i,j,k) && x->r.done(i,j,k,gx,gy,gz) ? x->want(i,j,k,old) : old;
}
// piece number l of split s of region [-m,d+p)
template<typename V> static void piece( const V& a, const long* m, const long* p, const IntVec& s, const IntVec& l, Box& r ){
  IntVec o,e; for(int q=0;q<3;++q){ o[q]=a.gm(q)-m[q]; e[q]=a.d[q]+m[q]+p[q]; }
  const MemoryWindow w=MemoryWindow(a.w.glob_dim(),o,e).refine(s,l);
  for(int q=0;q<3;++q){ r.lo[q]=(long)w.offset(q)-a.gm(q); r.hi[q]=r.lo[q]+w.extent(q); }
}
template<typename V> static void anysplit( int ax, const V& a, const long* m, const long* p, IntVec& s, IntVec& l ){
  s=IntVec(1,1,1); l=IntVec(0,0,0);
  s[ax]=vc_int("split",1,a.d[ax]+m[ax]+p[ax]); l[ax]=vc_int("loc",0,s[ax]-1);
}
template<typename V> static void posted( const V&, Semaphore& s ){ vc_check( s.n==1 && g_post==1, "a piece reports its completion exactly once" ); s.n=0; }
static void run_piece( int kind, int ax ){
  const IntVec d=vcmesh();
  const bool bc=ax==0 && d[0]>1 ? vc_bool("bc") : false; const BoundaryCellInfo bi=BoundaryCellInfo::build<F>(bc,false,false);
  VF<F> a("a",d,VC_GHOST("a",d),bi), b("b",d,VC_GHOST("b",d),bi), c("c",d,VC_GHOST("c",d),bi);
  PCtx x; x.a=&a; x.b=&b; x.c=&c; x.s=vc_real("s"); x.kind=kind;
  // the region: any ghosts all of them have
  long m[3],p[3]; const char* mn[]={"mx","my","mz"}; const char* pn[]={"px","py","pz"};
  for(int q=0;q<3;++q){ m[q]=vc_int(mn[q],0,vcmin(a.gm(q),vcmin(b.gm(q),c.gm(q)))); p[q]=a.x(q)+vc_int(pn[q],0,vcmin(a.gp(q),vcmin(b.gp(q),c.gp(q)))); }
  IntVec s,l; anysplit(ax,a,m,p,s,l); piece(a,m,p,s,l,x.r);
  F la(a.f); la.reset_valid_ghosts( GhostData(m[0],p[0]-a.x(0),m[1],p[1]-a.x(1),m[2],p[2]-a.x(2)) );
  const IntVec M(m[0],m[1],m[2]), P(p[0],p[1],p[2]);
  Semaphore sem(0); g_post=0;
  vc_pre_(); VC_LOOP(x.r); vc_array_rule_(a.p,prule,&x);
  NeboField<Resize,F> lhs(la);
  if( kind==0 )      lhs.assign( (b.f*x.s+c.f).expr().resize(M,P), s, l, &sem );
  else if( kind==1 ) lhs.assign( (a.f*x.s-b.f).expr().resize(M,P), s, l, &sem );
  else               lhs.assign( NeboScalar<Initial,double>(x.s).resize(M,P), s, l, &sem );
  vc_loop_end_();
  posted(a,sem);
  VC_FORALL3(t,a.n(0),a.n(1),a.n(2)){
    const long i=t.i-a.gm(0), j=t.j-a.gm(1), k=t.k-a.gm(2);
    const double was=vc_old_at_(a.p,t.i,t.j,t.k), now=vc_at_(a.p,t.i,t.j,t.k);
    if( x.r.in(i,j,k) ) vc_eq( now, x.want(i,j,k,was), "every cell of the piece holds the value of the expression there" );
    else                vc_check( now==was, "a piece writes no cell outside itself" );
  }
  VC_FORALL3(t,b.n(0),b.n(1),b.n(2)) vc_check( vc_at_(b.p,t.i,t.j,t.k)==vc_old_at_(b.p,t.i,t.j,t.k), "a piece does not modify its operands" );
}
VC(piece_expression_x){ run_piece(0,0); }
VC(piece_expression_y){ run_piece(0,1); }
VC(piece_expression_z){ run_piece(0,2); }
VC(piece_in_place_z){ run_piece(1,2); }
VC(piece_scalar_z){ run_piece(2,2); }
// a stencil operator: the piece reads the operand beyond its own boundary, as the serial walk does
template<typename Op,typename S,typename D> static void stencil_piece( const Op& op, const Pts& pts, int ax ){
  const IntVec d=vcmesh(); vc_assume( d[0]>1 && d[1]>1 && d[2]>1 );
  VF<D> a("a",d,VC_GHOST("a",d),BoundaryCellInfo::build<D>(false,false,false));
  VF<S> b("s",d,VC_GHOST("s",d),BoundaryCellInfo::build<S>(false,false,false));
  SCtx<D,S> x; x.a=&a; x.b=&b; x.s=pts;
  long m[3],p[3];
  for(int q=0;q<3;++q){
    int lo=0,hi=0; for(int t=0;t<pts.n;++t){ if( pts.o[t][q]<lo ) lo=pts.o[t][q]; if( pts.o[t][q]>hi ) hi=pts.o[t][q]; }
    m[q]=vcmin(a.gm(q),b.gm(q)+lo); p[q]=vcmin(a.gp(q),b.gp(q)-hi); vc_assume( m[q]>=0 && p[q]>=0 );
  }
  IntVec s,l; anysplit(ax,a,m,p,s,l); piece(a,m,p,s,l,x.r);
  D la(a.f); la.reset_valid_ghosts( GhostData(m[0],p[0],m[1],p[1],m[2],p[2]) );
  const IntVec M(m[0],m[1],m[2]), P(p[0],p[1],p[2]);
  Semaphore sem(0); g_post=0;
  vc_pre_(); VC_LOOP(x.r); vc_rule_t rule=srule<D,S>; vc_array_rule_(a.p,rule,&x);
  NeboField<Resize,D> lhs(la);
  lhs.assign( op(b.f).expr().resize(M,P), s, l, &sem );
  vc_loop_end_();
  posted(a,sem);
  VC_FORALL3(t,a.n(0),a.n(1),a.n(2)){
    const long i=t.i-a.gm(0), j=t.j-a.gm(1), k=t.k-a.gm(2);
    const double was=vc_old_at_(a.p,t.i,t.j,t.k), now=vc_at_(a.p,t.i,t.j,t.k);
    if( x.r.in(i,j,k) ) vc_eq( now, x.want(i,j,k), "every cell of the piece holds the value of the expression there" );
    else                vc_check( now==was, "a piece writes no cell outside itself" );
  }
  VC_FORALL3(t,b.n(0),b.n(1),b.n(2)) vc_check( vc_at_(b.p,t.i,t.j,t.k)==vc_old_at_(b.p,t.i,t.j,t.k), "a piece does not modify its operands" );
}
VC(piece_stencil_z){
  typedef OperatorTypeBuilder<Gradient,SVolField,SSurfZField>::type Op;
  const double lo=vc_real("lo"), hi=vc_real("hi");
  Pts p=pts2<SVolField,SSurfZField>(lo,hi);
  stencil_piece<Op,SVolField,SSurfZField>( Op( build_two_point_coef_collection(lo,hi) ), p, 2 );
}
VC(piece_stencil_y){
  typedef OperatorTypeBuilder<Divergence,ZSurfYField,ZVolField>::type Op;
  const double lo=vc_real("lo"), hi=vc_real("hi");
  Pts p=pts2<ZSurfYField,ZVolField>(lo,hi);
  stencil_piece<Op,ZSurfYField,ZVolField>( Op( build_two_point_coef_collection(lo,hi) ), p, 1 );
}
