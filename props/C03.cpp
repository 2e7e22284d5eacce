// C03: iterators visit every window point once, in order; random access agrees with stepping
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: Whole-field traversals (mutable, const, interior, const interior) carry inferred, proved-inductive loop invariants over arbitrary windows; the loop body increments each visited cell, so the postcondition says every window cell is visited exactly once, the others never, in x-y-z order. Random access and single steps are contracts on the iterator state at an arbitrary position.
#include "fields.h"
typedef SVolField F; typedef F::iterator It; typedef F::const_iterator CIt;
// an array of any shape and an arbitrary window into it
struct W{
  int n[3], o[3], e[3]; double* p; MemoryWindow w;
  static MemoryWindow mk( int*n,int*o,int*e ){
    const int N=1<<20;
    n[0]=vc_int("nx",1,N); n[1]=vc_int("ny",1,N); n[2]=vc_int("nz",1,N);
    o[0]=vc_int("ox",0,n[0]-1); o[1]=vc_int("oy",0,n[1]-1); o[2]=vc_int("oz",0,n[2]-1);
    e[0]=vc_int("ex",1,n[0]-o[0]); e[1]=vc_int("ey",1,n[1]-o[1]); e[2]=vc_int("ez",1,n[2]-o[2]);
    return MemoryWindow( IntVec(n[0],n[1],n[2]), IntVec(o[0],o[1],o[2]), IntVec(e[0],e[1],e[2]) );
  }
  W():w(mk(n,o,e)){ p=vc_darray_("a",n[0],n[1],n[2]); }
  double* addr( long i, long j, long k ) const { return p + ((o[0]+i)+(long)n[0]*((o[1]+j)+(long)n[1]*(o[2]+k))); }
  long pos( long i, long j, long k ) const { return i+e[0]*(j+(long)e[1]*k); }
};
struct Ctx{ Box r; };
static double rule( void* c, long gx, long gy, long gz, long i, long j, long k, double old ){
  Ctx* x=(Ctx*)c; return x->r.in(i,j,k) && x->r.done(i,j,k,gx,gy,gz) ? old+1 : old;
}
static void setup( const W& w, Ctx& c, const MemoryWindow& win ){
  for(int q=0;q<3;++q){ c.r.lo[q]=win.offset()[q]; c.r.hi[q]=win.offset()[q]+win.extent()[q]; }
  vc_pre_(); VC_LOOP(c.r); vc_array_rule_(w.p,rule,&c);
}
static void finish( const W& w, Ctx& c ){
  vc_loop_end_();
  VC_FORALL3(p,w.n[0],w.n[1],w.n[2]){
    const double was=vc_old_at_(w.p,p.i,p.j,p.k), now=vc_at_(w.p,p.i,p.j,p.k);
    if( c.r.in(p.i,p.j,p.k) ) vc_eq( now, was+1, "every point of the window is visited exactly once" );
    else                      vc_check( now==was, "no point outside the window is visited" );
  }
}
static GhostData anyghost( const W& w ){ // the interior window must be non-empty
  int m[3],p[3]; const char* nm[]={"gmx","gmy","gmz"}; const char* np[]={"gpx","gpy","gpz"};
  for(int q=0;q<3;++q){ m[q]= w.e[q]>1 ? vc_int(nm[q],0,w.e[q]-1) : 0; p[q]= w.e[q]>1 ? vc_int(np[q],0,w.e[q]-1-m[q]) : 0; }
  return GhostData( m[0],p[0],m[1],p[1],m[2],p[2] );
}
static BoundaryCellInfo nobc(){ return BoundaryCellInfo::build<F>(false,false,false); }
VC(traverse){
  W w; F f(w.w,nobc(),GhostData(0),w.p,ExternalStorage);
  Ctx c; setup(w,c,w.w);
  It e=f.end(); for( It it=f.begin(); it!=e; ++it ) *it=*it+1;
  finish(w,c);
}
VC(traverse_const){
  W w; F f(w.w,nobc(),GhostData(0),w.p,ExternalStorage); const F& cf=f;
  Ctx c; setup(w,c,w.w);
  CIt e=cf.end(); for( CIt it=cf.begin(); it!=e; ++it ){ double& r=const_cast<double&>(*it); r=r+1; }
  finish(w,c);
}
VC(traverse_interior){
  W w; GhostData g=anyghost(w);
  F f(w.w,nobc(),g,w.p,ExternalStorage);
  MemoryWindow in( w.w.glob_dim(), w.w.offset()+g.get_minus(), w.w.extent()-g.get_minus()-g.get_plus() );
  Ctx c; setup(w,c,in);
  It e=f.interior_end(); for( It it=f.interior_begin(); it!=e; it++ ) *it=*it+1;
  finish(w,c);
}
VC(traverse_const_interior){
  W w; GhostData g=anyghost(w);
  F f(w.w,nobc(),g,w.p,ExternalStorage); const F& cf=f;
  MemoryWindow in( w.w.glob_dim(), w.w.offset()+g.get_minus(), w.w.extent()-g.get_minus()-g.get_plus() );
  Ctx c; setup(w,c,in);
  CIt e=cf.interior_end(); for( CIt it=cf.interior_begin(); it!=e; it++ ){ double& r=const_cast<double&>(*it); r=r+1; }
  finish(w,c);
}
// an iterator at window position (i,j,k): the state every traversal is in at that position (proved by arrives)
template<typename I> static void is_at( I& it, const I& begin, const W& w, long i, long j, long k, const char* addr, const char* loc, const char* cnt ){
  vc_check( &*it==w.addr(i,j,k), addr );
  const IntVec l=it.location();
  vc_check( l[0]==i && l[1]==j && l[2]==k, loc );
  vc_check( it-begin==w.pos(i,j,k), cnt );
}
#define AT(it,b,i,j,k) is_at(it,b,w,i,j,k,"refers to the element at that position","location is that position","distance from begin is the number of steps")
template<typename I> static void arrives(){
  W w; const I b(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  I it=b; it+=(int)w.pos(i,j,k);
  AT(it,b,i,j,k);
}
template<typename I> static void step_up(){
  W w; const I b(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  I it=b; it+=(int)w.pos(i,j,k);
  if( i+1<w.e[0] ){ ++it; AT(it,b,i+1,j,k); }
  else if( j+1<w.e[1] ){ ++it; AT(it,b,0,j+1,k); }
  else if( k+1<w.e[2] ){ ++it; AT(it,b,0,0,k+1); }
  else { ++it; const I e=b+(int)w.w.local_npts(); vc_check( it==e, "stepping off the last point arrives at end" ); vc_check( it-b==(long)w.w.local_npts(), "end is as many steps from begin as the window has points" ); }
}
template<typename I> static void step_down(){
  W w; const I b(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  I it=b; it+=(int)w.pos(i,j,k);
  if( i>0 ){ --it; AT(it,b,i-1,j,k); }
  else if( j>0 ){ --it; AT(it,b,w.e[0]-1,j-1,k); }
  else if( k>0 ){ --it; AT(it,b,w.e[0]-1,w.e[1]-1,k-1); }
}
template<typename I> static void jump(){
  W w; const I b(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  const int i2=vc_int("i2",0,w.e[0]-1), j2=vc_int("j2",0,w.e[1]-1), k2=vc_int("k2",0,w.e[2]-1);
  I it=b; it+=(int)w.pos(i,j,k);
  const int d=(int)(w.pos(i2,j2,k2)-w.pos(i,j,k));
  I a=it; a+=d; AT(a,b,i2,j2,k2);
}
template<typename I> static void jump_back(){
  W w; const I b(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  const int i2=vc_int("i2",0,w.e[0]-1), j2=vc_int("j2",0,w.e[1]-1), k2=vc_int("k2",0,w.e[2]-1);
  I it=b; it+=(int)w.pos(i,j,k);
  const int d=(int)(w.pos(i2,j2,k2)-w.pos(i,j,k));
  I a=it-(-d); AT(a,b,i2,j2,k2);
}
template<typename I> static void equality(){
  W w; const I b(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  const int i2=vc_int("i2",0,w.e[0]-1), j2=vc_int("j2",0,w.e[1]-1), k2=vc_int("k2",0,w.e[2]-1);
  I it=b; it+=(int)w.pos(i,j,k);
  I a=b+(int)w.pos(i2,j2,k2);
  const bool eq=(a==it), ne=(a!=it);
  if( i==i2 && j==j2 && k==k2 ) vc_check( eq && !ne, "iterators at the same position are equal" );
  else                          vc_check( !eq && ne, "iterators at different positions are unequal" );
}
template<typename I> static void order(){
  W w; const I b(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  const int i2=vc_int("i2",0,w.e[0]-1), j2=vc_int("j2",0,w.e[1]-1), k2=vc_int("k2",0,w.e[2]-1);
  I it=b; it+=(int)w.pos(i,j,k);
  I a=b+(int)w.pos(i2,j2,k2);
  const bool lt = k2<k || (k2==k && (j2<j || (j2==j && i2<i)));
  vc_check( (a<it)==lt, "iterators are ordered by position" );
  vc_check( (it>a)==lt, "iterators are ordered by position" );
  vc_check( (a>=it)==!lt, "iterators are ordered by position" );
  vc_check( (it<=a)==!lt, "iterators are ordered by position" );
  vc_check( a-it==w.pos(i2,j2,k2)-w.pos(i,j,k), "difference of iterators is the number of steps between them" );
}
VC(arrive_mutable){ arrives<It>(); }
VC(arrive_const){ arrives<CIt>(); }
VC(next_mutable){ step_up<It>(); }
VC(next_const){ step_up<CIt>(); }
VC(previous_mutable){ step_down<It>(); }
VC(previous_const){ step_down<CIt>(); }
VC(jump_mutable){ jump<It>(); }
VC(jump_const){ jump<CIt>(); }
VC(jump_back_mutable){ jump_back<It>(); }
VC(jump_back_const){ jump_back<CIt>(); }
VC(equal_mutable){ equality<It>(); }
VC(equal_const){ equality<CIt>(); }
VC(order_mutable){ order<It>(); }
VC(order_const){ order<CIt>(); }
VC(offset_access){
  W w; const It b(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  const int i2=vc_int("i2",0,w.e[0]-1), j2=vc_int("j2",0,w.e[1]-1), k2=vc_int("k2",0,w.e[2]-1);
  It it=b; it+=(int)w.pos(i,j,k);
  vc_check( &it[(int)(w.pos(i2,j2,k2)-w.pos(i,j,k))]==w.addr(i2,j2,k2), "offset access refers to the element that many steps away" );
}
VC(const_from_mutable){
  W w; It b(w.p,w.w); const CIt cb(w.p,w.w);
  const int i=vc_int("i",0,w.e[0]-1), j=vc_int("j",0,w.e[1]-1), k=vc_int("k",0,w.e[2]-1);
  b+=(int)w.pos(i,j,k);
  CIt c(b); AT(c,cb,i,j,k);
  ++c; ++b; CIt d(b); vc_check( c==d, "a const iterator made from a mutable one steps the same way" );
}
