// C10: a mask contains exactly the listed points
//! explain: The bit storage of masks (BitField), its iterator and SpatialMask are under contract for arbitrary windows, ghosts and contents: an empty mask has no points; adding a point sets exactly its bit; a list of any length sets exactly the listed bits (loop invariant over the list); reading reports the bit; copies, windowed and reshaped masks and both iteration ranges refer to the same points; ++, --, jumps, indexing and comparison of iterators follow window order from any position; and a masked assignment takes the mask value of the same mesh location for every ghost layout and boundary-cell combination (on three-dimensional meshes: neither or only the mask has boundary cells; loop contracts on the assignment loops).
//! assume: storage comes from Pool<unsigned>, used through the contract "get(n) returns a block of at least n words with arbitrary contents, put takes back a block handed out once" (C08's subject)
//! assume: list_listed and list_unlisted read the precondition on the list (all points inside the window with ghosts; none equal to the point in question) at the current loop position
//! config: serial
//! opt: step_up_post {"weight":5}
//! opt: compare {"weight":4}
//! opt: assign_xyz {"weight":9,"alt":true,"feas_ms":1500}
//! opt: assign_xyz_bc_mask {"weight":9,"alt":true,"feas_ms":1500}
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
#include "nopool.h"
#include <string.h>
#define VC_OPEN_MASKS
#include "mask.h"
typedef XVolField F; typedef ConstMaskIterator It;
// a mask field of arbitrary shape: array of n points per axis, interior window at o with extent e, ghosts g around it
struct Sh{
  int n[3], o[3], e[3], gm[3], gp[3]; MemoryWindow w; GhostData g;
  static MemoryWindow mk( Sh& s, bool whole ){
    const int N=1<<20; static const char* const nn[3]={"nx","ny","nz"}; static const char* const no[3]={"ox","oy","oz"}; static const char* const ne[3]={"ex","ey","ez"};
    static const char* const na[3]={"gmx","gmy","gmz"}; static const char* const nb[3]={"gpx","gpy","gpz"};
    for(int q=0;q<3;++q){
      s.n[q]=vc_int(nn[q],1,N);
      if( whole ){ // the window with ghosts is chosen first, the interior inside it
        const int a=vc_int(no[q],0,s.n[q]-1), e=vc_int(ne[q],1,s.n[q]-a);
        s.gm[q]=vc_int(na[q],0,e-1); s.gp[q]=vc_int(nb[q],0,e-1-s.gm[q]); s.o[q]=a+s.gm[q]; s.e[q]=e-s.gm[q]-s.gp[q];
        continue;
      }
      s.o[q]=vc_int(no[q],0,s.n[q]-1); s.e[q]=vc_int(ne[q],1,s.n[q]-s.o[q]);
      s.gm[q]=vc_int(na[q],0,s.o[q]); s.gp[q]=vc_int(nb[q],0,s.n[q]-s.o[q]-s.e[q]);
    }
    return MemoryWindow( IntVec(s.n[0],s.n[1],s.n[2]), IntVec(s.o[0],s.o[1],s.o[2]), IntVec(s.e[0],s.e[1],s.e[2]) );
  }
  Sh( bool whole=false ) : w(mk(*this,whole)), g(gm[0],gp[0],gm[1],gp[1],gm[2],gp[2]) {}
  IntVec pt( const char* x, const char* y, const char* z ) const { return IntVec( vc_int(x,-gm[0],e[0]+gp[0]-1), vc_int(y,-gm[1],e[1]+gp[1]-1), vc_int(z,-gm[2],e[2]+gp[2]-1) ); }
  bool has( const IntVec& p ) const { bool r=true; for(int q=0;q<3;++q) r=r & (p[q]>=-gm[q]) & (p[q]<e[q]+gp[q]); return r; }
};
// an existing mask with arbitrary contents
struct Mk : Sh{
  BitField b;
  static const std::vector<IntVec>& none( const MemoryWindow& w ){ vcmask::start(); vcmask::room(w,"mask"); static std::vector<IntVec> v; return v; }
  Mk( const char* name="any" ) : b(none(w),w,g,LOCAL_RAM,0) { vc_loop_end_(); vcmask::any_(b.bitValues_,w,name); }
  bool bit( long i, long j, long k ) const { return vcmask::bit(b.bitValues_,w,i,j,k); }
};
VC(created_empty){
  Sh s; vcmask::start(); vcmask::room(s.w,"mask");
  BitField b(std::vector<IntVec>(),s.w,s.g,LOCAL_RAM,0);
  vc_loop_end_();
  VC_FORALL3(q,s.n[0],s.n[1],s.n[2]) vc_check( !vcmask::bit(b.bitValues_,s.w,q.i,q.j,q.k), "a mask without points is empty" );
}
VC(add_one){
  Mk m; const IntVec p=m.pt("px","py","pz");
  const IntVec q=m.pt("qx","qy","qz"); const bool was=m.bit(m.o[0]+q[0],m.o[1]+q[1],m.o[2]+q[2]);
  m.b.add_point(p);
  vc_check( m.bit(m.o[0]+p[0],m.o[1]+p[1],m.o[2]+p[2]), "the added point is in the mask" );
  const bool same=(p[0]==q[0])&(p[1]==q[1])&(p[2]==q[2]);
  const bool now=m.bit(m.o[0]+q[0],m.o[1]+q[1],m.o[2]+q[2]);
  if( !same ) vc_check( now==was, "adding a point leaves the others as they were" );
}
VC(read){
  Mk m; const IntVec p=m.pt("px","py","pz");
  const bool v=m.bit(m.o[0]+p[0],m.o[1]+p[1],m.o[2]+p[2]), r=m.b(p);
  if( v ) vc_check( r, "a point of the mask is reported" ); else vc_check( !r, "a point outside the mask is not reported" );
}
// ---- a list of any length: fake std::vector over an array of 3*n ints
struct List{
  long n; int* a; const Sh* s; int t, q[3]; alignas(8) char raw[sizeof(std::vector<IntVec>)];
  List( const Sh& sh ) : n(vc_int("npts",1,1<<20)), a(vc_iarray_("list",3,n,1)), s(&sh) {
    const IntVec* b=(const IntVec*)a;
    const IntVec* v[3]={b,b+n,b+n}; memcpy(raw,v,sizeof v);
  }
  const std::vector<IntVec>& vec() const { return *(const std::vector<IntVec>*)raw; }
  IntVec at( long i ) const { return IntVec(a[3*i],a[3*i+1],a[3*i+2]); }
  bool is( long i, const int* p ) const { return (a[3*i]==p[0])&(a[3*i+1]==p[1])&(a[3*i+2]==p[2]); }
};
static bool inlist( void* c, long g, long, long, long, long, long ){ List* l=(List*)c; return l->s->has(l->at(g)); }
static bool inlist_not( void* c, long g, long, long, long, long, long ){ List* l=(List*)c; return l->s->has(l->at(g)) & !l->is(g,l->q); }
struct LCtx{ List* l; Mk* m; bool was; };
static bool done_t( void* c, long g, long, long gz, long, long, long ){ LCtx* x=(LCtx*)c; return ((gz==0) & (g<=x->l->t)) | x->m->bit(x->m->o[0]+x->l->q[0],x->m->o[1]+x->l->q[1],x->m->o[2]+x->l->q[2]); }
static bool keeps( void* c, long, long, long, long, long, long ){ LCtx* x=(LCtx*)c; return x->m->bit(x->m->o[0]+x->l->q[0],x->m->o[1]+x->l->q[1],x->m->o[2]+x->l->q[2])==x->was; }
static void fill( Mk& m, List& l, bool avoid ){ // native lists
  if( vc_symbolic() ) return;
  for(long i=0;i<l.n;++i){
    for(int q=0;q<3;++q){ const int r=m.e[q]+m.gm[q]+m.gp[q]; int v=l.a[3*i+q]; v%=r; if(v<0) v+=r; l.a[3*i+q]=v-m.gm[q]; }
    if( avoid ) vc_assume( !l.is(i,l.q) );
  }
}
VC(list_listed){   // entry t of the list is in the mask afterwards
  Mk m; List l(m); l.t=vc_int("t",0,(int)l.n-1); fill(m,l,false);
  const IntVec p=l.at(l.t); vc_assume( m.has(p) ); for(int q=0;q<3;++q) l.q[q]=p[q];
  LCtx c; c.l=&l; c.m=&m;
  vc_loop_space_(l.n,1,1,0); vc_loop_inv_(done_t,&c); vc_loop_assume_(inlist,&l);
  m.b.add_points(l.vec());
  vc_use_inv_(0,0,0); vc_loop_end_();
  vc_check( m.bit(m.o[0]+p[0],m.o[1]+p[1],m.o[2]+p[2]), "every listed point is in the mask" );
}
VC(list_unlisted){ // a point no entry of the list equals stays as it was
  Mk m; List l(m); const IntVec p=m.pt("qx","qy","qz"); for(int q=0;q<3;++q) l.q[q]=p[q];
  fill(m,l,true);
  LCtx c; c.l=&l; c.m=&m; c.was=m.bit(m.o[0]+p[0],m.o[1]+p[1],m.o[2]+p[2]);
  vc_loop_space_(l.n,1,1,0); vc_loop_inv_(keeps,&c); vc_loop_assume_(inlist_not,&l);
  m.b.add_points(l.vec());
  vc_use_inv_(0,0,0); vc_loop_end_();
  vc_check( m.bit(m.o[0]+p[0],m.o[1]+p[1],m.o[2]+p[2])==c.was, "points that are not listed are not added" );
}
// ---- the public mask type: built from a field, read by coordinate, through copies and through other windows
struct Fm{
  IntVec d; VF<F> b; SpatialMask<F> m;
  static const std::vector<IntVec>& none( const MemoryWindow& w ){ vcmask::start(); vcmask::room(w,"mask"); static std::vector<IntVec> v; return v; }
  Fm() : d(vcmesh()), b("b",d,VC_GHOST("b",d),BoundaryCellInfo::build<F>( d[0]>1 ? vc_bool("b_bc") : false, false, false )), m(b.f,none(b.w)) { vc_loop_end_(); vcmask::any(m,"any"); }
  IntVec pt() const { return IntVec( vc_int("px",-b.gm(0),d[0]+b.x(0)+b.gp(0)-1), vc_int("py",-b.gm(1),d[1]+b.gp(1)-1), vc_int("pz",-b.gm(2),d[2]+b.gp(2)-1) ); }
  bool bit( const IntVec& p ) const { return vcmask::bit(m.mask_values(),b.w,p[0]+b.gm(0),p[1]+b.gm(1),p[2]+b.gm(2)); }
};
static void agree( bool a, bool b, const char* in, const char* out ){ if( b ) vc_check( a, in ); else vc_check( !a, out ); }
VC(mask_read){
  Fm x; const IntVec p=x.pt(); const bool v=x.bit(p);
  agree( x.m(p), v, "a mask point is reported in mesh coordinates", "other points are not reported" );
}
VC(mask_copy){
  Fm x; const IntVec p=x.pt(); const bool v=x.bit(p); const SpatialMask<F> c(x.m);
  agree( c(p), v, "a copy has the points of the original", "a copy has no other points" );
  vc_check( c.window_with_ghost()==x.m.window_with_ghost() && c.window_without_ghost()==x.m.window_without_ghost(), "a copy has the windows of the original" );
  for(int q=0;q<3;++q) vc_check( c.get_valid_ghost_data().get_minus(q)==x.m.get_valid_ghost_data().get_minus(q) && c.get_valid_ghost_data().get_plus(q)==x.m.get_valid_ghost_data().get_plus(q)
    && c.get_ghost_data().get_minus(q)==x.m.get_ghost_data().get_minus(q) && c.get_ghost_data().get_plus(q)==x.m.get_ghost_data().get_plus(q) && c.boundary_info().has_extra(q)==x.m.boundary_info().has_extra(q), "a copy has the ghosts and boundary cells of the original" );
}
VC(mask_describes_field){
  Fm x;
  vc_check( x.m.window_with_ghost()==x.b.f.window_with_ghost() && x.m.window_without_ghost()==x.b.f.window_without_ghost(), "a mask has the windows of its field" );
  for(int q=0;q<3;++q) vc_check( x.m.get_valid_ghost_data().get_minus(q)==x.b.f.get_valid_ghost_data().get_minus(q) && x.m.get_valid_ghost_data().get_plus(q)==x.b.f.get_valid_ghost_data().get_plus(q)
    && x.m.get_ghost_data().get_minus(q)==x.b.f.get_ghost_data().get_minus(q) && x.m.get_ghost_data().get_plus(q)==x.b.f.get_ghost_data().get_plus(q) && x.m.boundary_info().has_extra(q)==x.b.f.boundary_info().has_extra(q), "a mask has the ghosts and boundary cells of its field" );
}

// ---- iteration: a mask on an arbitrary window, iterators at arbitrary positions
struct Wm : Sh{
  F f; SpatialMask<F> m;
  static double* room_( const Sh& s ){ return vc_darray_("f",s.n[0],s.n[1],s.n[2]); }
  static MemoryWindow whole( const Sh& s ){ return MemoryWindow( IntVec(s.n[0],s.n[1],s.n[2]), IntVec(s.o[0]-s.gm[0],s.o[1]-s.gm[1],s.o[2]-s.gm[2]), IntVec(s.e[0]+s.gm[0]+s.gp[0],s.e[1]+s.gm[1]+s.gp[1],s.e[2]+s.gm[2]+s.gp[2]) ); }
  Wm( bool b=false ) : Sh(b), f(whole(*this),BoundaryCellInfo::build<F>(false,false,false),g,room_(*this),ExternalStorage), m(f,Fm::none(w)) { vc_loop_end_(); vcmask::any(m,"any"); }
  bool bit( long i, long j, long k ) const { return vcmask::bit(m.mask_values(),w,i,j,k); }
};
struct Win{ int o[3], e[3]; MemoryWindow w;
  static MemoryWindow mk( Win& s, const int* n ){
    s.o[0]=vc_int("wox",0,n[0]-1); s.o[1]=vc_int("woy",0,n[1]-1); s.o[2]=vc_int("woz",0,n[2]-1);
    s.e[0]=vc_int("wex",1,n[0]-s.o[0]); s.e[1]=vc_int("wey",1,n[1]-s.o[1]); s.e[2]=vc_int("wez",1,n[2]-s.o[2]);
    return MemoryWindow( IntVec(n[0],n[1],n[2]), IntVec(s.o[0],s.o[1],s.o[2]), IntVec(s.e[0],s.e[1],s.e[2]) );
  }
  Win( const int* n ) : w(mk(*this,n)) {}
  int pos( int i, int j, int k ) const { return i+e[0]*(j+e[1]*k); }
};
static void begins( const Wm& x, const It& b, const It& e, const MemoryWindow& w ){
  agree( *b, x.bit(w.offset(0),w.offset(1),w.offset(2)), "iteration begins at the first point of the window", "iteration begins at the first point of the window (not in the mask)" );
  vc_check( e-b==(long)w.local_npts(), "end is as many points from begin as the window has" );
}
VC(mask_begin){ Wm x(true); begins(x,x.m.begin(),x.m.end(),x.f.window_with_ghost()); }
VC(mask_interior_begin){ Wm x; begins(x,x.m.interior_begin(),x.m.interior_end(),x.w); }
VC(mask_window_begin){ Wm x; const Win v(x.n); const SpatialMask<F> s(v.w,x.m); vc_check( s.window_with_ghost()==v.w, "a windowed mask has that window" ); begins(x,s.begin(),s.end(),v.w); }
VC(mask_reshape){
  Wm x; const MemoryWindow p=x.f.window_with_ghost(); const Win v(x.n);
  const SpatialMask<F> s=x.m.reshape( v.w.extent()-p.extent(), v.w.offset()-p.offset() );
  vc_check( s.window_with_ghost()==v.w, "reshaping shifts the window and modifies its extent" );
  begins(x,s.begin(),s.end(),v.w);
}
struct Im{ int n[3]; unsigned* p; Win v;
  static int* dim( int* n ){ const int N=1<<20; n[0]=vc_int("nx",1,N); n[1]=vc_int("ny",1,N); n[2]=vc_int("nz",1,N); return n; }
  Im() : v(dim(n)) { p=vc_bitarray_("mask",n[0],n[1],n[2]); }
  It begin() const { return It(p,v.w); }
  It at( int i, int j, int k ) const { It it=begin(); it+=v.pos(i,j,k); return it; }
  void is( const It& it, int i, int j, int k ) const {
    agree( *it, vcmask::bit(p,v.w,v.o[0]+i,v.o[1]+j,v.o[2]+k), "refers to the mask point at that position", "refers to the point at that position (not in the mask)" );
    vc_check( it-begin()==(long)i+v.e[0]*(j+(long)v.e[1]*k), "distance from begin is the number of steps" );
  }
};
#define POS(a,b,c) const int a=vc_int(#a,0,x.v.e[0]-1), b=vc_int(#b,0,x.v.e[1]-1), c=vc_int(#c,0,x.v.e[2]-1)
VC(arrives){ Im x; POS(i,j,k); x.is(x.at(i,j,k),i,j,k); }
static void up( const Im& x, It& it, int i, int j, int k ){
  if( i+1<x.v.e[0] ) x.is(it,i+1,j,k);
  else if( j+1<x.v.e[1] ) x.is(it,0,j+1,k);
  else if( k+1<x.v.e[2] ) x.is(it,0,0,k+1);
  else vc_check( it==x.begin()+(int)x.v.w.local_npts(), "stepping off the last point arrives at end" );
}
static void down( const Im& x, It& it, int i, int j, int k ){
  if( i>0 ) x.is(it,i-1,j,k);
  else if( j>0 ) x.is(it,x.v.e[0]-1,j-1,k);
  else if( k>0 ) x.is(it,x.v.e[0]-1,x.v.e[1]-1,k-1);
}
VC(step_up){ Im x; POS(i,j,k); It it=x.at(i,j,k); ++it; up(x,it,i,j,k); }
VC(step_up_post){ Im x; POS(i,j,k); It it=x.at(i,j,k); const It old=it++; x.is(old,i,j,k); up(x,it,i,j,k); }
VC(step_down){ Im x; POS(i,j,k); vc_assume(i+j+k>0); It it=x.at(i,j,k); --it; down(x,it,i,j,k); }
VC(step_down_post){ Im x; POS(i,j,k); vc_assume(i+j+k>0); It it=x.at(i,j,k); const It old=it--; x.is(old,i,j,k); down(x,it,i,j,k); }
// jumps, from any position to any other: within a row, and to rows before and after
enum Where{ FIRST_ROW, ROW, LATER_ROW, EARLIER_ROW, LATER_PLANE, EARLIER_PLANE };
static int other( const char* n, int v, int e, int rel ){ // rel: same, later, earlier, any
  if( rel==0 ) return v;
  if( rel==3 ) return vc_int(n,0,e-1);
  if( rel==1 ){ vc_assume(v<e-1); return vc_int(n,v+1,e-1); }
  vc_assume(v>0); return vc_int(n,0,v-1);
}
#define POS1(wh) const int i=vc_int("i",0,x.v.e[0]-1), j=wh==FIRST_ROW ? 0 : int(vc_int("j",0,x.v.e[1]-1)), k=wh==FIRST_ROW ? 0 : int(vc_int("k",0,x.v.e[2]-1)); \
  if( wh==ROW ) vc_assume(j+k>0)
#define POS2(wh) const int i2=vc_int("i2",0,x.v.e[0]-1), \
  j2=other("j2",j,x.v.e[1],wh<=ROW ? 0 : wh==LATER_ROW ? 1 : wh==EARLIER_ROW ? 2 : 3), \
  k2=other("k2",k,x.v.e[2],wh==LATER_PLANE ? 1 : wh==EARLIER_PLANE ? 2 : 0)
#define JUMP(name,wh) \
  VC(jump_##name){ Im x; POS1(wh); POS2(wh); It it=x.at(i,j,k); it+=x.v.pos(i2,j2,k2)-x.v.pos(i,j,k); x.is(it,i2,j2,k2); } \
  VC(back_##name){ Im x; POS1(wh); POS2(wh); It it=x.at(i,j,k); it-=x.v.pos(i,j,k)-x.v.pos(i2,j2,k2); x.is(it,i2,j2,k2); } \
  VC(plus_##name){ Im x; POS1(wh); POS2(wh); const It it=x.at(i,j,k); x.is(it+(x.v.pos(i2,j2,k2)-x.v.pos(i,j,k)),i2,j2,k2); } \
  VC(minus_##name){ Im x; POS1(wh); POS2(wh); const It it=x.at(i,j,k); x.is(it-(x.v.pos(i,j,k)-x.v.pos(i2,j2,k2)),i2,j2,k2); } \
  VC(index_##name){ Im x; POS1(wh); POS2(wh); It it=x.at(i,j,k); agree( it[x.v.pos(i2,j2,k2)-x.v.pos(i,j,k)], vcmask::bit(x.p,x.v.w,x.v.o[0]+i2,x.v.o[1]+j2,x.v.o[2]+k2), "indexing reads the mask point that many steps away", "indexing reads the point that many steps away (not in the mask)" ); }
JUMP(first_row,FIRST_ROW) JUMP(row,ROW) JUMP(later_row,LATER_ROW) JUMP(earlier_row,EARLIER_ROW) JUMP(later_plane,LATER_PLANE) JUMP(earlier_plane,EARLIER_PLANE)
VC(compare){ Im x; POS(i,j,k); POS(i2,j2,k2); const It a=x.at(i,j,k), b=x.at(i2,j2,k2); const long p=x.v.pos(i,j,k), q=x.v.pos(i2,j2,k2);
  vc_check( (a==b)==(p==q), "== compares positions" ); vc_check( (a!=b)==(p!=q), "!= compares positions" ); vc_check( (a<b)==(p<q), "< compares positions" );
  vc_check( (a>b)==(p>q), "> compares positions" ); vc_check( (a<=b)==(p<=q), "<= compares positions" ); vc_check( (a>=b)==(p>=q), ">= compares positions" );
  vc_check( b-a==q-p, "difference is the number of steps" );
}
// ---- an assignment of a masked expression takes the mask value of the same mesh location, for every mesh, ghost layout and mask
static BoundaryCellInfo xbc( const char* n, const IntVec& d ){ return BoundaryCellInfo::build<F>( d[0]>1 ? vc_bool(n) : false, false, false ); }
struct MCtx{ VF<F>* a; VF<F>* b; const unsigned* w; double u,v; Box r; int kind; };
static double mrule( void* c, long gx, long gy, long gz, long i, long j, long k, double old ){
  MCtx* x=(MCtx*)c; VF<F>& a=*x->a; VF<F>& b=*x->b;
  i-=a.gm(0); j-=a.gm(1); k-=a.gm(2);
  if( !( x->r.in(i,j,k) && x->r.done(i,j,k,gx,gy,gz) ) ) return old;
  return vcmask::bit(x->w,b.w,i+b.gm(0),j+b.gm(1),k+b.gm(2)) ? x->u : x->v;
}
static void masked( int kind, int flat, int bcs=-1 ){
  IntVec d; for(int q=0;q<3;++q) d[q]= (flat>>q)&1 ? 1 : int(vc_int(q==0?"dx":q==1?"dy":"dz",2,1<<20));
  VF<F> a("a",d,VC_GHOST("a",d),bcs<0 ? xbc("a_bc",d) : BoundaryCellInfo::build<F>(bcs&1,false,false)), b("b",d,VC_GHOST("b",d),bcs<0 ? xbc("b_bc",d) : BoundaryCellInfo::build<F>((bcs>>1)&1,false,false));
  vcmask::start(); vcmask::room(b.w,"mask");
  SpatialMask<F> m(b.f,std::vector<IntVec>());
  vc_loop_end_();
  vcmask::any(m,"any");
  MCtx c; c.a=&a; c.b=&b; c.w=m.mask_values(); c.u=vc_real("u"); c.v=vc_real("v"); c.kind=kind;
  for(int q=0;q<3;++q){
    const long lo=vcmin(a.gm(q),b.gm(q)), hi=vcmin(a.gp(q)+a.x(q),b.gp(q)+b.x(q));
    vc_assume( hi>=a.x(q) );      // the mask reaches the boundary cell (the library throws otherwise)
    c.r.lo[q]=-lo; c.r.hi[q]=a.d[q]+hi;
  }
  vc_pre_(); VC_LOOP(c.r); vc_array_rule_(a.p,mrule,&c);
  if( kind==0 ) a.f <<= cond(m,c.u)(c.v); else a.f <<= cond(!m,c.v)(c.u);
  vc_loop_end_();
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)){
    const long i=p.i-a.gm(0), j=p.j-a.gm(1), k=p.k-a.gm(2);
    const double was=vc_old_at_(a.p,p.i,p.j,p.k), now=vc_at_(a.p,p.i,p.j,p.k);
    if( c.r.in(i,j,k) ){
      if( vcmask::bit(c.w,b.w,i+b.gm(0),j+b.gm(1),k+b.gm(2)) ) vc_check( now==c.u, "mask points take the clause's value" );
      else vc_check( now==c.v, "points outside the mask take the other value" );
    } else vc_check( now==was, "cells outside the region are unchanged" );
  }
}
// one contract per kind of mesh (collapsed axes) and, on a full mesh, boundary cells of assigned field and mask
VC(assign_xyz){ masked(0,0,0); } VC(assign_xyz_bc_mask){ masked(0,0,2); }
VC(assign_yz){ masked(0,1); } VC(assign_xz){ masked(0,2); } VC(assign_z){ masked(0,3); } VC(assign_xy){ masked(0,4); } VC(assign_y){ masked(0,5); } VC(assign_x){ masked(0,6); } VC(assign_point){ masked(0,7); }
VC(assign_not_xy){ masked(1,4); } VC(assign_not_x){ masked(1,6); }
