// C06: views alias cells and keep their own ghosts
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: Views are put into an arbitrary reachable state (any valid ghost counts up to the allocated ones); copy, reset and reshape are under contract on that state, so their contracts compose over histories. Whole-field assignment carries a frame condition.
#include "fields.h"
typedef XVolField F;
static BoundaryCellInfo anybc( const IntVec& d ){ return BoundaryCellInfo::build<F>( d[0]>1 ? vc_bool("bc") : false, false, false ); }
// valid ghosts up to the allocated ones
static GhostData sub( const VF<F>& a, const char* const* n ){
  return GhostData( vc_int(n[0],0,a.gm(0)), vc_int(n[1],0,a.gp(0)), vc_int(n[2],0,a.gm(1)), vc_int(n[3],0,a.gp(1)), vc_int(n[4],0,a.gm(2)), vc_int(n[5],0,a.gp(2)) );
}
static const char* const V[]={"vmx","vpx","vmy","vpy","vmz","vpz"};
static const char* const U[]={"umx","upx","umy","upy","umz","upz"};
// f shows exactly the interior and the ghosts v of a
static void shows( F& f, const VF<F>& a, const GhostData& v ){
  const MemoryWindow& w=f.window_with_ghost();
  for(int q=0;q<3;++q){
    vc_check( (int)w.glob_dim(q)==a.n(q), "a view keeps the allocation as parent" );
    vc_check( (int)w.offset(q)==a.gm(q)-v.get_minus(q), "a view starts at its first valid ghost" );
    vc_check( (int)w.extent(q)==(a.d[q]>1 ? a.d[q]+a.x(q) : 1)+v.get_minus(q)+v.get_plus(q), "a view shows exactly the interior and its valid ghosts" );
    vc_check( (int)f.window_without_ghost().offset(q)==a.gm(q) && (int)f.window_without_ghost().extent(q)==(a.d[q]>1 ? a.d[q]+a.x(q) : 1), "the interior is the same through every view" );
  }
  vc_check( f.get_valid_ghost_data()==v, "a view reports the ghosts it was given" );
  vc_check( f.get_ghost_data()==a.g, "the total ghosts never change" );
  vc_check( f.field_values()==a.p, "a view refers to the same memory" );
  vc_check( f.boundary_info().has_bc()==a.bc.has_bc() && f.boundary_info().has_extra()==a.bc.has_extra(), "a view keeps the boundary information" );
}
VC(reset){
  const IntVec d=vcmesh(); VF<F> a("a",d,VC_GHOST("a",d),anybc(d));
  const GhostData v=sub(a,V), u=sub(a,U);
  a.f.reset_valid_ghosts(v); shows(a.f,a,v);
  a.f.reset_valid_ghosts(u); shows(a.f,a,u);
}
VC(copy){
  const IntVec d=vcmesh(); VF<F> a("a",d,VC_GHOST("a",d),anybc(d));
  const GhostData v=sub(a,V), u=sub(a,U);
  a.f.reset_valid_ghosts(v);
  F h(a.f); shows(h,a,v);
  h.reset_valid_ghosts(u);
  shows(h,a,u); shows(a.f,a,v);
  a.f.reset_valid_ghosts(a.g);
  shows(h,a,u); shows(a.f,a,a.g);
}
VC(same_cell){
  const IntVec d=vcmesh(); VF<F> a("a",d,VC_GHOST("a",d),anybc(d));
  const GhostData v=sub(a,V), u=sub(a,U);
  F f(a.f), h(a.f); f.reset_valid_ghosts(v); h.reset_valid_ghosts(u);
  // a mesh point both views show
  int p[3]; const char* n[]={"i","j","k"};
  for(int q=0;q<3;++q){
    const int lo=-vcmin(v.get_minus(q),u.get_minus(q)), hi=(a.d[q]>1?a.d[q]+a.x(q):1)+vcmin(v.get_plus(q),u.get_plus(q));
    p[q]=vc_int(n[q],lo,hi-1);
  }
  double* const at=a.p+(p[0]+a.gm(0)+(long)a.n(0)*(p[1]+a.gm(1)+(long)a.n(1)*(p[2]+a.gm(2))));
  const IntVec pf(p[0]+v.get_minus(0),p[1]+v.get_minus(1),p[2]+v.get_minus(2)), ph(p[0]+u.get_minus(0),p[1]+u.get_minus(1),p[2]+u.get_minus(2));
  const F& cf=f;
  vc_check( &f(pf)==at && &h(ph)==at, "indexing refers to the same cell through every view" );
  vc_check( &f(pf[0],pf[1],pf[2])==at, "indexing refers to the same cell through every view" );
  vc_check( &cf(pf)==at && &cf(pf[0],pf[1],pf[2])==at, "indexing refers to the same cell through every view" );
  const long flat=p[0]+a.gm(0)+(long)a.n(0)*(p[1]+a.gm(1)+(long)a.n(1)*(p[2]+a.gm(2)));
  vc_check( &f[flat]==at && &cf[flat]==at, "flat indexing refers to the same cell through every view" );
  const double s=vc_real("s"); h(ph)=s;
  vc_check( cf(pf)==s, "a write through one view is seen by the other" );
}
VC(first_cell){
  const IntVec d=vcmesh(); VF<F> a("a",d,VC_GHOST("a",d),anybc(d));
  const GhostData v=sub(a,V); a.f.reset_valid_ghosts(v); const F& cf=a.f;
  double* const at=a.p+(a.gm(0)-v.get_minus(0)+(long)a.n(0)*(a.gm(1)-v.get_minus(1)+(long)a.n(1)*(a.gm(2)-v.get_minus(2))));
  vc_check( &*a.f.begin()==at && &*cf.begin()==at, "iteration starts at the first visible cell" );
  double* const in=a.p+(a.gm(0)+(long)a.n(0)*(a.gm(1)+(long)a.n(1)*a.gm(2)));
  vc_check( &*a.f.interior_begin()==in && &*cf.interior_begin()==in, "interior iteration starts at the first interior cell whatever is visible" );
}
// a view on another window of the same memory
VC(window_view){
  const IntVec d=vcmesh(); VF<F> a("a",d,VC_GHOST("a",d),anybc(d));
  const int ox=vc_int("ox",0,a.n(0)-1), oy=vc_int("oy",0,a.n(1)-1), oz=vc_int("oz",0,a.n(2)-1);
  const int ex=vc_int("ex",1,a.n(0)-ox), ey=vc_int("ey",1,a.n(1)-oy), ez=vc_int("ez",1,a.n(2)-oz);
  const MemoryWindow w(a.w.glob_dim(),IntVec(ox,oy,oz),IntVec(ex,ey,ez));
  F h(w,a.f);
  vc_check( h.window_with_ghost()==w, "a view on a window shows that window" );
  vc_check( h.field_values()==a.p, "a view refers to the same memory" );
  vc_check( a.f.window_with_ghost()==a.w && a.f.get_valid_ghost_data()==a.g, "making a view leaves the field alone" );
  double* const at=a.p+(ox+(long)a.n(0)*(oy+(long)a.n(1)*oz));
  vc_check( &*h.begin()==at, "iteration starts at the first visible cell" );
  const int o[3]={ox,oy,oz}, e[3]={ex,ey,ez}; bool cuts=false;
  for(int q=0;q<3;++q){ const int in=a.d[q]>1 ? a.d[q]+a.x(q) : 1; if( o[q]>a.gm(q) || o[q]+e[q]<a.gm(q)+in ) cuts=true; }
  bool refused=false; try{ h.interior_begin(); } catch( std::runtime_error& ){ refused=true; }
  vc_check( refused==cuts, "interior iteration is refused exactly on views that cut into the interior" );
  const F r=a.f.reshape( IntVec(ex-a.n(0),ey-a.n(1),ez-a.n(2)), IntVec(ox,oy,oz) );
  vc_check( r.window_with_ghost()==w && r.field_values()==a.p, "a reshaped field shows the shifted and resized window" );
}
struct Ctx{ VF<F>*a,*b; };
// whole-field assignment copies values, leaves the source alone
VC(assign_copies){
  const IntVec d=vcmesh(); const GhostData g=VC_GHOST("a",d); const BoundaryCellInfo bc=anybc(d);
  VF<F> a("a",d,g,bc), b("b",d,g,bc);
  vc_pre_();
  a.f=b.f;
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)){
    vc_check( vc_at_(a.p,p.i,p.j,p.k)==vc_old_at_(b.p,p.i,p.j,p.k), "assignment copies every cell" );
    vc_check( vc_at_(b.p,p.i,p.j,p.k)==vc_old_at_(b.p,p.i,p.j,p.k), "assignment leaves the source alone" );
  }
}
VC(assign_self){
  const IntVec d=vcmesh(); VF<F> a("a",d,VC_GHOST("a",d),anybc(d)); F h(a.f);
  vc_pre_(); a.f=h;
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)) vc_check( vc_at_(a.p,p.i,p.j,p.k)==vc_old_at_(a.p,p.i,p.j,p.k), "assigning a view of itself changes nothing" );
}
VC(assign_mismatch){
  const IntVec d=vcmesh(); VF<F> a("a",d,VC_GHOST("a",d),anybc(d)), b("b",d,VC_GHOST("b",d),anybc(d));
  vc_assume( !(a.w==b.w) );
  vc_pre_(); bool thrown=false; try{ a.f=b.f; } catch( std::runtime_error& ){ thrown=true; }
  vc_check( thrown, "assignment between fields of different shape is refused" );
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)) vc_check( vc_at_(a.p,p.i,p.j,p.k)==vc_old_at_(a.p,p.i,p.j,p.k), "a refused assignment writes nothing" );
}
