// C13: reductions fold over exactly the cells of the field
//! explain: nebo_max/min/sum/norm and nebo_fold (with an uninterpreted combining function), plain and interior, on a field and on an expression of two fields, for every mesh, ghost layout, valid-ghost choice and boundary-cell combination: the result equals the ghost fold (loop invariant: accumulator = fold of the cells before the loop position, in field order) over exactly the box of valid (or interior) cells; the loop does not stop early; operands are unchanged.
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
#include "nopool.h"
#include "fields.h"
typedef SVolField F; typedef XVolField X;
static BoundaryCellInfo vcbc( const char* n, const IntVec& d ){ return BoundaryCellInfo::build<X>( d[0]>1 ? vc_bool(n) : false, false, false ); }
// one or two operand fields with arbitrary storage, of which arbitrary ghosts are valid
struct Op : VF<X>{
  int vm[3], vp[3];
  Op( const char* n, const IntVec& d, const GhostData& g, const BoundaryCellInfo& b, const char* const* nv ) : VF<X>(n,d,g,b) {
    for(int q=0;q<3;++q){ vm[q]= d[q]>1 ? int(vc_int(nv[2*q],0,gm(q))) : 0; vp[q]= d[q]>1 ? int(vc_int(nv[2*q+1],0,gp(q))) : 0; }
    f.reset_valid_ghosts( GhostData(vm[0],vp[0],vm[1],vp[1],vm[2],vp[2]) );
  }
};
static const char* const NA[6]={"a_vmx","a_vpx","a_vmy","a_vpy","a_vmz","a_vpz"};
static const char* const NB[6]={"b_vmx","b_vpx","b_vmy","b_vpy","b_vmz","b_vpz"};
enum Kind{ MAX, MIN, SUM, SQ, USER };
static double combine( Kind k, double r, double v ){
  switch(k){ case MAX: return v>r ? v : r; case MIN: return v<r ? v : r; case SUM: return r+v; case SQ: return r+v*v; default: return vc_uf_("proc",2*r-3*v); }
}
static double room; static const double& user( const double& r, const double& v ){ room=vc_uf_("proc",2*r-3*v); return room; }
struct Ctx{ Op* a; Op* b; Box r; Kind k; double init; };
static double cell( Ctx* c, long i, long j, long k ){ i+=c->r.lo[0]; j+=c->r.lo[1]; k+=c->r.lo[2]; const double v=c->a->at(i,j,k); return c->b ? v-2*c->b->at(i,j,k) : v; }
static double step( void* c, double acc, long i, long j, long k ){ Ctx* x=(Ctx*)c; return combine(x->k,acc,cell(x,i,j,k)); }
static double base( void* c ){ Ctx* x=(Ctx*)c; if( x->k==USER ) return x->init; const double v=cell(x,0,0,0); return x->k==SQ ? v*v : v; }
static double reduce( Kind k, bool in, const X& a ){
  switch(k){
    case MAX: return in ? nebo_max_interior(a) : nebo_max(a);
    case MIN: return in ? nebo_min_interior(a) : nebo_min(a);
    case SUM: return in ? nebo_sum_interior(a) : nebo_sum(a);
    case SQ:  return in ? nebo_norm_interior(a) : nebo_norm(a);
    default:  return in ? nebo_fold_interior<double>(user,vc_real("init"),a) : nebo_fold<double>(user,vc_real("init"),a);
  }
}
static double reduce( Kind k, bool in, const X& a, const X& b ){
  switch(k){
    case MAX: return in ? nebo_max_interior(a-2*b) : nebo_max(a-2*b);
    case MIN: return in ? nebo_min_interior(a-2*b) : nebo_min(a-2*b);
    case SUM: return in ? nebo_sum_interior(a-2*b) : nebo_sum(a-2*b);
    default:  return in ? nebo_norm_interior(a-2*b) : nebo_norm(a-2*b);
  }
}
static void one( Kind k, bool in ){
  const IntVec d=vcmesh(); Op a("a",d,VC_GHOST("a",d),vcbc("a_bc",d),NA);
  Ctx c; c.a=&a; c.b=0; c.k=k; c.init=vc_real("init");
  for(int q=0;q<3;++q){ c.r.lo[q]= in ? 0 : -a.vm[q]; c.r.hi[q]= d[q] + (in ? 0 : a.x(q)+a.vp[q]); }
  vc_pre_(); vc_loop_space_(c.r.ext(0),c.r.ext(1),c.r.ext(2),k==USER ? 0 : 1); vc_fold_(step,&c,base,c.r.ext(0),c.r.ext(1),c.r.ext(2),k==USER ? 0 : 1);
  const double r=reduce(k,in,a.f);
  const double want=vc_fold_result_(); vc_loop_end_();
  vc_check( !vc_exit_early_(), "every cell of the region is folded" );
  vc_eq( r, k==SQ ? std::sqrt(want) : want, "the result is the fold over the cells of the region" );
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)) vc_check( vc_at_(a.p,p.i,p.j,p.k)==vc_old_at_(a.p,p.i,p.j,p.k), "the field is not modified" );
}
VC(sum){ one(SUM,false); } VC(sum_interior){ one(SUM,true); }
VC(max){ one(MAX,false); } VC(max_interior){ one(MAX,true); }
VC(min){ one(MIN,false); } VC(min_interior){ one(MIN,true); }
VC(norm){ one(SQ,false); } VC(norm_interior){ one(SQ,true); }
VC(fold){ one(USER,false); } VC(fold_interior){ one(USER,true); }
static void two( Kind k, bool in ){
  const IntVec d=vcmesh(); Op a("a",d,VC_GHOST("a",d),vcbc("a_bc",d),NA), b("b",d,VC_GHOST("b",d),vcbc("b_bc",d),NB);
  Ctx c; c.a=&a; c.b=&b; c.k=k; c.init=0;
  for(int q=0;q<3;++q){ c.r.lo[q]= in ? 0 : -vcmin(a.vm[q],b.vm[q]); c.r.hi[q]= d[q] + (in ? 0 : vcmin(a.x(q)+a.vp[q],b.x(q)+b.vp[q])); }
  vc_pre_(); vc_loop_space_(c.r.ext(0),c.r.ext(1),c.r.ext(2),1); vc_fold_(step,&c,base,c.r.ext(0),c.r.ext(1),c.r.ext(2),1);
  const double r=reduce(k,in,a.f,b.f);
  const double want=vc_fold_result_(); vc_loop_end_();
  vc_check( !vc_exit_early_(), "every cell of the region is folded" );
  vc_eq( r, k==SQ ? std::sqrt(want) : want, "the result is the fold over the cells of the region" );
  VC_FORALL3(p,a.n(0),a.n(1),a.n(2)) vc_check( vc_at_(a.p,p.i,p.j,p.k)==vc_old_at_(a.p,p.i,p.j,p.k), "the first field is not modified" );
  VC_FORALL3(q,b.n(0),b.n(1),b.n(2)) vc_check( vc_at_(b.p,q.i,q.j,q.k)==vc_old_at_(b.p,q.i,q.j,q.k), "the second field is not modified" );
}
VC(expr_sum){ two(SUM,false); } VC(expr_sum_interior){ two(SUM,true); }
VC(expr_max){ two(MAX,false); } VC(expr_max_interior){ two(MAX,true); }
VC(expr_min){ two(MIN,false); } VC(expr_min_interior){ two(MIN,true); }
VC(expr_norm){ two(SQ,false); } VC(expr_norm_interior){ two(SQ,true); }
