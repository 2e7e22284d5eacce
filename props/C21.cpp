// C21: particle-cell transfers conserve and stay in bounds
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: ParticleToCell and CellToParticle apply_to_field on meshes of any number of cells, any origin and spacing (coordinates defined by a formula for every cell), particles at any position and inside the mesh: every overlapped cell takes part with its share of the particle, all other cells stay out, the shares add up to one, and every access stays inside the fields. Bounded in the number of particles (one or two) and in the cells one particle overlaps (up to eight).
//! bounded: to_cells_1 one particle that overlaps 1 cells
//! bounded: to_cells_2 one particle that overlaps 2 cells
//! bounded: to_cells_3 one particle that overlaps 3 cells
//! bounded: to_cells_4 one particle that overlaps 4 cells
//! bounded: to_cells_6 one particle that overlaps 6 cells
//! bounded: to_cells_8 one particle that overlaps 8 cells
//! bounded: to_particle_1 one particle that overlaps 1 cells
//! bounded: to_particle_2 one particle that overlaps 2 cells
//! bounded: to_particle_3 one particle that overlaps 3 cells
//! bounded: to_particle_4 one particle that overlaps 4 cells
//! bounded: to_particle_6 one particle that overlaps 6 cells
//! bounded: to_particle_8 one particle that overlaps 8 cells
//! bounded: two_11 two particles of up to three cells
//! bounded: two_12 two particles of up to three cells
//! bounded: two_22 two particles of up to three cells
//! bounded: two_31 two particles of up to three cells
//! bounded: two_back_12 two particles of up to three cells
//! bounded: two_back_31 two particles of up to three cells
//! bounded: uneven_to_cells a mesh of three cells
//! bounded: uneven_to_particle a mesh of three cells
//! assume: real arithmetic instead of floating point
#include <climits>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <vector>
#include <cassert>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <iterator>
#include "nopool.h"
#include "fields.h"
#define private public
#include <spatialops/particles/ParticleOperators.h>
#undef private
using namespace SpatialOps::Particle;
typedef SVolField F;
struct Mesh{   // n cells in a row; cell i is centered at xo+i*dx
  long n; double xo, dx;
  Mesh( long cells ) : n(cells ? cells : long(vc_int("n",2,1<<20))), xo(vc_real("xo")), dx(vc_real("dx")) {
    if( !vc_symbolic() && !(dx>0) ) dx=0.25-dx;
    vc_assume( dx>0 );
  }
};
static double centre( void* c, long, long, long, long i, long, long, double ){ Mesh* m=(Mesh*)c; return m->xo+i*m->dx; }
template<class T> struct Line{
  double* p; T f;
  Line( const char* nm, long n ) : p(vc_darray_(nm,n,1,1)), f(MemoryWindow(IntVec(int(n),1,1)),BoundaryCellInfo::build<T>(false,false,false),GhostData(0),p,ExternalStorage) {}
  double at( long i ) const { return vc_at_(p,i,0,0); }
  double old( long i ) const { return vc_old_at_(p,i,0,0); }
};
// a particle: its left end lies in cell c at fraction f of the cell, it is w cells wide and ends in cell c+span-1
struct Part{
  int c, span; double f, w;
  Part( const char* cn, const char* fn, const char* wn, long n, int sp ) : c(vc_int(cn,0,(1<<20)-1)), span(sp), f(vc_frac_(fn)), w(vc_real(wn)) {
    if( !vc_symbolic() ){ if( n<sp ) span=int(n); c%=n-span+1; w=std::fabs(w)-std::floor(std::fabs(w)); w=span-1-f+ (w==0 ? 1 : w); if( w<=0 ) w=(1-f)/2; }
    else{ vc_assume( c+span<=n ); vc_assume( w>0 ); vc_assume( span-1<f+w ); vc_assume( f+w<=span ); }
  }
  double share( int j ) const { return span==1 ? w : j==0 ? 1-f : j<span-1 ? 1 : f+w-(span-1); }     // part of the particle in cell c+j, in cells
  void place( const Mesh& m, double& pos, double& size ) const { pos=m.xo-m.dx/2+(c+f+w/2)*m.dx; size=w*m.dx; }
  bool in( long i ) const { return (c<=i) & (i<c+span); }
};
static double zero( void*, long g, long, long, long i, long, long, double old ){ return i<g ? 0 : old; }
static void no_loop( long n ){ if( n>1 ) vc_loop_space_(n,1,1,0); }
struct Ctx{ long n; };
static double zrule( void*, long g, long, long gz, long i, long, long, double old ){ return gz>0 || i<g ? 0.0 : old; }
static void to_cells( int k ){
  Mesh m(0); Line<F> x("x",m.n), dest("dest",m.n); Line<ParticleField> pos("pos",1), size("size",1), src("src",1);
  vc_array_def_(x.p,centre,&m);
  const Part q("c","f","w",m.n,k); q.place(m,pos.p[0],size.p[0]);
  vc_loop_space_(m.n-1,1,1,0);
  const ParticleToCell<F> op(x.f);
  vc_loop_end_(); vc_pre_();
  vc_loop_space_(m.n,1,1,0); vc_array_rule_(dest.p,zrule,0); vc_loop_last_();
  op.apply_to_field(pos.f,size.f,src.f,dest.f);
  vc_loop_end_();
  const double s=src.old(0); double sum=0;
  for(int j=0;j<q.span;++j){ vc_eq( dest.at(q.c+j), s*(q.share(j)/q.w), "an overlapped cell gets its share of the particle" ); sum+=dest.at(q.c+j); }
  vc_eq( sum, s, "the cells gain what the particle carries" );
  VC_FORALL3(i,m.n,1,1){ if( !q.in(i.i) ) vc_check( dest.at(i.i)==0, "other cells receive nothing" ); }
}
static void to_particle( int k ){
  Mesh m(0); Line<F> x("x",m.n), src("src",m.n); Line<ParticleField> pos("pos",1), size("size",1), dest("dest",1);
  vc_array_def_(x.p,centre,&m);
  const Part q("c","f","w",m.n,k); q.place(m,pos.p[0],size.p[0]);
  vc_loop_space_(m.n-1,1,1,0);
  const CellToParticle<F> op(x.f);
  vc_loop_end_(); vc_pre_();
  op.apply_to_field(pos.f,size.f,src.f,dest.f);
  double sum=0; for(int j=0;j<q.span;++j) sum+=src.old(q.c+j)*(q.share(j)/q.w);
  vc_eq( dest.at(0), sum, "the particle gets the overlap-weighted average of its cells" );
  VC_FORALL3(i,m.n,1,1) vc_check( src.at(i.i)==src.old(i.i), "the cell field is not modified" );
}
// two particles (of up to two cells): transfers to the same cells add up, each particle has its own average
static void two( int ka, int kb ){
  Mesh m(0); Line<F> x("x",m.n), cell("cell",m.n); Line<ParticleField> pos("pos",2), size("size",2), pt("pt",2);
  vc_array_def_(x.p,centre,&m);
  const Part a("c","f","w",m.n,ka), b("c2","f2","w2",m.n,kb); a.place(m,pos.p[0],size.p[0]); b.place(m,pos.p[1],size.p[1]);
  vc_loop_space_(m.n-1,1,1,0);
  const ParticleToCell<F> op(x.f);
  vc_loop_end_(); vc_pre_();
  vc_loop_space_(m.n,1,1,0); vc_array_rule_(cell.p,zrule,0); vc_loop_last_();
  op.apply_to_field(pos.f,size.f,pt.f,cell.f);
  vc_loop_end_();
  const double s=pt.old(0), t=pt.old(1);
  VC_FORALL3(i,m.n,1,1){
    double e=0; for(int j=0;j<a.span;++j) if( i.i==a.c+j ) e+=s*(a.share(j)/a.w);
    for(int j=0;j<b.span;++j) if( i.i==b.c+j ) e+=t*(b.share(j)/b.w);
    vc_eq( cell.at(i.i), e, "a cell receives the shares of all particles" );
  }
}
static void two_back( int ka, int kb ){
  Mesh m(0); Line<F> x("x",m.n), cell("cell",m.n); Line<ParticleField> pos("pos",2), size("size",2), pt("pt",2);
  vc_array_def_(x.p,centre,&m);
  const Part a("c","f","w",m.n,ka), b("c2","f2","w2",m.n,kb); a.place(m,pos.p[0],size.p[0]); b.place(m,pos.p[1],size.p[1]);
  vc_loop_space_(m.n-1,1,1,0);
  const CellToParticle<F> op(x.f);
  vc_loop_end_(); vc_pre_();
  op.apply_to_field(pos.f,size.f,cell.f,pt.f);
  double u=0, v=0; for(int j=0;j<a.span;++j) u+=cell.old(a.c+j)*(a.share(j)/a.w); for(int j=0;j<b.span;++j) v+=cell.old(b.c+j)*(b.share(j)/b.w);
  vc_eq( pt.at(0), u, "the particle gets the overlap-weighted average of its cells" );
  vc_eq( pt.at(1), v, "the particle gets the overlap-weighted average of its cells" );
}
// a mesh of unequal spacing is refused
template<class Op> static void uneven(){
  Line<F> x("x",3); const double dx=vc_real("dx"); vc_assume( dx>0 ); x.p[0]=vc_real("xo"); x.p[1]=x.p[0]+dx; const double d=vc_real("d"); x.p[2]=x.p[1]+d;
  vc_assume( d>1.01*dx || d<0.99*dx );
  bool refused=false;
  try{ const Op op(x.f); } catch( std::runtime_error& ){ refused=true; }
  vc_check( refused, "a mesh of unequal spacing is refused" );
}
VC(uneven_to_cells){ uneven< ParticleToCell<F> >(); } VC(uneven_to_particle){ uneven< CellToParticle<F> >(); }
VC(two_11){ two(1,1); } VC(two_12){ two(1,2); } VC(two_22){ two(2,2); } VC(two_31){ two(3,1); }
VC(two_back_12){ two_back(1,2); } VC(two_back_31){ two_back(3,1); }
VC(to_cells_6){ to_cells(6); } VC(to_cells_8){ to_cells(8); } VC(to_particle_6){ to_particle(6); } VC(to_particle_8){ to_particle(8); }
VC(to_cells_1){ to_cells(1); } VC(to_cells_2){ to_cells(2); } VC(to_cells_3){ to_cells(3); } VC(to_cells_4){ to_cells(4); }
VC(to_particle_1){ to_particle(1); } VC(to_particle_2){ to_particle(2); } VC(to_particle_3){ to_particle(3); } VC(to_particle_4){ to_particle(4); }
