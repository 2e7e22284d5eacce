// C02: refining a window into pieces covers it exactly once
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: For an arbitrary window, split and location, MemoryWindow::refine is under contract: pieces start where the window starts, each piece starts where its predecessor ends, the last ends where the window ends, every piece is non-empty and differs from any other by at most one point; an axis of a piece depends on nothing but its own split and location. Consecutive intervals starting and ending with the window are a disjoint cover.
#include "vc.h"
#include <spatialops/structured/MemoryWindow.h>
using namespace SpatialOps; using namespace SpatialOps::structured;
static MemoryWindow any_window(){
  const int N=1<<20;
  const int nx=vc_int("nx",1,N), ny=vc_int("ny",1,N), nz=vc_int("nz",1,N);
  const int ox=vc_int("ox",0,nx-1), oy=vc_int("oy",0,ny-1), oz=vc_int("oz",0,nz-1);
  const int ex=vc_int("ex",1,nx-ox), ey=vc_int("ey",1,ny-oy), ez=vc_int("ez",1,nz-oz);
  return MemoryWindow( IntVec(nx,ny,nz), IntVec(ox,oy,oz), IntVec(ex,ey,ez) );
}
static IntVec any_split( const MemoryWindow& w ){
  return IntVec( vc_int("sx",1,w.extent()[0]), vc_int("sy",1,w.extent()[1]), vc_int("sz",1,w.extent()[2]) );
}
static IntVec any_loc( const IntVec& s, const char* x="lx", const char* y="ly", const char* z="lz" ){
  return IntVec( vc_int(x,0,s[0]-1), vc_int(y,0,s[1]-1), vc_int(z,0,s[2]-1) );
}
VC(piece_inside){
  const MemoryWindow w=any_window(); const IntVec s=any_split(w), l=any_loc(s);
  const MemoryWindow r=w.refine(s,l);
  for(int q=0;q<3;++q){
    vc_check( r.glob_dim()[q]==w.glob_dim()[q], "a piece keeps the parent block" );
    vc_check( r.extent()[q]>=1, "no piece is empty" );
    vc_check( r.offset()[q]>=w.offset()[q], "a piece starts inside the window" );
    vc_check( r.offset()[q]+r.extent()[q]<=w.offset()[q]+w.extent()[q], "a piece ends inside the window" );
  }
}
VC(pieces_chain){
  const MemoryWindow w=any_window(); const IntVec s=any_split(w), l=any_loc(s);
  const MemoryWindow r=w.refine(s,l);
  for(int q=0;q<3;++q){
    if( l[q]==0 ) vc_check( r.offset()[q]==w.offset()[q], "the first piece starts where the window starts" );
    if( l[q]==s[q]-1 ) vc_check( r.offset()[q]+r.extent()[q]==w.offset()[q]+w.extent()[q], "the last piece ends where the window ends" );
    else {
      IntVec l2=l; l2[q]+=1;
      const MemoryWindow n=w.refine(s,l2);
      vc_check( n.offset()[q]==r.offset()[q]+r.extent()[q], "each piece starts where the one before it ends" );
    }
  }
}
VC(pieces_independent_axes){
  const MemoryWindow w=any_window(); const IntVec s=any_split(w), l=any_loc(s), m=any_loc(s,"mx","my","mz");
  const MemoryWindow r=w.refine(s,l), t=w.refine(s,m);
  for(int q=0;q<3;++q){
    if( l[q]==m[q] ) vc_check( r.offset()[q]==t.offset()[q] && r.extent()[q]==t.extent()[q], "an axis of a piece depends only on that axis of the location" );
    const int d=r.extent()[q]-t.extent()[q];
    vc_check( -1<=d && d<=1, "pieces differ by at most one point per axis" );
  }
}
// two pieces are disjoint and a point of the window lies in the piece its chain position says
VC(pieces_disjoint){
  const MemoryWindow w=any_window(); const IntVec s=any_split(w), l=any_loc(s), m=any_loc(s,"mx","my","mz");
  const MemoryWindow r=w.refine(s,l), t=w.refine(s,m);
  for(int q=0;q<3;++q) if( l[q]<m[q] ) vc_check( r.offset()[q]+r.extent()[q]<=t.offset()[q], "pieces at different locations are disjoint" );
}
// the last piece that starts at or before a point (one exists: the first piece starts with the window) contains it
VC(pieces_cover){
  const MemoryWindow w=any_window(); const IntVec s=any_split(w);
  const IntVec p( vc_int("px",0,w.extent()[0]-1), vc_int("py",0,w.extent()[1]-1), vc_int("pz",0,w.extent()[2]-1) );
  IntVec l=any_loc(s);
  if( !vc_symbolic() ) for(int q=0;q<3;++q){ l[q]=0; for(int c=1;c<s[q];++c){ IntVec m(0,0,0); m[q]=c; if( w.refine(s,m).offset()[q]<=p[q]+w.offset()[q] ) l[q]=c; } }
  const MemoryWindow r=w.refine(s,l);
  for(int q=0;q<3;++q){
    const int a=p[q]+w.offset()[q];
    vc_assume( r.offset()[q]<=a );
    if( l[q]<s[q]-1 ){ IntVec m=l; m[q]+=1; vc_assume( w.refine(s,m).offset()[q]>a ); }
    vc_check( a<r.offset()[q]+r.extent()[q], "the pieces together contain every point of the window" );
  }
}
