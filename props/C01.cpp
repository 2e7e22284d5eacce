// C01: MemoryWindow index maps
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
#include "vc.h"
#include <spatialops/structured/MemoryWindow.h>
using namespace SpatialOps; using namespace SpatialOps::structured;

// an arbitrary well-formed window (offset+extent inside the parent, extents positive)
static MemoryWindow any_window(){
  const int N=1<<20;
  const int nx=vc_int("nx",1,N), ny=vc_int("ny",1,N), nz=vc_int("nz",1,N);
  const int ox=vc_int("ox",0,nx-1), oy=vc_int("oy",0,ny-1), oz=vc_int("oz",0,nz-1);
  const int ex=vc_int("ex",1,nx-ox), ey=vc_int("ey",1,ny-oy), ez=vc_int("ez",1,nz-oz);
  return MemoryWindow( IntVec(nx,ny,nz), IntVec(ox,oy,oz), IntVec(ex,ey,ez) );
}
VC(flat_index_value){
  const MemoryWindow w=any_window();
  const int i=vc_int("i",0,w.extent(0)-1), j=vc_int("j",0,w.extent(1)-1), k=vc_int("k",0,w.extent(2)-1);
  const long f=w.flat_index(IntVec(i,j,k));
  const long nx=w.glob_dim(0), ny=w.glob_dim(1);
  vc_check( f==(i+(long)w.offset(0))+nx*((j+(long)w.offset(1))+ny*(k+(long)w.offset(2))), "flat index is the Fortran-order offset of the point" );
}
VC(flat_index_inverse){
  const MemoryWindow w=any_window();
  const int i=vc_int("i",0,w.extent(0)-1), j=vc_int("j",0,w.extent(1)-1), k=vc_int("k",0,w.extent(2)-1);
  const int f=w.flat_index(IntVec(i,j,k));
  vc_check( f>=0 && (size_t)f<w.glob_npts(), "flat index is inside the allocation" );
  const IntVec g=w.ijk_index_from_global(f);
  vc_check( g[0]==i+w.offset()[0] && g[1]==j+w.offset()[1] && g[2]==k+w.offset()[2], "global index recovers the point" );
}
VC(local_roundtrip){
  const MemoryWindow w=any_window();
  const int i=vc_int("i",0,w.extent(0)-1), j=vc_int("j",0,w.extent(1)-1), k=vc_int("k",0,w.extent(2)-1);
  const int l=ijk_to_flat(w.extent(),IntVec(i,j,k));
  const IntVec g=w.ijk_index_from_local(l);
  vc_check( g[0]==i && g[1]==j && g[2]==k, "local index recovers the point" );
  vc_check( l>=0 && (size_t)l<w.local_npts(), "local index in range" );
}
