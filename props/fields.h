// symbolic / generated fields on one logical mesh (interior size dim), each with its own ghosts on every face
#ifndef VC_FIELDS_H
#define VC_FIELDS_H
#include "vc.h"
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <spatialops/Nebo.h>
using namespace SpatialOps; using namespace SpatialOps::structured;

static inline int vcghost( const char* n, int dim, int mx=50 ){ return dim>1 ? vc_int(n,0,mx) : 0; }
static inline long vcmin( long a, long b ){ return a<b ? a : b; }
static inline long vcmax( long a, long b ){ return a>b ? a : b; }

// mesh dimensions, axis by axis >=1 (an axis of size 1 is a collapsed axis: no ghosts there)
static inline IntVec vcmesh( const char* x="dx", const char* y="dy", const char* z="dz" ){
  const int N=1<<20; return IntVec( vc_int(x,1,N), vc_int(y,1,N), vc_int(z,1,N) );
}
#define VC_GHOST(n,dim) GhostData( vcghost(n "_gmx",(dim)[0]), vcghost(n "_gpx",(dim)[0]), vcghost(n "_gmy",(dim)[1]), vcghost(n "_gpy",(dim)[1]), vcghost(n "_gmz",(dim)[2]), vcghost(n "_gpz",(dim)[2]) )
// a field, its storage and its shape, in mesh coordinates: cell (0,0,0) is the first interior cell
template<typename F>
struct VF{
  IntVec d; GhostData g; BoundaryCellInfo bc; MemoryWindow w; double* p; F f;
  VF( const char* name, const IntVec& dim, const GhostData& gd, const BoundaryCellInfo& b )
  : d(dim), g(gd), bc(b), w(get_window_with_ghost(dim,gd,b)),
    p(vc_darray_(name,w.glob_dim(0),w.glob_dim(1),w.glob_dim(2))), f(w,b,gd,p,ExternalStorage) {}
  int n(int q) const { return w.glob_dim()[q]; }                       // allocated points on axis q
  int x(int q) const { return d[q]>1 ? bc.has_extra()[q] : 0; }          // extra boundary cell on axis q
  int gm(int q) const { return g.get_minus()[q]; }
  int gp(int q) const { return g.get_plus()[q]; }
  double at( long i, long j, long k ) const { return vc_at_(p,i+gm(0),j+gm(1),k+gm(2)); }          // mesh coordinates
  double old( long i, long j, long k ) const { return vc_old_at_(p,i+gm(0),j+gm(1),k+gm(2)); }
};
// a box of mesh points [lo,hi)
struct Box{
  long lo[3], hi[3];
  bool in( long i, long j, long k ) const { return lo[0]<=i && i<hi[0] && lo[1]<=j && j<hi[1] && lo[2]<=k && k<hi[2]; }
  long ext(int q) const { return hi[q]-lo[q]; }
  // position of point (i,j,k) of the box precedes loop position g (x fastest)
  bool done( long i, long j, long k, long gx, long gy, long gz ) const {
    i-=lo[0]; j-=lo[1]; k-=lo[2];
    return k<gz || (k==gz && (j<gy || (j==gy && i<gx)));
  }
};
#define VC_LOOP(b) vc_loop_space_((b).ext(0),(b).ext(1),(b).ext(2),0)
#endif
