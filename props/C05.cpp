// C05: field windows follow from mesh, ghosts and boundary cells
//! src: spatialops/structured/MemoryWindow.cpp spatialops/structured/GhostData.cpp
//! explain: For every field type of the library the window helper, the field constructor, its windows, sizes, indexing and iterators are under contract for arbitrary meshes, ghosts and boundary flags.
#include "fields.h"
// extra boundary cells by type, written from the staggering: vol = axis the volume is staggered on (or none), face = axis the face is normal to (or none)
template<int vol,int face> struct Rule{ static bool extra(int q){ return face<0 ? q==vol : (q==face && vol!=face); } };
template<typename F,typename R> static void shape( bool minimal ){
  const int N= minimal ? 1<<20 : 500;   // memory size is an unsigned int: full contracts stay below 4 GB
  const IntVec d( vc_int("dx",1,N), vc_int("dy",1,N), vc_int("dz",1,N) );
  int m[3],p[3]; const char* nm[]={"gmx","gmy","gmz"}; const char* np[]={"gpx","gpy","gpz"};
  for(int q=0;q<3;++q){ m[q]=d[q]>1?vc_int(nm[q],0,20):0; p[q]=d[q]>1?vc_int(np[q],0,20):0; }
  const GhostData g(m[0],p[0],m[1],p[1],m[2],p[2]);
  const bool b[3]={ vc_bool("bx"), vc_bool("by"), vc_bool("bz") };
  const BoundaryCellInfo bc=BoundaryCellInfo::build<F>(b[0],b[1],b[2]);
  const MemoryWindow w=get_window_with_ghost(d,g,bc);
  long n[3];
  for(int q=0;q<3;++q){
    const int x= b[q] && R::extra(q) ? 1 : 0;
    vc_check( bc.has_bc(q)==b[q], "boundary flags are kept" );
    vc_check( bc.has_extra(q)==x && bc.has_extra()[q]==x, "a boundary adds a cell exactly for the types staggered on that axis" );
    n[q]= d[q]>1 ? d[q]+m[q]+p[q]+x : 1;
    vc_check( (long)w.extent(q)==n[q] && (long)w.glob_dim(q)==n[q] && w.offset(q)==0, "allocated points are interior, ghosts and boundary cell; one on a collapsed axis" );
  }
  double* a=vc_darray_("a",n[0],n[1],n[2]);
  F f(w,bc,g,a,ExternalStorage);
  const MemoryWindow& in=f.window_without_ghost();
  for(int q=0;q<3;++q){
    const int x= b[q] && R::extra(q) ? 1 : 0;
    vc_check( (long)in.glob_dim(q)==n[q], "the interior window has the allocation as parent" );
    vc_check( (long)in.offset(q)==m[q], "the interior starts after the minus side ghosts" );
    // a field that ends up with one point on an axis has no ghosts there
    vc_check( (long)in.extent(q)==(d[q]>1 ? d[q]+x : 1), "the interior is the mesh plus the boundary cell" );
    vc_check( (long)f.window_with_ghost().extent(q)==n[q] && f.window_with_ghost().offset(q)==0, "the field window is the allocation" );
  }
  vc_check( f.get_ghost_data()==g && f.get_valid_ghost_data()==g, "a new field has all its ghosts valid" );
  vc_check( f.field_values()==a, "an external field refers to the memory given" );
  if( minimal ) return;
  vc_check( (long)f.allocated_bytes()==8*n[0]*n[1]*n[2], "memory size is that of the allocated points" );
  const int i=vc_int("i",0,n[0]-1), j=vc_int("j",0,n[1]-1), k=vc_int("k",0,n[2]-1);
  double* at=a+(i+n[0]*(j+n[1]*k));
  vc_check( &f(i,j,k)==at && &f(IntVec(i,j,k))==at, "indexing refers to the allocated point" );
  const F& cf=f;
  vc_check( &cf(i,j,k)==at && &cf(IntVec(i,j,k))==at, "indexing refers to the allocated point" );
  vc_check( &*f.begin()==a && &*cf.begin()==a, "iteration starts at the first allocated point" );
  double* first=a+(m[0]+n[0]*(m[1]+n[1]*(long)m[2]));
  vc_check( &*f.interior_begin()==first && &*cf.interior_begin()==first, "interior iteration starts at the first interior point" );
}
#define T(F,v,f) VC(shape_##F){ shape<F##Field,Rule<v,f> >(true); }
VC(shape_and_indexing){ shape<SVolField,Rule<-1,-1> >(false); }
VC(shape_and_indexing_staggered){ shape<YVolField,Rule<1,-1> >(false); }
T(SVol,-1,-1) T(SSurfX,-1,0) T(SSurfY,-1,1) T(SSurfZ,-1,2)
T(XVol,0,-1) T(XSurfX,0,0) T(XSurfY,0,1) T(XSurfZ,0,2)
T(YVol,1,-1) T(YSurfX,1,0) T(YSurfY,1,1) T(YSurfZ,1,2)
T(ZVol,2,-1) T(ZSurfX,2,0) T(ZSurfY,2,1) T(ZSurfZ,2,2)
