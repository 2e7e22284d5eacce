// masks: storage contract of the word pool (a block of at least the requested number of words with arbitrary contents)
#ifndef VC_MASK_H
#define VC_MASK_H
#include "vc.h"
#include <spatialops/structured/MemoryPool.h>
namespace vcmask{ struct Block{ unsigned* p; long bits; bool out; }; static Block b[4]; static int made, given; static void start(){ made=given=0; } }
#ifdef VC_SYMBOLIC
namespace SpatialOps{ namespace structured{
  template<> Pool<unsigned int>& Pool<unsigned int>::self(){ static double room[64]; return *(Pool<unsigned int>*)room; }
  template<> unsigned int* Pool<unsigned int>::get( const MemoryType, const size_t n ){
    vcmask::Block& k=vcmask::b[vcmask::given++];
    vc_check( 32*(long)n >= k.bits, "the mask storage has a bit for every point" );
    k.out=true; return k.p;
  }
  template<> void Pool<unsigned int>::put( const MemoryType, unsigned int* p ){
    int q=-1;
    for(int i=0;i<vcmask::given;++i) if( vcmask::b[i].p==p ) q=i;
    vc_check( q>=0 && vcmask::b[q].out, "mask storage is returned once" );
    if( q>=0 ) vcmask::b[q].out=false;
  }
}}
#endif
#ifdef VC_OPEN_MASKS   // contracts on private member functions of BitField
# include <climits>
# include <map>
# include <vector>
# include <cassert>
# include <sstream>
# include <stdexcept>
# include <iterator>
# include <spatialops/structured/MemoryWindow.h>
# include <spatialops/structured/GhostData.h>
# define private public
# include <spatialops/structured/BitField.h>
# undef private
#endif
#include "fields.h"
namespace vcmask{
  // clearing the words: after gx words every bit of an earlier word is clear
  struct Clear{ long nx,ny; };
  static bool clear_rule( void* c, long gx, long, long gz, long i, long j, long k, bool old ){
    Clear* x=(Clear*)c; if( gz>0 ) return false;
    const long f=i+x->nx*(j+x->ny*k); return f<32*gx ? false : old;
  }
  static Clear clearing[4];
  // storage for the next mask on a field with window w
  static void room( const MemoryWindow& w, const char* name ){
    Block& k=b[made++]; k.bits=long(w.glob_dim(0))*w.glob_dim(1)*w.glob_dim(2); k.out=false;
    if( vc_symbolic() ) k.p=vc_bitarray_(name,w.glob_dim(0),w.glob_dim(1),w.glob_dim(2));
    Clear& c=clearing[made-1]; c.nx=w.glob_dim(0); c.ny=w.glob_dim(1);
    vc_loop_space_((k.bits+31)/32,1,1,0);
    if( vc_symbolic() ) vc_bit_rule_(k.p,clear_rule,&c);
  }
  // give a mask arbitrary contents
  static void any_( unsigned* p, const MemoryWindow& w, const char* name ){ vc_bits_any_(p,name,long(w.glob_dim(0))*w.glob_dim(1)*w.glob_dim(2)); }
  template<class M> static void any( const M& m, const char* name ){ const MemoryWindow& w=m.window_with_ghost(); vc_bits_any_(const_cast<unsigned*>(m.mask_values()),name,long(w.glob_dim(0))*w.glob_dim(1)*w.glob_dim(2)); }
  // bit of allocation point (i,j,k)
  static bool bit( const unsigned* words, const MemoryWindow& w, long i, long j, long k ){
    if( vc_symbolic() ) return vc_bit_(words,i,j,k);
    const long f=i+w.glob_dim(0)*(j+w.glob_dim(1)*k); return (words[f/32]>>(f%32))&1;
  }
}
#endif
