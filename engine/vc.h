// Contract language: every vc__* function is one contract  { vc_assume(pre); call the real code; vc_check(post) }.
// Symbolically (VC_SYMBOLIC) the vc_* functions are interpreted by engine/vcgen.py; natively they are
// implemented by engine/vc_native.cpp (inputs from a replay file or a seeded generator).
#ifndef VC_H
#define VC_H
#include <cstddef>
extern "C" {
  bool   vc_symbolic();
  long   vc_int_( const char* name, long lo, long hi );
  bool   vc_bool_( const char* name );
  double vc_real_( const char* name );
  double vc_frac_( const char* name );   // any real in [0,1)
  void   vc_assume_( bool c );
  void   vc_check_( bool c, const char* label );
  void   vc_cover_( const char* label );
  void   vc_ovf_( bool on );
  void   vc_note_( const char* what );
  double* vc_darray_( const char* name, long nx, long ny, long nz );
  int*    vc_iarray_( const char* name, long nx, long ny, long nz );
  long*   vc_larray_( const char* name, long nx, long ny, long nz );
  unsigned int* vc_bitarray_( const char* name, long nx, long ny, long nz );
  void   vc_bits_any_( unsigned int* a, const char* name, long nbits );   // arbitrary contents
  bool   vc_bit_( const unsigned int* a, long i, long j, long k );
  double vc_at_( const double* a, long i, long j, long k );
  double vc_old_at_( const double* a, long i, long j, long k );
  bool   vc_old_bit_( const unsigned int* a, long i, long j, long k );
  void   vc_pre_();
  void   vc_loop_space_( long ex, long ey, long ez, long n0 );
  void   vc_loop_next_( long ex, long ey, long ez, long n0 );   // iteration space of the loop after the current one
  void   vc_loop_last_();   // the loops after the current one have no contract (they are unrolled)
  void   vc_loop_end_();
  typedef double (*vc_rule_t)( void* ctx, long gx, long gy, long gz, long i, long j, long k, double old );
  typedef bool   (*vc_brule_t)( void* ctx, long gx, long gy, long gz, long i, long j, long k, bool old );
  void   vc_array_rule_( double* a, vc_rule_t f, void* ctx );
  void   vc_array_def_( double* a, vc_rule_t f, void* ctx );   // precondition: every entry (i,j,k) has the value f(ctx,0,0,0,i,j,k,-)
  void   vc_bit_rule_( unsigned int* a, vc_brule_t f, void* ctx );
  typedef bool (*vc_inv_t)( void* ctx, long gx, long gy, long gz, long i, long j, long k );
  void   vc_loop_inv_( vc_inv_t f, void* ctx );
  void   vc_loop_assume_( vc_inv_t f, void* ctx );   // instance, at the current loop position, of a precondition on constant data
  void   vc_use_inv_( long i, long j, long k );
  typedef double (*vc_step_t)( void* ctx, double acc, long i, long j, long k );
  typedef double (*vc_base_t)( void* ctx );
  void   vc_fold_( vc_step_t step, void* ctx, vc_base_t base, long ex, long ey, long ez, long n0 );
  double vc_fold_result_();
  bool   vc_case_( bool c );
  double vc_uf_( const char* n, double a );
  bool   vc_has_exit_(); long vc_exit_( int k ); bool vc_exit_early_();
}
struct VcSkip{}; struct VcFail{};
inline int  vc_int( const char* n, long lo, long hi ){ return (int)vc_int_(n,lo,hi); }
inline bool vc_bool( const char* n ){ return vc_bool_(n); }
inline double vc_real( const char* n ){ return vc_real_(n); }
inline void vc_assume( bool c ){ vc_assume_(c); }
#define vc_check(c,label) vc_check_((c),(label))
// equality of reals: exact over the mathematical reals; natively up to rounding
#ifdef VC_SYMBOLIC
# define vc_eq(a,b,label) vc_check_((a)==(b),(label))
#else
bool vc_close(double,double);
# define vc_eq(a,b,label) vc_check_(vc_close((a),(b)),(label))
#endif

// universally quantified point of an (nx,ny,nz) box. symbolic: one arbitrary point; native: all points
struct VcForall3 {
  long nx,ny,nz,i,j,k; bool more;
  VcForall3( const char* a,const char* b,const char* c,long nx_,long ny_,long nz_ ):nx(nx_),ny(ny_),nz(nz_),i(0),j(0),k(0),more(true){
    if( vc_symbolic() ){
      i=vc_int_(a,0,nx-1); j=vc_int_(b,0,ny-1); k=vc_int_(c,0,nz-1);
    } else more = nx>0 && ny>0 && nz>0;
  }
  void next(){
    if( vc_symbolic() ){ more=false; return; }
    if(++i==nx){ i=0; if(++j==ny){ j=0; if(++k==nz) more=false; } }
  }
};
#define VC_FORALL3(p,nx,ny,nz) for( VcForall3 p(#p "_i",#p "_j",#p "_k",(nx),(ny),(nz)); p.more; p.next() )

#ifdef VC_SYMBOLIC
# define VC(name) extern "C" void vc__##name()
#else
struct VcReg{ VcReg(const char*n,void(*f)()); };
# define VC(name) extern "C" void vc__##name(); static VcReg vcreg_##name(#name,vc__##name); extern "C" void vc__##name()
#endif
#endif
