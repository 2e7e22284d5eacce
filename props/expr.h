// probe operands: the contract of a sub-expression (a value per cell, ghosts, and a record of how it was set up)
#ifndef VC_EXPR_H
#define VC_EXPR_H
#include "fields.h"
namespace probe{
  struct Rec{ int inits, nexts; IntVec a,b,c; };
  static Rec rec[8];
  static double val[8][4]; static bool bval[8][4];
  static GhostData* gh[8];
  static bool aend[8], hlen[8];
  static void reset(){ for(int i=0;i<8;++i){ rec[i].inits=rec[i].nexts=0; } }
  template<typename T> struct V;
  template<> struct V<double>{ static double at(int id,int c){ return val[id][c]; } };
  template<> struct V<bool>{ static bool at(int id,int c){ return bval[id][c]; } };
  static void note( int id, const IntVec& a, const IntVec& b, const IntVec& c ){ rec[id].inits++; rec[id].a=a; rec[id].b=b; rec[id].c=c; }
}
template<class Mode,int Id,class T,class FT> struct Pr;
template<int Id,class T,class FT> struct Pr<SeqWalk,Id,T,FT>{
  typedef FT field_type; typedef T value_type;
  int c; Pr():c(0){}
  void next(){ ++c; probe::rec[Id].nexts++; }
  T eval() const { return probe::V<T>::at(Id,c); }
};
template<int Id,class T,class FT> struct Pr<Reduction,Id,T,FT>{
  typedef FT field_type; typedef T value_type;
  int c; Pr():c(0){}
  void next(){ ++c; probe::rec[Id].nexts++; }
  bool at_end() const { return probe::aend[Id]; }
  bool has_length() const { return probe::hlen[Id]; }
  T eval() const { return probe::V<T>::at(Id,c); }
};
#ifdef FIELD_EXPRESSION_THREADS
template<int Id,class T,class FT> struct Pr<Resize,Id,T,FT>{
  typedef FT field_type; typedef T value_type;
  typedef Pr<SeqWalk,Id,T,FT> SeqWalkType;
  SeqWalkType init( IntVec const& a, IntVec const& b, IntVec const& c ) const { probe::note(Id,a,b,c); return SeqWalkType(); }
};
#else
struct NoResize;
#endif
template<int Id,class T,class FT> struct Pr<Initial,Id,T,FT>{
  typedef FT field_type; typedef T value_type;
  typedef Pr<SeqWalk,Id,T,FT> SeqWalkType; typedef Pr<Reduction,Id,T,FT> ReductionType;
  GhostData possible_ghosts() const { return *probe::gh[Id]; }
  SeqWalkType init( IntVec const& a, IntVec const& b, IntVec const& c ) const { probe::note(Id,a,b,c); return SeqWalkType(); }
#ifdef FIELD_EXPRESSION_THREADS
  typedef Pr<Resize,Id,T,FT> ResizeType;
  ResizeType resize( IntVec const& a, IntVec const& b ) const { probe::note(Id,a,b,IntVec(0,0,0)); return ResizeType(); }
#endif
  ReductionType reduce_init( IntVec const& a, IntVec const& b, IntVec const& c ) const { probe::note(Id,a,b,c); return ReductionType(); }
};
static inline bool same( double a, double b ){ if( vc_symbolic() ) return a==b; return a==b || (a!=a && b!=b); }
static inline bool same( bool a, bool b ){ if( a ) return b; return !b; }
static inline IntVec vcvec( const char* a, const char* b, const char* c, int lo, int hi ){ return IntVec( vc_int(a,lo,hi), vc_int(b,lo,hi), vc_int(c,lo,hi) ); }
#endif
