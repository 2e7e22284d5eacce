// a thread pool that never runs anything in parallel (replaces ThreadPool.h and Semaphore.h in harnesses that evaluate pieces directly)
#ifndef VC_NOPOOL_H
#define VC_NOPOOL_H
#define Field_Expr_ThreadPool_h
#define Nebo_Semaphore_h
namespace SpatialOps{
  struct Semaphore{ Semaphore(int=0){} void post(){} void wait(){} };
  struct ThreadPoolFIFO{
    static ThreadPoolFIFO& self(){ static ThreadPoolFIFO p; return p; }
    static int get_pool_capacity(){ return 0; }
    static int get_pool_size(){ return 1; }
    static int resize_pool( int n ){ return n; }
    static int set_pool_capacity( int n ){ return n; }
    template<typename T> void schedule( T const& ){}
  };
}
#endif
