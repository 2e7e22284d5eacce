// native implementation of the contract language: replay of recorded inputs and seeded search on the real code
#include "vc.h"
#include <map>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <random>
#include <chrono>
#include <unistd.h>
#include <signal.h>
struct Entry{ std::string n; void(*f)(); };
static std::vector<Entry>& reg(){ static std::vector<Entry> r; return r; }
VcReg::VcReg(const char*n,void(*f)()){ reg().push_back({n,f}); }
static std::map<std::string,std::string> given;    // replayed inputs
static std::map<std::string,std::string> used;     // inputs of this run
static std::vector<std::string> usedOrder;
static std::mt19937_64 rng;
static bool random_mode=false; static int bias=4; static unsigned long salt=0;
static std::string failLabel; static long checks=0;
struct Arr{ void*p; size_t n; double*pre; std::string name; long d[3]; unsigned*bpre; size_t nb; };
static std::vector<Arr> arrs;
static void rec(const char*n,const std::string&v){ if(!used.count(n)) usedOrder.push_back(n); used[n]=v; }
extern "C" {
bool vc_symbolic(){ return false; }
long vc_int_( const char* n, long lo, long hi ){
  if(lo>hi) throw VcSkip();
  if(used.count(n)){ long v=atol(used[n].c_str()); if(v<lo||v>hi) throw VcSkip(); return v; }
  long v;
  if(given.count(n)) v=atol(given[n].c_str());
  else if(!random_mode) v = lo>0?lo:(hi<0?hi:0);
  else{
    long a=lo,b=hi; 
    if(a<-bias && b>=-bias) a=-bias; 
    if(b>a+2*bias) b=a+2*bias;
    if(lo<=0&&hi>=0&&b<0) b=0;
    int r=rng()%16;
    if(r==0) v=lo<-1000?a:lo; else if(r==1) v= hi>1000?b:hi; else v=a+(long)(rng()%(unsigned long)(b-a+1));
  }
  if(v<lo||v>hi) throw VcSkip();
  rec(n,std::to_string(v)); return v;
}
bool vc_bool_( const char* n ){
  if(used.count(n)) return used[n]=="1";
  bool v= given.count(n)? given[n]=="1" : random_mode? (rng()&1) : false;
  rec(n,v?"1":"0"); return v;
}
double vc_real_( const char* n ){
  if(used.count(n)) return strtod(used[n].c_str(),0);
  double v;
  if(given.count(n)) v=strtod(given[n].c_str(),0);
  else if(!random_mode) v=0; 
  else{ static const double t[]={0,1,-1,2,0.5,-2.5,3,7,-0.25,10}; int r=rng()%14; v= r<10? t[r] : std::uniform_real_distribution<double>(-4,4)(rng); 
    v=std::round(v*1024)/1024; }
  char b[64]; snprintf(b,64,"%.17g",v); rec(n,b); return strtod(b,0);
}
double vc_frac_( const char* n ){ double v=vc_real_(n); v-=std::floor(v); if(!(v<1)) v=0; return v; }
void vc_assume_( bool c ){ if(!c) throw VcSkip(); }
void vc_check_( bool c, const char* l ){ ++checks; if(!c){ failLabel=l; throw VcFail(); } }
void vc_cover_( const char* ){} void vc_ovf_(bool){} void vc_note_(const char*){}
static unsigned long hsh(const char*n,unsigned long i){ unsigned long h=1469598103934665603ul^salt; for(;*n;++n) h=(h^(unsigned char)*n)*1099511628211ul; h^=i+0x9e3779b97f4a7c15ul; h*=0xbf58476d1ce4e5b9ul; h^=h>>29; h*=0x94d049bb133111ebul; h^=h>>32; return h; }
static double val(const char*n,size_t i){ unsigned long h=hsh(n,i); switch(h%4){ case 0: return double((long)((h>>8)%7)-3); default: return double((long)((h>>8)%2001)-1000)/64.0; } }
double* vc_darray_( const char* n, long x, long y, long z ){
  size_t N=(size_t)x*y*z; double*p=(double*)malloc(N*8+(N==0)); for(size_t i=0;i<N;++i) p[i]=val(n,i);
  arrs.push_back({p,N,0,n,{x,y,z},0,0}); return p; }
int* vc_iarray_( const char* n, long x, long y, long z ){
  size_t N=(size_t)x*y*z; int*p=(int*)malloc(N*4+1); for(size_t i=0;i<N;++i) p[i]=(int)(hsh(n,i)%101)-50;
  arrs.push_back({p,0,0,n,{x,y,z},0,0}); return p; }
long* vc_larray_( const char* n, long x, long y, long z ){
  size_t N=(size_t)x*y*z; long*p=(long*)malloc(N*8+1); for(size_t i=0;i<N;++i) p[i]=(long)(hsh(n,i)%1000003);
  arrs.push_back({p,0,0,n,{x,y,z},0,0}); return p; }
unsigned int* vc_bitarray_( const char* n, long x, long y, long z ){
  size_t N=(size_t)x*y*z, W=(N+31)/32; unsigned*p=(unsigned*)malloc(W*4+1); for(size_t i=0;i<W;++i) p[i]=(unsigned)hsh(n,i);
  arrs.push_back({p,0,0,n,{x,y,z},0,W}); return p; }
void vc_bits_any_( unsigned* p, const char* n, long bits ){ for(long i=0;i<(bits+31)/32;++i) p[i]=(unsigned)hsh(n,i); }
static Arr* find(const void*p){ for(auto&a:arrs) if(a.p==p) return &a; return 0; }
static size_t flat(Arr*a,long i,long j,long k){ return a->d[0]*(a->d[1]*(size_t)k+j)+i; }
static void clampix(Arr*a,long&i,long&j,long&k){ if(a->d[0]==1)i=0; if(a->d[1]==1)j=0; if(a->d[2]==1)k=0; }
double vc_at_( const double* p, long i, long j, long k ){ Arr*a=find(p); clampix(a,i,j,k); return p[flat(a,i,j,k)]; }
bool vc_bit_( const unsigned* p, long i, long j, long k ){ Arr*a=find(p); clampix(a,i,j,k); size_t f=flat(a,i,j,k); return (p[f/32]>>(f%32))&1; }
double vc_old_at_( const double* p, long i, long j, long k ){ Arr*a=find(p); clampix(a,i,j,k); return a->pre[flat(a,i,j,k)]; }
bool vc_old_bit_( const unsigned* p, long i, long j, long k ){ Arr*a=find(p); clampix(a,i,j,k); size_t f=flat(a,i,j,k); return (a->bpre[f/32]>>(f%32))&1; }
void vc_pre_(){ for(auto&a:arrs){ if(a.nb){ free(a.bpre); a.bpre=(unsigned*)malloc(a.nb*4+1); memcpy(a.bpre,a.p,a.nb*4);} else { free(a.pre); a.pre=(double*)malloc(a.n*8+1); memcpy(a.pre,a.p,a.n*8);} } }
void vc_loop_space_( long,long,long,long ){} void vc_loop_next_(long,long,long,long){} void vc_loop_last_(){} void vc_loop_end_(){} void vc_array_rule_(double*,vc_rule_t,void*){} void vc_bit_rule_(unsigned*,vc_brule_t,void*){} void vc_loop_inv_(vc_inv_t,void*){} void vc_loop_assume_(vc_inv_t,void*){} void vc_use_inv_(long,long,long){}
void vc_array_def_( double* p, vc_rule_t f, void* c ){ Arr*a=find(p); for(long k=0;k<a->d[2];++k) for(long j=0;j<a->d[1];++j) for(long i=0;i<a->d[0];++i) p[flat(a,i,j,k)]=f(c,0,0,0,i,j,k,0); }
static double foldv;
void vc_fold_( vc_step_t st, void* c, vc_base_t b, long ex,long ey,long ez,long n0 ){
  double a=b(c); for(long k=0;k<ez;++k) for(long j=0;j<ey;++j) for(long i=0;i<ex;++i) if(n0<=0) a=st(c,a,i,j,k); else --n0; foldv=a; }
double vc_fold_result_(){ return foldv; }
bool vc_case_(bool c){ return c; }
double vc_uf_( const char* n, double a ){ long q=(long)std::floor(a*1024); return val(n,(size_t)q); }
bool vc_has_exit_(){ return false; } long vc_exit_(int){ return 0; } bool vc_exit_early_(){ return false; }
}
static void freearrs(){ for(auto&a:arrs){ free(a.p); free(a.pre); free(a.bpre);} arrs.clear(); }
static const char* curvc="?"; static std::string outf;
static void dump(const char*label){
  if(outf.empty()) return;
  std::ofstream f(outf); f<<"vc "<<curvc<<"\nlabel "<<label<<"\nsalt "<<salt<<"\n"; for(auto&n:usedOrder) f<<"in "<<n<<" "<<used[n]<<"\n"; f.flush();
}
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:new_delete_type_mismatch=0"; }
static char failed_sig[160];
static void onsig(int s){ snprintf(failed_sig,160,"memory safety or assertion (signal %d)",s); dump(failed_sig); 
  fprintf(stderr,"FAIL %s: %s\n",curvc,failed_sig); fflush(stderr); _exit(1); }
// returns 0 pass 1 fail 2 skip
static int run1(const Entry&e){
  used.clear(); usedOrder.clear(); failLabel.clear(); curvc=e.n.c_str();
  int r=0;
  try{ e.f(); }
  catch(VcSkip&){ r=2; }
  catch(VcFail&){ r=1; }
  catch(std::exception&x){ failLabel=std::string("uncaught exception: ")+x.what(); r=1; }
  catch(...){ failLabel="uncaught exception"; r=1; }
  freearrs();
  return r;
}
// usage: list | replay FILE | search VC seconds seed out [maxcases]
int main(int c,char**v){
  for(int s: {SIGABRT,SIGSEGV,SIGFPE,SIGILL,SIGBUS,SIGALRM}) signal(s,onsig);
  std::string m=c>1?v[1]:"list";
  if(m=="list"){ for(auto&e:reg()) puts(e.n.c_str()); return 0; }
  if(m=="replay"){
    std::ifstream f(v[2]); std::string l,vc; 
    while(std::getline(f,l)){ std::istringstream s(l); std::string k,n,x; s>>k; if(k=="vc") s>>vc; else if(k=="salt") s>>salt; else if(k=="in"){ s>>n>>x; given[n]=x; } }
    if(c>3) outf=v[3];
    alarm(60);
    for(auto&e:reg()) if(e.n==vc){ int r=run1(e); if(r==1){ dump(failLabel.c_str()); printf("FAIL %s: %s\n",vc.c_str(),failLabel.c_str()); for(auto&n:usedOrder) printf("  %s = %s\n",n.c_str(),used[n].c_str()); } else printf("%s %s\n",r?"SKIP":"PASS",vc.c_str()); return r; }
    printf("no such contract\n"); return 2;
  }
  if(m=="search"){
    std::string vc=v[2]; double sec=atof(v[3]); unsigned long seed=atol(v[4]); outf=v[5]; long maxn=c>6?atol(v[6]):1000000000; random_mode=true;
    auto t0=std::chrono::steady_clock::now(); long n=0,sk=0;
    for(auto&e:reg()) if(e.n==vc){
      for(long it=0;n-sk<maxn&&n<20*maxn+1000;++it){
        if((it&15)==0 && std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>sec) break;
        rng.seed(seed*1000003+it); salt=rng(); bias=1+it%8; alarm(20);
        int r=run1(e); ++n; if(r==2) ++sk;
        if(r==1){ dump(failLabel.c_str()); printf("FAIL %s: %s\n",vc.c_str(),failLabel.c_str()); for(auto&q:usedOrder) printf("  %s = %s\n",q.c_str(),used[q].c_str()); return 1; }
      }
      printf("OK %s cases=%ld skipped=%ld checks=%ld\n",vc.c_str(),n-sk,sk,checks); return 0;
    }
    return 2;
  }
  return 2;
}
bool vc_close( double a, double b ){
  if( a==b || (a!=a && b!=b) ) return true;
  double s=std::fabs(a)>std::fabs(b)?std::fabs(a):std::fabs(b); if(s<1) s=1;
  return std::fabs(a-b)<=1e-9*s;
}
