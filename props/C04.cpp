// C04: ghost cell algebra
//! src: spatialops/structured/GhostData.cpp
//! explain: Every ghost-count operation is under contract for arbitrary counts on each of the six faces, finite or unlimited.
#include "vc.h"
#include <stdexcept>
#include <spatialops/structured/GhostData.h>
using namespace SpatialOps; using namespace SpatialOps::structured;
struct G{ int m[3], p[3]; };
static GhostData mk( const char* const* n, int lo, int hi, G& g ){
  for(int q=0;q<3;++q){ g.m[q]=vc_int(n[2*q],lo,hi); g.p[q]=vc_int(n[2*q+1],lo,hi); }
  return GhostData(g.m[0],g.p[0],g.m[1],g.p[1],g.m[2],g.p[2]);
}
static const char* const A[]={"amx","apx","amy","apy","amz","apz"};
static const char* const B[]={"bmx","bpx","bmy","bpy","bmz","bpz"};
static const char* const C[]={"cmx","cpx","cmy","cpy","cmz","cpz"};
static const int INF=GHOST_MAX;
#define FACES(r,M,P,label) for(int q=0;q<3;++q){ vc_check( (r).get_minus(q)==(M) && (r).get_minus()[q]==(M), label ); vc_check( (r).get_plus(q)==(P) && (r).get_plus()[q]==(P), label ); }
VC(construct){
  G a; const GhostData x=mk(A,0,INF+10,a);
  FACES(x,a.m[q],a.p[q],"each face holds the count it was given")
  const GhostData y(IntVec(a.m[0],a.m[1],a.m[2]),IntVec(a.p[0],a.p[1],a.p[2]));
  FACES(y,a.m[q],a.p[q],"each face holds the count it was given")
  const int n=vc_int("n",0,INF+10); const GhostData z(n);
  FACES(z,n,n,"a single count applies to every face")
  GhostData w(x); FACES(w,a.m[q],a.p[q],"a copy has the same counts")
  GhostData v(3); v=x; FACES(v,a.m[q],a.p[q],"a copy has the same counts")
}
VC(add){
  G a,b; const GhostData x=mk(A,0,INF-1,a), y=mk(B,0,INF-1,b);
  const GhostData s=x+y;
  FACES(s,a.m[q]+b.m[q],a.p[q]+b.p[q],"finite counts add face by face")
  GhostData t(x); t+=y; FACES(t,a.m[q]+b.m[q],a.p[q]+b.p[q],"finite counts add face by face")
  FACES(x,a.m[q],a.p[q],"operands are unchanged") FACES(y,b.m[q],b.p[q],"operands are unchanged")
}
VC(add_thrice){
  G a,b,c; const GhostData x=mk(A,0,3000,a), y=mk(B,0,3000,b), z=mk(C,0,3000,c);
  const GhostData s=x+y+z; FACES(s,a.m[q]+b.m[q]+c.m[q],a.p[q]+b.p[q]+c.p[q],"finite counts add face by face")
  const GhostData d=x+y-y; FACES(d,a.m[q],a.p[q],"subtraction undoes addition")
}
VC(subtract){
  G a,b; const GhostData y=mk(B,0,INF-1,b);
  int m[3],p[3]; for(int q=0;q<3;++q){ m[q]=vc_int(A[2*q],0,INF-1); p[q]=vc_int(A[2*q+1],0,INF-1); vc_assume(m[q]>=b.m[q]&&p[q]>=b.p[q]); }
  const GhostData x(m[0],p[0],m[1],p[1],m[2],p[2]);
  const GhostData d=x-y; FACES(d,m[q]-b.m[q],p[q]-b.p[q],"finite counts subtract face by face")
  GhostData e(x); e-=y; FACES(e,m[q]-b.m[q],p[q]-b.p[q],"finite counts subtract face by face")
  FACES(y,b.m[q],b.p[q],"operands are unchanged")
}
VC(minimum){
  G a,b; const GhostData x=mk(A,0,INF,a), y=mk(B,0,INF,b);
  const GhostData m=min(x,y);
  FACES(m,(a.m[q]<b.m[q]?a.m[q]:b.m[q]),(a.p[q]<b.p[q]?a.p[q]:b.p[q]),"the minimum is taken face by face")
}
VC(unlimited){
  G a; const GhostData x=mk(A,0,INF-1,a), inf(INF);
  GhostData s=inf+x; vc_check( s==inf, "unlimited plus a finite amount is unlimited" );
  GhostData t=x+inf; vc_check( t==inf, "a finite amount plus unlimited is unlimited" );
  GhostData u=(x+inf)+x; vc_check( u==inf, "a sum that became unlimited stays unlimited" );
  vc_check( min(x,inf)==x && min(inf,x)==x, "unlimited is the identity of the minimum" );
  bool thrown=false; GhostData d(x);
  try{ d-=inf; } catch( std::runtime_error& ){ thrown=true; }
  vc_check( thrown, "subtracting an unlimited amount is refused" );
  vc_check( d==x, "a refused subtraction changes nothing" );
  bool th2=false; try{ GhostData e=inf-inf; } catch( std::runtime_error& ){ th2=true; }
  vc_check( th2, "subtracting an unlimited amount is refused" );
}
// only unlimited on every face is unlimited
VC(partly_unlimited){
  G a,b; const GhostData x=mk(A,0,INF,a), y=mk(B,0,100,b);
  bool all=true; for(int q=0;q<3;++q) all = all && a.m[q]==INF && a.p[q]==INF;
  vc_assume( !all );
  const GhostData s=y+x; FACES(s,a.m[q]+b.m[q],a.p[q]+b.p[q],"finite counts add face by face")
  GhostData big(2*INF); 
  bool thrown=false; GhostData t(IntVec(INF+1,INF+1,INF+1),IntVec(INF+1,INF+1,INF));
  G c; 
  try{ GhostData z(INF-1); z=GhostData(IntVec(a.m[0]+b.m[0],a.m[1]+b.m[1],a.m[2]+b.m[2]),IntVec(a.p[0]+b.p[0],a.p[1]+b.p[1],a.p[2]+b.p[2])); z-=x; FACES(z,b.m[q],b.p[q],"finite counts subtract face by face") } catch( std::runtime_error& ){ thrown=true; }
  vc_check( !thrown, "subtracting a finite amount is accepted" );
}
VC(set_faces){
  G a,b; GhostData x=mk(A,0,INF,a); mk(B,0,INF,b);
  GhostData y(x); y.set_minus(IntVec(b.m[0],b.m[1],b.m[2])); FACES(y,b.m[q],a.p[q],"setting one side leaves the other")
  GhostData z(x); z.set_plus(IntVec(b.p[0],b.p[1],b.p[2])); FACES(z,a.m[q],b.p[q],"setting one side leaves the other")
  GhostData w(0); w.set_minus(IntVec(INF,INF,INF)); w.set_plus(IntVec(INF,INF,INF)); w+=GhostData(5);
  vc_check( w==GhostData(INF), "unlimited on all faces is unlimited however it was set" );
  GhostData v(INF); v.set_plus(IntVec(1,2,3)); v+=GhostData(1);
  vc_check( v.get_plus(0)==2 && v.get_plus(1)==3 && v.get_plus(2)==4, "finite on one side is finite however it was set" );
  GhostData u(INF); u.set_minus(IntVec(1,2,3)); u+=GhostData(1);
  vc_check( u.get_minus(0)==2 && u.get_minus(1)==3 && u.get_minus(2)==4, "finite on one side is finite however it was set" );
}
VC(equality){
  G a,b; const GhostData x=mk(A,0,INF,a), y=mk(B,0,INF,b);
  const bool same=a.m[0]==b.m[0]&&a.m[1]==b.m[1]&&a.m[2]==b.m[2]&&a.p[0]==b.p[0]&&a.p[1]==b.p[1]&&a.p[2]==b.p[2];
  vc_check( (x==y)==same, "ghost counts are equal exactly when all six faces are" );
}
VC(from_point){
  const int i=vc_int("i",-1000,1000), j=vc_int("j",-1000,1000), k=vc_int("k",-1000,1000); const int v[3]={i,j,k};
  const GhostData g=point_to_ghost(IntVec(i,j,k));
  FACES(g,(v[q]<0?-v[q]:0),(v[q]>0?v[q]:0),"a point needs ghosts on the side it lies on, as far as it lies out")
}
