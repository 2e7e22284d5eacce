#!/bin/bash
# build.sh PROP SRCDIR OUTDIR CONFIG(serial|threads) : contract harness + real sources -> OUTDIR/mod.json ; OUTDIR/native
set -e
here=$(cd "$(dirname "$0")" && pwd); prop=$1; repo=$2; out=$3; cfg=$4; what=$5
mkdir -p $out/cfg/spatialops
python3 - $repo/SpatialOpsConfigure.h.in $out/cfg/spatialops/SpatialOpsConfigure.h $cfg <<'PY'
import sys,re
t=open(sys.argv[1]).read(); thr=sys.argv[3]=='threads'
on={'ENABLE_THREADS','FIELD_EXPRESSION_THREADS','STENCIL_THREADS','TILL_THREADS'} if thr else set()
t=re.sub(r'^#cmakedefine\s+(\w+).*$',lambda m:'#define '+m[1] if m[1] in on else '/* #undef %s */'%m[1],t,flags=re.M)
t=t.replace('@NTHREADS@','4').replace('@SOPS_REPO_DATE@','"x"').replace('@SOPS_REPO_HASH@','"x"')
open(sys.argv[2],'w').write(t)
PY
src=$(sed -n 's,^//! src: ,,p' $here/../props/$prop.cpp)
INC="-I$here -I$here/../props -I$out/cfg -I$repo"
B=/usr/lib/llvm-18/bin
if [ "$what" != native ]; then
  pids=(); bcs=()
  F="-std=gnu++17 -O0 -Xclang -disable-O0-optnone -gline-tables-only -w -emit-llvm -c -DVC_SYMBOLIC $INC -fno-inline"
  n=0
  for s in $here/../props/$prop.cpp $(for f in $src; do case $f in rt/*) echo $here/$f;; *) echo $repo/$f;; esac; done); do
    n=$((n+1)); $B/clang++ $F $s -o $out/m$n.bc & pids+=($!); bcs+=($out/m$n.bc)
  done
  for p in ${pids[@]}; do wait $p; done
  if [ $n -gt 1 ]; then $B/llvm-link ${bcs[@]} -o $out/l.bc; else cp ${bcs[0]} $out/l.bc; fi
  roots=$($B/llvm-nm --defined-only $out/l.bc 2>/dev/null | sed -n 's/.* T \(vc__[A-Za-z0-9_]*\)$/\1/p')
  api=""
  $B/opt -passes='internalize,globaldce,function(sroa,early-cse,simplifycfg)' -internalize-public-api-list=$(echo $roots | tr ' ' ',') $out/l.bc -o $out/o.bc
  ${IRDUMP:-$here/../build/irdump} $out/o.bc > $out/mod.json
  echo $roots > $out/roots
fi
if [ "$what" != sym ]; then
  F="-std=gnu++17 $(sed -n 's,^//! nopt: ,,p' $here/../props/$prop.cpp | grep . || echo -O1) -w -fsanitize=address -fno-omit-frame-pointer $INC"
  pids=(); os=(); n=0
  for s in $here/vc_native.cpp $here/../props/$prop.cpp $(for f in $src spatialops/structured/{MemoryPool,MemoryWindow,GhostData,Grid}.cpp; do case $f in rt/*) ;; *) echo $repo/$f;; esac; done | sort -u); do
    n=$((n+1)); clang++ $F -c $s -o $out/n$n.o & pids+=($!); os+=($out/n$n.o)
  done
  for p in ${pids[@]}; do wait $p; done
  clang++ -fsanitize=address ${os[@]} -o $out/native $(sed -n 's,^//! libs: ,,p' $here/../props/$prop.cpp) -lpthread
fi
