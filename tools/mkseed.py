#!/usr/bin/env python3
"""mkseed.py FILE: FILE defines SEEDS = {id: dict(property,needs,breaks,edits=[(file,old,new)],demo=cpp text[,threads])}; writes /verif/seeded/<id>/"""
import sys,os,subprocess,json,shutil
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
SH='''#!/bin/bash
# builds and runs demo.cpp against /repo; exit 0 iff the demonstrated guarantee holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
L=/repo/_build/%s/spatialops
g++ -w -g -O0 -I/repo -I/repo/_build/%s/config "$d/demo.cpp" %s -o "$t/demo" $(find $L -name '*.a') $(find $L -name '*.a') -lboost_thread -lboost_system -lboost_filesystem -lpthread || exit 2
cd "$t" && timeout 120 ./demo
'''
for i,s in ns['SEEDS'].items():
    if only and i not in only: continue
    d=f'/verif/seeded/{i}'; os.makedirs(d,exist_ok=True)
    w=f'/tmp/mkseed_{i}'; shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in s['edits']:
        t=open(f'{w}/{f}').read(); assert t.count(o)==1,(i,f,o,t.count(o)); open(f'{w}/{f}','w').write(t.replace(o,n))
    open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff'],text=True))
    shutil.rmtree(w)
    open(f'{d}/demo.cpp','w').write(s['demo'])
    c='threads' if s.get('threads') else 'serial'
    open(f'{d}/demo.sh','w').write(SH%(c,c,s.get('extra',''))); os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(f'{d}/meta.json','w'),indent=1)
