#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough]  : decide one property on /repo's current working tree
   run.py --replay FILE                : re-execute a recorded failing input against /repo's real code"""
import sys, os, json, re, time, subprocess, tempfile, shutil, signal, multiprocessing as mp
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
REPO=os.environ.get('VERIF_REPO','/repo')
sys.path.insert(0,HERE)

def meta(prop):
    d={'config':['serial'],'opt':{},'bounded':{},'explain':'','trust':[],'nosearch':[],'assume':[]}
    for l in open(f'{ROOT}/props/{prop}.cpp'):
        m=re.match(r'//! (\w+): (.*)',l)
        if not m: continue
        k,v=m[1],m[2].strip()
        if k=='config': d['config']=v.split()
        elif k=='opt': n,j=v.split(None,1); d['opt'][n]=json.loads(j)
        elif k=='bounded': n,j=v.split(None,1); d['bounded'][n]=j
        elif k=='explain': d['explain']+=(' ' if d['explain'] else '')+v
        elif k=='trust': d['trust'].append(v)
        elif k=='assume': d['assume'].append(v)
        elif k=='nosearch': d['nosearch']+=v.split()
    return d

def build(prop,out,cfg,what):
    return subprocess.Popen(['bash',f'{HERE}/build.sh',prop,REPO,out,cfg,what],stdout=open(f'{out}/build.{what}.log','w'),stderr=subprocess.STDOUT,start_new_session=True)

_MOD=None
def _child(args):
    name,opts,mem=args
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS,(mem,mem))
    except Exception: pass
    import worker
    try: return worker.run(_MOD[opts['_cfg']],name,opts)
    except MemoryError: return {'vc':name,'status':'limit','why':'memory','obl':{},'fail':[],'assumed':[],'trusted':[],'fns':[],'paths':0,'covers':{},'solver_t':0,'nq':0,'by':{},'wall':0,'loops':[],'ends':0,'inputs':[]}

def run_native(exe,args,timeout):
    try:
        p=subprocess.run([exe]+args,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,cwd=os.path.dirname(exe))
        return p.returncode,p.stdout.decode('latin1')[-6000:]
    except subprocess.TimeoutExpired: return 3,'timeout'

def main():
    if sys.argv[1]=='--replay': return replay(sys.argv[2])
    prop=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in sys.argv: tier=sys.argv[sys.argv.index('--tier')+1]
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time()
    only=sys.argv[sys.argv.index('--only')+1] if '--only' in sys.argv else None
    M=meta(prop)
    tmp=tempfile.mkdtemp(prefix=f'vc_{prop}_')
    try: return check(prop,tier,seed,t0,M,tmp,only)
    finally: shutil.rmtree(tmp,ignore_errors=True)

def check(prop,tier,seed,t0,M,tmp,only):
    global _MOD
    quick=tier=='quick'
    ps=[]
    for c in M['config']:
        os.makedirs(f'{tmp}/{c}')
        ps.append((c,'sym',build(prop,f'{tmp}/{c}',c,'sym')))
    for c in M['config']: ps.append((c,'native',build(prop,f'{tmp}/{c}',c,'native')))
    for c,w,p in ps:
        if w=='sym' and p.wait()!=0:
            print(f'ERROR: contracts of {prop} do not build against {REPO} ({c}, {w}):'); print(open(f'{tmp}/{c}/build.{w}.log').read()[-4000:])
            for _,_,q in ps:
                try: os.killpg(q.pid,9)
                except Exception: pass
            return 2
    import vcgen
    _MOD={}; jobs=[]
    for c in M['config']:
        _MOD[c]=vcgen.Module(f'{tmp}/{c}/mod.json')
        for r in open(f'{tmp}/{c}/roots').read().split():
            n=r[4:]
            if only and not re.search(only,n): continue
            o={'budget':420 if quick else 1800,'_cfg':c}; 
            if not quick: o.update(oblig_ms=120000,prove_ms=30000)
            o.update(M['opt'].get('*',{})); o.update(M['opt'].get(n,{}))
            if o.get('only_config') and o['only_config']!=c: continue
            if quick and (o.get('tier')=='thorough' or o.get('quick_config',c)!=c): continue
            jobs.append((n,o,5<<30))
    jobs.sort(key=lambda j:-j[1].get('weight',1))
    results=[]; T1=time.time()
    import gc; gc.collect(); gc.freeze(); gc.set_threshold(50000,20,100)
    with mp.get_context('fork').Pool(8,maxtasksperchild=1) as pool:
        for r,j in zip(pool.imap(_child,jobs,1),jobs):
            r['cfg']=j[1]['_cfg']; results.append(r)
    for c,w,p in ps:
        if w=='native' and p.wait()!=0:
            print(f'ERROR: native contracts of {prop} do not build ({c}):'); print(open(f'{tmp}/{c}/build.{w}.log').read()[-4000:]); return 2
    T2=time.time()
    try: base=json.load(open(f'{ROOT}/props/labels.json')).get(prop,{})
    except Exception: base={}
    def why_of(r):
        o=sum(v['n'] for v in r['obl'].values()); k=sum(v['ok'] for v in r['obl'].values())
        if r['status']!='done': return f"{r['status']}: {r.get('why','')}"
        if r['fail'] or o!=k: return '; '.join(sorted({l for l,v in r['obl'].items() if v['ok']!=v['n']}))
        if r['ends']==0 or o==0: return 'vacuous: no path reaches the end of the contract'
        miss=[l for l in base.get(r['vc'],[]) if l not in r['obl']]
        return 'obligation no longer generated: '+'; '.join(miss) if miss else None
    bad=[(r,w) for r,w in ((r,why_of(r)) for r in results) if w is not None]
    if '--labels' in sys.argv:
        f=f'{ROOT}/props/labels.json'
        try: d=json.load(open(f))
        except Exception: d={}
        lab={}
        for r in results: lab.setdefault(r['vc'],[]).append({l for l,v in r['obl'].items() if v['kind']=='ensures'})
        d[prop]={n:sorted(set.intersection(*x)) for n,x in lab.items()}     # generated in every configuration
        json.dump(d,open(f,'w'),indent=1,sort_keys=True)
    # ---- native execution: replay of the verifier's models, then seeded search on the real code
    known=[]
    try:
        for l in open(f'{ROOT}/known_findings.txt'):
            m=re.match(r'known: property=(\S+) contract=(\S+) label=(.*)',l)
            if m and m[1]==prop: known.append((m[2],m[3].strip()))
    except FileNotFoundError: pass
    viol=[]; nat=[]
    evd=f'{ROOT}/evidence/replay'; os.makedirs(evd,exist_ok=True)
    for f in os.listdir(evd):
        if f.startswith(prop+'-'): os.unlink(f'{evd}/{f}')
    failing={}
    def native_job(r,secs,maxn):
        n=r['vc']; c=r['cfg']; exe=f'{tmp}/{c}/native'; out=f'{tmp}/{c}/{n}.rp'
        k=0
        for fl in r['fail']:
            for d in fl.get('inputs',[]):
                for salt in range(4):
                    f=f'{tmp}/{c}/{n}.{k}.in'; k+=1
                    open(f,'w').write(f'vc {n}\nsalt {salt*7919+seed}\n'+''.join(f'in {a} {b}\n' for a,b in d.items()))
                    rc,o=run_native(exe,['replay',f,out],70)
                    if rc==1: found.append(n); return ('replayed',o,out)
        if found and id(r) in badn: secs=min(secs,2)
        rc,o=run_native(exe,['search',n,str(secs),str(seed),out,str(maxn)],secs+90)
        if rc==1: found.append(n); return ('search',o,out)
        return ('none',o,None)
    from concurrent.futures import ThreadPoolExecutor
    badn={id(r) for r,_ in bad}
    left=max(60,500-(time.time()-t0)) if quick else 1200
    found=[]      # once a failing input is known, the other failed contracts are searched briefly
    nb=max(1,len(bad))
    ssec=min(45 if quick else 240, left*0.8/((nb+7)//8))
    with ThreadPoolExecutor(8) as ex:
        futs=[]
        for r in results:
            if r['vc'] in M['nosearch']: continue
            if id(r) in badn: futs.append((r,ex.submit(native_job,r,ssec,10**9)))
            else: futs.append((r,ex.submit(native_job,r,(2 if quick else 20),4000 if quick else 10**9)))
        for r,f in futs:
            kind,o,out=f.result()
            m=re.search(r'cases=(\d+)',o); nat.append((r['vc'],int(m[1]) if m else 0))
            if kind!='none': failing[id(r)]=(kind,o,out)
    # ---- contracts left undischarged without a failing input: second proof strategy (other simplification order, longer time limits)
    if bad and not failing:
        byname={(n,o['_cfg']):o for n,o,_ in jobs}
        again=[]
        for r,w in bad:
            if w.startswith('obligation no longer') : continue
            o=dict(byname[r['vc'],r['cfg']]); o['alt']=not o.get('alt',False); o['feas_ms']=1500
            again.append((r['vc'],o,5<<30,id(r)))
        room=(810 if quick else 6000)-(time.time()-t0); waves=(len(again)+7)//8
        if again and room>20*waves:
            for x in again: x[1]['budget']=min(room/waves,420 if quick else 1800)
            with mp.get_context('fork').Pool(8,maxtasksperchild=1) as pool:
                for q,(n,o,_,i) in zip(pool.imap(_child,[x[:3] for x in again],1),again):
                    q['cfg']=o['_cfg']; q['strategy']='second'
                    if why_of(q) is None:
                        for z,r in enumerate(results):
                            if id(r)==i: results[z]=q; bad=[x for x in bad if x[0] is not r]
    nobl=nok=0; bad=[]; fns=set(); assumed=set(M['assume']); trusted=set(M['trust']); by={}; st=0.0; proved=[]; per=[]
    for r in results:
        n=r['vc']; rec={'contract':n,'config':r['cfg'],'status':r['status'],'paths':r['paths'],'wall_s':round(r['wall'],2)}
        o=sum(v['n'] for v in r['obl'].values()); k=sum(v['ok'] for v in r['obl'].values())
        bounded=n in M['bounded']
        rec['obligations']=o; rec['discharged']=k; 
        if bounded: rec['bounded']=M['bounded'][n]
        nobl+=0 if bounded else o; nok+=0 if bounded else k
        fns|=set(r['fns']); assumed|=set(r['assumed']); trusted|=set(r['trusted']); st+=r['solver_t']
        for a,b in r['by'].items(): by[a]=by.get(a,0)+b
        why=why_of(r)
        if r.get('strategy'): rec['strategy']=r['strategy']
        rec['loops']=len(r['loops'])
        if why is None: proved.append(n)
        else: rec['why']=why[:1000]; bad.append((r,why))
        per.append(rec)
    for r in results:
        n=r['vc']; why=dict((id(a),b) for a,b in bad).get(id(r))
        if id(r) not in failing and why is None: continue
        rp=f'{evd}/{prop}-{r["cfg"]}-{n}.txt'
        vo=json.dumps({'status':r['status'],'why':why,'failed':r['fail'],'obligations':{l:v for l,v in r['obl'].items() if v['ok']!=v['n']}},indent=1,default=str)
        if id(r) in failing:
            kind,o,out=failing[id(r)]
            lab=re.search(r'FAIL \S+: (.*)',o); lab=lab[1] if lab else '?'
            head=open(out).read() if out and os.path.exists(out) else f'vc {n}\n'
            open(rp,'w').write(f'# replay: python3 {HERE}/run.py --replay {rp}\nprop {prop}\nconfig {r["cfg"]}\n'+head+f'# found by: {kind} on the real code\n# native output:\n'+'\n'.join('#  '+x for x in o.strip().split('\n'))+'\n# verifier:\n'+'\n'.join('#  '+x for x in vo.split('\n'))+'\n')
            if (n,lab) in known: print(f'KNOWN-FINDING: property={prop} {n}: {lab}'); continue
            viol.append((rp,'',n,lab))
        else:
            open(rp,'w').write(f'# no failing input found; failed obligation(s) of contract {n} ({r["cfg"]}): {why}\nprop {prop}\nconfig {r["cfg"]}\nvc {n}\n# verifier:\n'+'\n'.join('#  '+x for x in vo.split('\n'))+'\n')
            viol.append((rp,' no-failing-input-found',n,why))
    # real failing inputs first
    viol.sort(key=lambda v:v[1]!='')
    anyreal=any(v[1]=='' for v in viol)
    wall=time.time()-t0
    nb_=[r for r in per if 'bounded' in r]
    ev={'property':prop,'tier':tier,'seed':seed,'level':level(prop),'wall_s':round(wall,1),'violations':len(viol),
        'assumptions':sorted(assumed)+['doubles are modelled as mathematical reals (no rounding, NaN or infinities) by the verifier; native replay uses IEEE doubles'],
        'coverage':{'obligations':nobl,'discharged':nok,'checker_cmd':f'python3-vt engine/run.py {prop} --tier {tier}',
          'trusted_base':sorted(trusted)+['clang 18 front end (C++ to LLVM IR at -O0 + sroa/early-cse/simplifycfg), engine/irdump.cpp, engine/vcgen.py','z3 5.3 (cvc5 fallback)'],
          'explanation':M['explain'] or 'contracts discharged by the deductive verifier over the LLVM IR of the real sources',
          'contracts':per,'functions_under_contract_or_inlined':sorted(f for f in fns if not f.startswith('vc_'))[:400],'n_functions':len(fns),'bounded_obligations':sum(r['obligations'] for r in nb_),'bounded_discharged':sum(r['discharged'] for r in nb_),
          'backends':by,'solver_s':round(st,2),'proved_contracts':len(proved),'bounded_contracts':len(nb_),
          'native_cases':sum(x for _,x in nat),'evaluations':sum(x for _,x in nat)}}
    os.makedirs(f'{ROOT}/evidence',exist_ok=True)
    json.dump(ev,open(f'{ROOT}/evidence/{prop}.json','w'),indent=1)
    for rp,tail,n,lab in viol:
        if anyreal and tail: print(f'(undischarged as well: {n}: {str(lab)[:200]})'); continue
        print(f'{n}: {str(lab)[:300]}')
        print(f'VIOLATION property={prop} replay={rp}{tail}')
    print(f'{prop} [{tier}] contracts={len(results)} proved={len(proved)} obligations={nobl} discharged={nok} native_cases={sum(x for _,x in nat)} solver={st:.1f}s wall={wall:.1f}s (build {T1-t0:.0f} proof {T2-T1:.0f} rest {t0+wall-T2:.0f})')
    if '-v' in sys.argv:
        for r in sorted(per,key=lambda r:-r['wall_s']): print('   ',r)
    return 1 if viol else 0

def level(prop):
    try:
        for c in json.load(open(f'{ROOT}/MANIFEST.json'))['checks']:
            if c['property']==prop: return c['level']
    except Exception: pass
    return 'proof'

def replay(f):
    d={}
    for l in open(f):
        m=re.match(r'(prop|config|vc) (\S+)',l)
        if m: d[m[1]]=m[2]
    tmp=tempfile.mkdtemp(prefix='vc_replay_')
    try:
        os.makedirs(f'{tmp}/x')
        if build(d['prop'],f'{tmp}/x',d['config'],'native').wait()!=0: print(open(f'{tmp}/x/build.native.log').read()[-3000:]); return 2
        rc,o=run_native(f'{tmp}/x/native',['replay',os.path.abspath(f)],120); print(o); return rc
    finally: shutil.rmtree(tmp,ignore_errors=True)
if __name__=='__main__': sys.exit(main())
