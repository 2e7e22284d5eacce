"""discharge one contract function: worker.py DUMP.json VCNAME OUT.json OPTS"""
import sys, json, time, traceback, os, resource
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vcgen, terms
def run(mod,name,opts):
    t=time.time()
    e=vcgen.Engine(mod,opts)
    res={'vc':name}
    try:
        e.verify('vc__'+name,opts.get('budget',300))
        res['status']='done'
    except vcgen.Unsupported as x:
        res['status']='unsupported'; res['why']=str(x)[:500]+' @ '+' < '.join(c[:70] for c in e.callstack[-5:][::-1])
    except vcgen.PathLimit as x:
        res['status']='limit'; res['why']=str(x)
    except RecursionError as x:
        res['status']='unsupported'; res['why']='recursion'
    except (KeyError,AttributeError,TypeError,IndexError,ValueError,AssertionError,ZeroDivisionError) as x:
        res['status']='unsupported'; res['why']='engine: '+repr(x)[:200]+' '+traceback.format_exc()[-600:]+' @ '+' < '.join(c[:70] for c in e.callstack[-4:][::-1])
    res.update(obl=e.obl,fail=e.fail,assumed=sorted(e.assumed),trusted=sorted(e.trusted),fns=sorted(e.fns_used),paths=e.paths,covers=e.covers,
        solver_t=e.solver_t,nq=e.nq,by=e.nq_bydec,wall=time.time()-t,loops=e.loopinfo,ends=getattr(e,'ends',0),inputs=e.inputs,unproved_inc=e.o.get('_',0))
    return res
if __name__=='__main__':
    mod=vcgen.Module(sys.argv[1])
    opts=json.loads(sys.argv[4]) if len(sys.argv)>4 else {}
    r=run(mod,sys.argv[2],opts)
    json.dump(r,open(sys.argv[3],'w'),default=str) if sys.argv[3]!='-' else None
    if sys.argv[3]=='-':
        for k in('loops','fns'): r.pop(k)
        print(json.dumps(r,indent=1,default=str))
