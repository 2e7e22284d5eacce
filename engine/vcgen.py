"""Deductive VC generator over LLVM IR (dumped by irdump).

Forward symbolic execution of one contract function (vc__*) with
 * loops cut by inductive invariants (inferred as affine forms over ghost iteration coordinates,
   then proved inductive; harness-supplied array rules / predicates / folds),
 * callee replaced by contract stubs where the harness registers one,
 * every obligation (ensures, invariant, memory safety, assert) discharged by an SMT solver.
"""
import sys, json, re, time, os
from fractions import Fraction
import z3
from terms import *
import terms as T

sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class PathLimit(Exception): pass

class _Undef:
    def __repr__(s): return "undef"
UNDEF=_Undef()

class Ptr:
    __slots__=('obj','off')
    def __init__(s,obj,off): s.obj=obj; s.off=off
    def __repr__(s): return f"&{s.obj}+{show(s.off)}"
    def __eq__(s,o): return isinstance(o,Ptr) and s.obj==o.obj and s.off==o.off
    def __hash__(s): return hash((s.obj,s.off))
NULL=Ptr(0,0)
class Fn:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return f"fn:{s.name}"
    def __eq__(s,o): return isinstance(o,Fn) and s.name==o.name
    def __hash__(s): return hash(s.name)
class Agg:
    __slots__=('v',)
    def __init__(s,v): s.v=v
    def __repr__(s): return f"Agg{s.v}"
    def __eq__(s,o): return isinstance(o,Agg) and s.v==o.v
class Parts:   # little-endian byte composite: [(size,val)]
    __slots__=('p',)
    def __init__(s,p): s.p=p
    def __repr__(s): return f"Parts{s.p}"
    def __eq__(s,o): return isinstance(o,Parts) and s.p==o.p
class Bits:    # 32-bit word of a bit array: content of word `blk` of array obj `arr` (version snapshot) plus point updates
    __slots__=('arr','blk','upd','ver')
    def __init__(s,arr,blk,upd,ver): s.arr=arr; s.blk=blk; s.upd=upd; s.ver=ver   # upd: tuple of (pos,cond); ver: contents it was read from
    def __repr__(s): return f"Bits({s.blk},{s.upd})"
    def __eq__(s,o): return s is o
class OneHot:  # 1 << pos (neg: complement)
    __slots__=('pos','neg')
    def __init__(s,pos,neg=False): s.pos=pos; s.neg=neg
    def __repr__(s): return f"OneHot({show(s.pos)},{s.neg})"
class BitTest: # (word & onehot): non-zero iff cond
    __slots__=('c',)
    def __init__(s,c): s.c=c
    def __repr__(s): return f"BitTest({s.c})"
class Exc:
    __slots__=('ti','ptr')
    def __init__(s,ti,ptr): s.ti=ti; s.ptr=ptr

class Obj:
    __slots__=('kind','size','cells','zero','name','esz','et','dims','base','stores','rule','alive','heap','old','const')
    def __init__(s,kind,size,name):
        s.kind=kind; s.size=size; s.name=name; s.cells={}; s.zero=(); s.esz=0; s.et=None; s.dims=None
        s.base=None; s.stores=(); s.rule=None; s.alive=True; s.heap=False; s.old=None; s.const=False
    def copy(s):
        n=Obj(s.kind,s.size,s.name)
        n.cells=dict(s.cells); n.zero=s.zero; n.esz=s.esz; n.et=s.et; n.dims=s.dims; n.base=s.base; n.stores=s.stores
        n.rule=s.rule; n.alive=s.alive; n.heap=s.heap; n.old=s.old; n.const=s.const
        return n

class PC:
    __slots__=('parent','cond','depth','sub','sc')
    def __init__(s,parent,cond): s.parent=parent; s.cond=cond; s.depth=parent.depth+1 if parent else 0; s.sub=None; s.sc=None
ROOT=PC(None,True)

class State:
    __slots__=('pc','objs','sub','exc','ghost','flags','conc','log')
    def __init__(s):
        s.pc=ROOT; s.objs={}; s.sub={}; s.exc=None; s.ghost={}; s.flags={}; s.conc=False; s.log=()
    def clone(s):
        n=State(); n.pc=s.pc; n.objs=dict(s.objs); n.sub=s.sub; n.exc=s.exc; n.ghost=dict(s.ghost); n.flags=dict(s.flags); n.conc=s.conc; n.log=s.log
        return n
    def conds(s):
        r=[]; p=s.pc
        while p.parent is not None: r.append(p.cond); p=p.parent
        r.reverse(); return r

def bits_of(t): 
    return int(t[1:])
def tsize(t):
    if t=='ptr' or t=='double': return 8
    if t=='float': return 4
    if isinstance(t,str) and t[0]=='i':
        n=bits_of(t); return 1 if n<=8 else (n+7)//8
    if isinstance(t,dict): return t['sz']
    if t=='fp80': return 16
    raise Unsupported(f"size of type {t}")

NOOP=re.compile(r'^(std::(basic_)?(o|i|io)?stream|std::basic_ostream|std::ostream|std::__cxx11::basic_(string|ostringstream|stringstream|stringbuf)|std::basic_streambuf|std::basic_ios|std::ios_base|std::allocator<char>|std::(runtime_error|logic_error|exception|out_of_range|invalid_argument|bad_alloc|length_error|bad_cast|domain_error)::|void std::__throw_|std::operator\+|std::__cxx11::to_string|std::operator<<|std::locale|std::setw|std::setprecision|std::char_traits|std::filebuf|std::basic_ofstream|std::__ostream|printf|fprintf|puts|putchar|fflush|std::flush|std::endl|boost::exception|boost::enable_error_info|boost::throw_exception)|operator<<.*\(std::(ostream|basic_ostream)|^std::basic_ostream.*operator<<|^(class )?std::__cxx11::basic_string.* std::operator|^std::enable_if.*std::basic_ostream')
FMATH={'sin','cos','tan','exp','tanh','sqrt','log','log10','erf','erfc','pow','fabs','floor','ceil','fmod','atan','cosh','sinh'}

class Module:
    def __init__(s,path):
        d=json.load(open(path))
        s.fns={f['name']:f for f in d['fns']}
        s.globals={g['name']:g for g in d['globals']}
        s.alias={a[0]:a[1] for a in d['aliases']}
        for f in s.fns.values():
            if 'blocks' in f:
                f['hdr']={}
                for l in f['loops']: f['hdr'][l['h']]=(l['h'],frozenset(l['b']))

def nonlinear(c):
    if isinstance(c,bool): return False
    if c[0] in('le','lt','eq','ne'): return isinstance(c[1],Poly) and any(len(m)>1 for m in c[1].t)
    if c[0] in('and','or'): return any(nonlinear(x) for x in c[1])
    return False
class NeedInvariant(Exception):
    def __init__(s,why): s.why=why

class Engine:
    def __init__(s,mod,opts=None):
        s.m=mod; s.o=opts or {}
        s.nobj=1
        s.gobj={}
        s.obl={}       # label -> dict(status, n, ...)
        s.fail=[]      # failures
        s.assumed=set()
        s.fns_used=set()
        s.paths=0; s.covers={}
        s.solver_t=0.0; s.nq=0; s.nq_bydec={'syntactic':0,'z3':0,'cvc5':0}
        s.tid={}
        s.inputs=[]    # harness inputs in order
        s.stubs={}
        s.trusted=set()
        s.record=True
        s.deadline=None
        s.inc=z3.Solver(); s.inc.set('rlimit',s.o.get('feas_ms',400)*6000); s.incstack=[]
        s.cache={}; s.compcache={}; s.submemo={}
        s.loopinfo=[]
        s.maxpaths=s.o.get('maxpaths',20000)
        s.unroll_limit=s.o.get('unroll',70)
        s.fold=None
        s.unknown_ext=set()
        s.dims_protected=set()
    # ------------------------------------------------------------ solver
    def z3pc(s,st): return [cond_z3(c) for c in st.conds()]
    def feasible(s,st,c):
        """may c hold under pc? (unknown counts as yes)"""
        if isinstance(c,bool): return c
        k=('f',st.pc,c)
        if k in s.cache: return s.cache[k]
        if s.deadline and time.time()>s.deadline: raise PathLimit("time budget")
        if nonlinear(c) and not st.conc:
            v=s.strong(st,c,s.o.get('nl_ms',1500))
            s.cache[k]=v!='unsat'
            return v!='unsat'
        # align incremental solver with st.pc
        chain=[]; p=st.pc
        while p.parent is not None: chain.append(p); p=p.parent
        chain.reverse()
        i=0
        while i<len(chain) and i<len(s.incstack) and s.incstack[i] is chain[i]: i+=1
        if i<len(s.incstack):
            s.inc.pop(len(s.incstack)-i); del s.incstack[i:]
        for p in chain[i:]:
            s.inc.push(); s.inc.add(cond_z3(p.cond)); s.incstack.append(p)
        t=time.time()
        s.inc.push(); s.inc.add(cond_z3(c))
        r=s.inc.check()
        s.inc.pop()
        s.solver_t+=time.time()-t; s.nq+=1
        res = r!=z3.unsat
        if r==z3.unknown and not st.conc:
            # one stronger attempt, non-incremental
            v=s.strong(st,c,2000)
            res = v!='unsat'
        s.cache[k]=res
        return res
    def compaction(s,st,order=0):
        """single names for the compound array dimensions (pivot variables replaced): a satisfiability-preserving substitution"""
        dims=[]; spd=[]; prot=set()
        for o in st.objs.values():
            if o.kind=='array':
                for d in o.dims:
                    d=s.norm(st,d)
                    if isinstance(d,Poly) and len(d.t)>1 and d not in dims: dims.append(d)
        sp=st.ghost.get('space')
        if sp is not None:
            for d in sp[:3]:
                d=s.norm(st,d)
                if isinstance(d,Poly) and len(d.t)>1 and d not in spd: spd.append(d)
                elif order and isinstance(d,Poly): prot|=set(d.atoms())
        dims=(spd+[d for d in dims if d not in spd]) if order else dims+[d for d in spd if d not in dims]
        if not dims: return None
        key=(order,tuple(dims),frozenset(prot))
        if key in s.compcache: return s.compcache[key]
        mp={}; undo={}; facts=[]
        for d0 in dims:
            d=subst_poly(d0,mp)
            if not isinstance(d,Poly) or len(d.t)<2: continue
            piv=None
            for want in ('var','ite'):
                for m,c in d.t.items():
                    if len(m)==1 and c in(1,-1) and ATOMS[m[0]].kind==want and m[0] not in prot and m[0] not in undo and m[0] not in mp and all(m[0]==k or m[0] not in atom_deps(k) for mm in d.t for k in mm):
                        piv=(m[0],c); break
                if piv: break
            if piv is None: continue
            D=named('D$'+str(len(s.compcache))+'_'+str(len(undo)),'i',1,None,0)
            rest=mkpoly({m:c for m,c in d.t.items() if m!=(piv[0],)},False)
            e=sub(D,rest) if piv[1]==1 else sub(rest,D)
            if ATOMS[piv[0]].kind=='ite': facts.append((piv[0],e))
            mp={x:subst_poly(v,{piv[0]:e}) for x,v in mp.items()}; mp[piv[0]]=e
            undo[list(D.atoms())[0]]=d0
        facts=[(a,subst_poly(e,{k:v for k,v in mp.items() if k!=a})) for a,e in facts]
        s.compcache[key]=[mp,undo,facts,{},None]
        return s.compcache[key]
    def strong(s,st,c,ms,want_model=False):
        """check sat of pc & c. returns 'sat'/'unsat'/'unknown' (and model)"""
        t=time.time()
        # keep the defining equations of substituted atoms for models
        g=subst_cond(c,st.sub)
        model=None
        if g is False: return ('unsat',None) if want_model else 'unsat'
        cm=None if want_model else s.compaction(st)
        if cm:
            mp=cm[0]; memo=cm[3]
            g=subst_cond(g,mp,memo)
            if g is False: return 'unsat'
            if cm[4] is None:
                mv={k:v for k,v in mp.items() if ATOMS[k].kind=='var'}; ex=[]
                for at,e in cm[2]:
                    A=ATOMS[at]; ai=ite(subst_cond(A.args[0],mv),subst_poly(A.args[1],mv),subst_poly(A.args[2],mv))
                    ex.append(c_eq0(sub(ai,e)))
                for q in cm[1]: ex.append(('le',sub(1,Poly({(q,):1},False))))
                cm[4]=[x for x in ex if x is not True]
        # path facts under the current substitution and compaction, remembered per fact
        k=(id(st.sub),id(cm)); p=st.pc; cs=[]; zs=[]; smemo=None
        while p.parent is not None:
            if p.sc is None: p.sc={}
            e=p.sc.get(k)
            if e is None:
                if smemo is None:
                    e=s.submemo.get(id(st.sub))
                    if e is None: e=s.submemo[id(st.sub)]=(st.sub,{})
                    smemo=e[1]
                x=subst_cond(p.cond,st.sub,smemo)
                if cm: x=subst_cond(x,cm[0],cm[3])
                e=p.sc[k]=(st.sub,cm,x,None if isinstance(x,bool) else cond_z3(x))
            x=e[2]
            if x is False: return ('unsat',None) if want_model else 'unsat'
            if x is not True: cs.append(x); zs.append(e[3])
            p=p.parent
        cs.reverse(); zs.reverse()
        if cm:
            if any(x is False for x in cm[4]): return 'unsat'
            zs+=[cond_z3(x) for x in cm[4]]
        if want_model:
            zs+=[cond_z3(x) for x in (c_eq0(sub(Poly({(a,):1},False),v)) for a,v in st.sub.items() if ATOMS[a].sort=='i' and is_num(v)) if not isinstance(x,bool)]
        zs.append(cond_z3(g))
        res='unknown'
        for tactic in (0,1):
            sv=z3.Solver() if tactic==0 else z3.Then('simplify','solve-eqs','smt').solver()
            sv.set('timeout',ms)
            if tactic==1: 
                try: sv.set('random_seed',7)
                except Exception: pass
            sv.add(*zs)
            r=sv.check()
            if r==z3.unsat: res='unsat'; break
            if r==z3.sat:
                res='sat'; model=sv.model(); break
        s.solver_t+=time.time()-t; s.nq+=1
        return (res,model) if want_model else res
    def prove(s,st,c,quick=False):
        """is c implied by pc?"""
        if isinstance(c,bool): return c
        c2=subst_cond(c,st.sub)
        if isinstance(c2,bool): 
            if c2: return True
        k=('p',st.pc,c2,quick)
        if k in s.cache: return s.cache[k]
        if isinstance(c2,bool):
            r=not s.feasible(st,True) if False else False
        elif c2[0]=='and': r=all(s.prove(st,x,quick) for x in c2[1])
        else:
            n=c_not(c2)
            p=st.pc; r=False
            # syntactic hit
            while p.parent is not None:
                if p.cond==c2: r=True; break
                p=p.parent
            if not r:
                if not s.feasible(st,n): r=True
                elif not quick: r = s.strong(st,n,s.o.get('prove_ms',8000))=='unsat'
        s.cache[k]=r
        return r
    # ------------------------------------------------------------ state helpers
    def norm(s,st,x):
        if isinstance(x,Poly) and st.sub: return subst_poly(x,st.sub)
        return x
    def ncond(s,st,c):
        if isinstance(c,tuple) and st.sub: return subst_cond(c,st.sub)
        return c
    def assume(s,st,c):
        if c is True: return st
        if c is False: st.pc=PC(st.pc,False); return st
        if c[0]=='and':
            for x in c[1]: s.assume(st,x)
            return st
        st.pc=PC(st.pc,c)
        if c[0]=='eq': s.learn_eq(st,c[1])
        elif c[0] in('bv','nbv'):
            st.sub=dict(st.sub); st.sub[c[1]]=(c[0]=='bv')
        elif c[0]=='le':
            # x<=0 together with the interval bound x>=0 is an equality
            lo,_=iv(c[1])
            if lo==0 and not isreal(c[1]): s.assume(st,('eq',c[1]))
        return st
    def learn_eq(s,st,p):
        p=subst_poly(p,st.sub)
        if not isinstance(p,Poly): return
        best=None
        for m,c in p.t.items():
            if len(m)!=1: continue
            a=m[0]; at=ATOMS[a]
            if at.kind!='var' or (a in s.dims_protected and not (len(p.t)==1 or (len(p.t)==2 and () in p.t))): continue
            if not p.real and c not in(1,-1): continue
            # must not occur elsewhere
            occ=sum(1 for mm in p.t for x in mm if a in atom_deps(x))
            if occ!=1: continue
            if best is None or at.prio>ATOMS[best].prio: best=a
        if best is None: return
        c=p.t[(best,)]
        rest=mkpoly({m:v for m,v in p.t.items() if m!=(best,)},p.real)
        e=rdiv(neg(rest),toreal(c)) if p.real else (neg(rest) if c==1 else rest)
        one={best:e}
        ns={k:(subst_poly(v,one) if isinstance(v,(Poly,)) else v) for k,v in st.sub.items()}
        ns[best]=e
        st.sub=ns
    conc_both=False
    def branch(s,st,c):
        """returns list of (state, bool) for feasible outcomes"""
        c=s.ncond(st,c)
        if isinstance(c,bool): return [(st,c)]
        if st.conc:
            if s.feasible(st,c):
                if s.conc_both and s.feasible(st,c_not(c)):
                    b=st.clone(); s.assume(st,c); s.assume(b,c_not(c)); return [(st,True),(b,False)]
                s.assume(st,c); return [(st,True)]
            s.assume(st,c_not(c)); return [(st,False)]
        n=c_not(c)
        p=st.pc
        while p.parent is not None:
            if p.cond==c: return [(st,True)]
            if p.cond==n: return [(st,False)]
            p=p.parent
        ft=s.feasible(st,c); ff=s.feasible(st,n)
        if ft and ff:
            st.pc.sub=st.sub
            a=st; b=st.clone()
            s.assume(a,c); s.assume(b,n)
            s.paths+=1
            if s.paths>s.maxpaths: raise PathLimit("too many paths")
            return [(a,True),(b,False)]
        if ft: s.assume(st,c); return [(st,True)]
        if ff: s.assume(st,n); return [(st,False)]
        return []
    def newobj(s,st,kind,size,name):
        i=s.nobj; s.nobj+=1
        o=Obj(kind,size,name); st.objs[i]=o
        return i
    # ------------------------------------------------------------ obligations
    def split_eq(s,st,c,fuel):
        """prove an equality of reals by cases over the conditional values in it, outermost first"""
        c=s.ncond(st,c)
        if isinstance(c,bool): return c or not s.feasible(st,True)
        at=None
        if c[0]=='eq' and isreal(c[1]):
            for a in sorted(c[1].atoms(),reverse=True):
                if ATOMS[a].kind=='ite': at=a; break
        if at is None or fuel[0]<=0: return s.prove(st,c)
        fuel[0]-=1
        A=ATOMS[at]; cd=A.args[0]
        for v,k in ((True,1),(False,2)):
            n=st.clone(); s.assume(n,s.ncond(n,cd if v else c_not(cd)))
            if n.pc.cond is False or not s.feasible(n,True): continue
            if not s.split_eq(n,c_eq0(subst_poly(c[1],{at:A.args[k]})),fuel): return False
        return True
    def oblig(s,st,c,label,kind='ensures',must=True):
        """obligation c under pc; afterwards assumed"""
        if not s.record:
            if c is not True: s.assume(st,s.ncond(st,c))
            return True
        rec=s.obl.setdefault(label,{'n':0,'ok':0,'kind':kind,'fail':0,'unknown':0})
        rec['n']+=1
        c2=s.ncond(st,c)
        ok=False
        if isinstance(c2,tuple) and c2[0]=='eq' and isinstance(c2[1],Poly) and c2[1].real and nonlinear(c2): c2=s.deite(st,c2)
        if c2 is True: ok=True; s.nq_bydec['syntactic']+=1
        elif s.split_eq(st,c2,[40]) or s.prove(st,c2): ok=True; s.nq_bydec['z3']+=1
        if ok: rec['ok']+=1
        else:
            r,m=s.strong(st,c_not(c2),s.o.get('oblig_ms',20000),True)
            if r=='unsat': rec['ok']+=1; ok=True; s.nq_bydec['z3']+=1
            elif r=='unknown' and s.cvc5(st,c_not(c2))=='unsat':
                rec['ok']+=1; ok=True; s.nq_bydec['cvc5']+=1
            else:
                rec['fail' if r=='sat' else 'unknown']+=1
                if len(s.fail)<12:
                    s.fail.append({'label':label,'kind':kind,'result':r,'cond':str(c2)[:600],'inputs':s.small_models(st,c_not(c2)) ,'log':list(st.log)[-6:]})
        if not ok and c2 is False: return False
        if c2 is not True: s.assume(st,c2)
        return ok
    def deite(s,st,c):
        """resolve the conditional values of a nonlinear equation whose conditions are decided"""
        for rnd in range(40):
            if not isinstance(c,tuple) or not isinstance(c[1],Poly): return c
            its=[]
            for a in c[1].atoms():
                for d in {a}|set(atom_deps(a)):
                    if ATOMS[d].kind=='ite' and d not in its: its.append(d)
            m={}
            for d in its[:60]:
                at=ATOMS[d]
                q=s.ncond(st,at.args[0])
                if not isinstance(q,bool):
                    if nonlinear(q): continue
                    if s.prove(st,q,quick=True): q=True
                    elif s.prove(st,c_not(q),quick=True): q=False
                if isinstance(q,bool): m[d]=at.args[1 if q else 2]
            if not m: return c
            m={d:Fraction(v) if isinstance(v,int) and ATOMS[d].sort=='r' else v for d,v in m.items()}
            c=s.ncond(st,subst_cond(c,m))
        return c
    def cvc5(s,st,c):
        try:
            sv=z3.Solver(); sv.add(*s.z3pc(st)); sv.add(cond_z3(c))
            txt="(set-logic ALL)\n"+sv.to_smt2()
            import subprocess
            r=subprocess.run(['cvc5','--tlimit=%d'%s.o.get('cvc5_ms',15000),'--nl-ext-tplanes'],input=txt,capture_output=True,text=True,timeout=60)
            return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
        except Exception: return 'unknown'
    def small_models(s,st,c):
        """a few concrete assignments of the harness inputs (small ones first)"""
        zs=s.z3pc(st)+[cond_z3(c)]
        ints=[n for n,k in s.inputs if k=='i']; bools=[n for n,k in s.inputs if k=='b']; reals=[n for n,k in s.inputs if k=='r']
        out=[]
        for B in (2,3,4,6,9,16,60,None):
            sv=z3.Solver(); sv.set('timeout',3000); sv.add(*zs)
            if B is not None:
                for n in ints:
                    v=z3.Int(n); sv.add(v<=B,v>=-B)
            if sv.check()==z3.sat:
                m=sv.model(); d={}
                for n in ints: d[n]=str(m.eval(z3.Int(n),model_completion=True))
                for n in bools: d[n]='1' if z3.is_true(m.eval(z3.Bool(n),model_completion=True)) else '0'
                for n in reals:
                    v=m.eval(z3.Real(n),model_completion=True)
                    try: d[n]=repr(float(v.as_fraction()))
                    except Exception: d[n]='0.0'
                if d not in out: out.append(d)
                if len(out)>=3: break
        return out
    def dead_end(s,st,label,kind):
        """reaching this point is an obligation failure unless the path is infeasible"""
        s.oblig(st,False,label,kind)
    # ------------------------------------------------------------ globals
    def gptr(s,st,name):
        if name in s.m.alias: return s.val_const(st,s.m.alias[name])
        if name not in s.gobj:
            s.gobj[name]=s.nobj; s.nobj+=1
        i=s.gobj[name]
        if i not in st.objs:
            g=s.m.globals[name]
            o=Obj('cells',g['size'],'@'+name); o.const=g['const']
            if 'init' in g: s.fill_const(st,o,0,g['init'],g['type'])
            st.objs[i]=o
        return Ptr(i,0)
    def fill_const(s,st,o,off,c,t):
        k=c[0]
        if k=='zero' or (k=='null' and False): o.zero=o.zero+((off,tsize(c[1])),); return
        if k=='agg':
            t=c[1]
            if t['k']=='s':
                for (fo,ft),x in zip(t['f'],c[2]): s.fill_const(st,o,off+fo,x,ft)
            else:
                for n,x in enumerate(c[2]): s.fill_const(st,o,off+n*t['es'],x,t['e'])
            return
        if k=='undef': return
        o.cells[off]=(tsize(t),s.val_const(st,c))
    def val_const(s,st,c):
        k=c[0]
        if k=='c':
            if c[2]==1: return c[1] not in('0',)
            return int(c[1])
        if k=='f':
            h=c[1]
            if 'inf' in h or 'nan' in h: return Poly.atom(mk_atom('var',('fp_'+h,),'r','fp_'+h))
            return Fraction(float.fromhex(h))
        if k=='null': return NULL
        if k=='fn':
            return Fn(c[1])
        if k=='g': return s.gptr(st,c[1])
        if k=='undef':
            return s.undef_of(c[1])
        if k=='zero':
            t=c[1]; return s.zero_of(t)
        if k=='agg': return Agg([s.val_const(st,x) for x in c[2]])
        if k=='gep':
            p=s.val_const(st,c[1]); off=c[2]
            for v,sc in c[3]: off=add(off,mul(s.val_const(st,v),sc))
            return Ptr(p.obj,add(p.off,off))
        if k=='ce':
            if c[1] in('bitcast','inttoptr','ptrtoint','addrspacecast'): return s.val_const(st,c[3][0])
            if c[1]=='sub':
                a=s.val_const(st,c[3][0]); b=s.val_const(st,c[3][1]); 
                if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj: return sub(a.off,b.off)
        raise Unsupported(f"constant {c[:2]}")
    def undef_of(s,t):
        if isinstance(t,dict) and t['k'] in('s',): return Agg([s.undef_of(f[1]) for f in t['f']])
        return UNDEF
    def zero_of(s,t):
        if t=='ptr': return NULL
        if t in('double','float'): return Fraction(0)
        if isinstance(t,dict):
            if t['k']=='s': return Agg([s.zero_of(f[1]) for f in t['f']])
            if t['k']=='a': return Agg([s.zero_of(t['e']) for _ in range(t['n'])])
        if t=='i1': return False
        return 0
    # ------------------------------------------------------------ arrays
    def elem_index(s,st,o,off):
        off=s.norm(st,off)
        if is_const(off):
            if off%o.esz: return None
            return off//o.esz
        t={}
        for m,c in off.t.items():
            if c%o.esz: return None
            t[m]=c//o.esz
        return mkpoly(t,False)
    def decompose(s,st,idx,dims,last_open=False):
        """idx = a + d0*(b + d1*c) with 0<=a<d0, 0<=b<d1, 0<=c<d2 (proved). returns (coords, extra) or None"""
        idx=s.norm(st,idx)
        ds=[s.norm(st,d) for d in dims]
        act=[k for k in range(len(ds)) if not(is_const(ds[k]) and ds[k]==1)]
        if not act:
            c=[0]*len(ds)
            return c if idx==0 else None
        # introduce single-atom names for compound dims
        back={}
        fw={}
        dd=[]
        for k in act:
            d=subst_poly(ds[k],fw) if fw else ds[k]
            if isinstance(d,Poly) and not(len(d.t)==1 and list(d.t.values())==[1] and len(list(d.t)[0])==1):
                # choose pivot
                piv=None
                for m,c in d.t.items():
                    if len(m)==1 and c in(1,-1) and ATOMS[m[0]].kind=='var' and m[0] not in back:
                        piv=(m[0],c); break
                if piv is None: return None
                D=Poly.atom(mk_atom('dimname',(d,),'i',lo=1))
                rest=mkpoly({m:c for m,c in d.t.items() if m!=(piv[0],)},False)
                e=sub(D,rest) if piv[1]==1 else sub(rest,D)
                back[list(D.t)[0][0]]=d
                one={piv[0]:e}
                fw={x:subst_poly(v,one) for x,v in fw.items()}; fw[piv[0]]=e
                dd=[subst_poly(x,one) for x in dd]
                d=D
            dd.append(d)
        if fw: idx=subst_poly(idx,fw)
        if len(act)==1:
            cs=[idx]
        else:
            cs=[]
            rem=idx
            # strides from the largest
            parts=[]
            for lvl in range(len(act)-1,0,-1):
                stride=1
                for x in dd[:lvl]: stride=mul(stride,x)
                q,r=s.polydiv(rem,stride)
                parts.append(q); rem=r
            parts.append(rem)
            cs=parts[::-1]
        # undo naming
        if back: cs=[subst_poly(x,back) if isinstance(x,Poly) else x for x in cs]
        for attempt in s.shifts(len(cs)):
            if attempt is None: cand=cs
            else:
                cand=list(cs)
                k,q=attempt
                cand[k]=add(cand[k],mul(q,ds[act[k]])); cand[k+1]=sub(cand[k+1],q)
            cand=[s.norm(st,x) for x in cand]
            ok=True
            for n,(x,k) in enumerate(zip(cand,act)):
                lastdim = n==len(act)-1
                if not s.prove(st,c_le0(neg(x)),quick=attempt is not None): ok=False;break
                if lastdim and last_open: continue
                if not s.prove(st,c_lt0(sub(x,ds[k])),quick=attempt is not None): ok=False;break
            if ok:
                full=[0]*len(ds)
                for x,k in zip(cand,act): full[k]=x
                return full
        return None
    def shifts(s,n):
        yield None
        for k in range(n-1):
            for q in (-1,1): yield (k,q)
    def polydiv(s,p,d):
        """split p = q*d + r, r = monomials not divisible by the leading monomial of d (d is a const or a monomial)"""
        if is_const(p):
            if is_const(d): return (p//d,p-d*(p//d))
            return (0,p)
        if is_const(d):
            q={};r={}
            for m,c in p.t.items():
                k=c//d if m else c//d
                if c-d*k and m: 
                    # keep symmetrical for symbolic parts
                    pass
                q[m]=k; r[m]=c-d*k
            return mkpoly(q,False),mkpoly(r,False)
        if len(d.t)!=1: return (0,p)
        (dm,dc),=d.t.items()
        q={};r={}
        for m,c in p.t.items():
            l=list(m); ok=True
            for a in dm:
                if a in l: l.remove(a)
                else: ok=False;break
            if ok and c%dc==0: q[tuple(l)]=q.get(tuple(l),0)+c//dc
            else: r[m]=r.get(m,0)+c
        return mkpoly(q,False),mkpoly(r,False)
    def arr_read(s,st,o,coords):
        coords=[s.norm(st,c) for c in coords]
        conds=[]
        for (sc,v) in reversed(o.stores):
            if sc[0]=='W':     # a whole 32-bit word of a bit array: flat position in [32*blk,32*blk+31]
                d=s.norm(st,sub(s.flat(o,coords),mul(sc[1],32)))
                if is_const(d):
                    if 0<=d<32: r=v; break
                    continue
                eq=s.ncond(st,c_and(c_le0(neg(d)),c_lt0(sub(d,32))))
                if eq is True: r=v; break
                if eq is False: continue
                conds.append((eq,v)); continue
            diff=[s.norm(st,sub(a,b)) for a,b in zip(coords,sc)]
            if any(is_const(d) and d!=0 for d in diff): continue
            diff=[d for d in diff if not is_const(d)]
            eq=c_and(*[c_eq0(d) for d in diff])
            if eq is False: continue
            if eq is True or s.prove(st,eq,quick=True):
                r=v; break
            if not s.feasible(st,eq): continue
            conds.append((eq,v))
        else:
            r=s.arr_base(st,o,coords)
        for eq,v in reversed(conds): r=ite(eq,v,r)
        return r
    def flat(s,o,coords):
        d=o.dims; return add(coords[0],mul(d[0],add(coords[1],mul(d[1],coords[2]))))
    def arr_base(s,st,o,coords):
        if o.rule is not None:
            fn,ctx,g,old=o.rule
            if old.et=='b':
                ov=s.arr_read(st,old,coords)
                return s.to_cond(s.eval_pure(st,fn,[ctx]+list(g)+list(coords)+[s.zext_cond(ov)]))
            ov=s.arr_read(st,old,coords)
            return s.eval_pure(st,fn,[ctx]+list(g)+list(coords)+[ov])
        idx=tuple(coords)
        if o.et=='b': return mk_bsel(o.base,idx)
        return mk_sel(o.base,idx,o.et)
    def eval_pure(s,st,fn,args):
        if len(args)<len(s.m.fns[fn.name]['args']): raise Unsupported("callback arity")
        c=st.clone(); d0=c.pc
        rec=s.record; s.record=False; s.pure+=1
        try: outs=s.call(c,fn.name,args)
        finally: s.pure-=1
        s.record=rec
        res=None
        vals=[]
        for o,kind,v in outs:
            if kind!='ret': raise Unsupported("callback throws")
            cs=[]; p=o.pc
            while p is not d0: cs.append(p.cond); p=p.parent
            vals.append((c_and(*cs[::-1]),v))
        if not vals: raise Unsupported("callback has no feasible path")
        r=vals[-1][1]
        for cnd,v in reversed(vals[:-1]): r=ite(cnd,v,r) if not isinstance(v,Ptr) else (v if v==r else s._bad())
        return r
    def _bad(s): raise Unsupported("pointer-valued callback")
    narr=0
    def acc_coords(s,st,o,off,what):
        s.narr+=1
        idx=s.elem_index(st,o,off)
        if idx is None: raise Unsupported(f"misaligned access to array {o.name}: {show(off)}")
        c=s.decompose(st,idx,o.dims)
        if c is None:
            # report as a memory-safety obligation: flat bounds or coordinate bounds not provable
            s.oblig(st,False,f"memory safety: {what} of {o.name} stays inside the field",'safety')
            return None
        if s.record:
            rec=s.obl.setdefault(f"memory safety: {what} of {o.name} stays inside the field",{'n':0,'ok':0,'kind':'safety','fail':0,'unknown':0})
            rec['n']+=1; rec['ok']+=1; s.nq_bydec['z3']+=1
        return c
    # ------------------------------------------------------------ memory
    def live(s,st,p,what):
        """check pointer; returns obj or None (path killed)"""
        if p is UNDEF: s.dead_end(st,f"memory safety: {what} through uninitialised pointer",'safety'); return None
        if not isinstance(p,Ptr):
            if p==0: p=NULL
            else: raise Unsupported(f"{what} via {p!r}")
        if p.obj==0: s.dead_end(st,f"memory safety: null {what}",'safety'); return None
        o=st.objs.get(p.obj)
        if o is None: raise Unsupported(f"{what}: unknown object {p}")
        if not o.alive: s.dead_end(st,f"memory safety: {what} after free/scope end ({o.name})",'safety'); return None
        return o
    def load(s,st,p,t):
        """returns list of (state,value)"""
        o=s.live(st,p,'load')
        if o is None: return []
        if o.kind=='array': return s.load_arr(st,o,p,t)
        off=s.norm(st,p.off)
        if not is_const(off):
            return [r for st2,off2 in s.split_off(st,o,off,tsize(t)) for r in s.load(st2,Ptr(p.obj,off2),t)]
        if isinstance(t,dict):
            if t['k']=='s':
                vs=[]
                for fo,ft in t['f']:
                    r=s.load(st,Ptr(p.obj,off+fo),ft)
                    vs.append(r[0][1])
                return [(st,Agg(vs))]
            if t['k']=='a':
                return [(st,Agg([s.load(st,Ptr(p.obj,off+n*t['es']),t['e'])[0][1] for n in range(t['n'])]))]
        n=tsize(t)
        if off<0 or (is_const(o.size) and off+n>o.size):
            s.dead_end(st,f"memory safety: load out of bounds ({o.name})",'safety'); return []
        return [(st,s.conv(s.read_cells(o,off,n),t))]
    def read_cells(s,o,off,n):
        c=o.cells.get(off)
        if c is not None and c[0]==n: return c[1]
        # overlapping?
        parts=[]; pos=off; end=off+n
        if c is not None and c[0]>n: return s.slice(c[1],c[0],0,n)
        if c is None:
            for k,(sz,v) in o.cells.items():
                if k<off<k+sz:
                    if off+n<=k+sz: return s.slice(v,sz,off-k,n)
                    raise Unsupported("straddling load")
        while pos<end:
            c=o.cells.get(pos)
            if c is not None:
                if pos+c[0]>end: raise Unsupported("straddling load")
                parts.append((c[0],c[1])); pos+=c[0]
            else:
                nxt=min([k for k in o.cells if k>pos]+[end])
                z=None
                for (zo,zn) in o.zero:
                    if zo<=pos<zo+zn: z=min(nxt,zo+zn); break
                if z is not None: parts.append((z-pos,0)); pos=z
                else:
                    zz=min([zo for zo,zn in o.zero if zo>pos]+[nxt])
                    parts.append((zz-pos,UNDEF)); pos=zz
        if len(parts)==1: return parts[0][1]
        if all(v is UNDEF for _,v in parts): return UNDEF
        if all(isinstance(v,int) and v==0 and not isinstance(v,bool) for _,v in parts): return 0
        return Parts(parts)
    def slice(s,v,sz,o,n):
        if v is UNDEF: return UNDEF
        if isinstance(v,int) and not isinstance(v,bool):
            x=(v>>(8*o))&((1<<(8*n))-1)
            if x>=1<<(8*n-1): x-=1<<(8*n)
            return x
        if isinstance(v,Parts):
            pos=0; out=[]
            for k,x in v.p:
                a=max(pos,o); b=min(pos+k,o+n)
                if a<b:
                    if a==pos and b==pos+k: out.append((k,x))
                    else: out.append((b-a,s.slice(x,k,a-pos,b-a)))
                pos+=k
            return out[0][1] if len(out)==1 else Parts(out)
        if isinstance(v,NullType:=Ptr) and v==NULL: return 0
        raise Unsupported(f"partial load of {type(v).__name__}")
    def conv(s,v,t):
        """reinterpret stored value as type t"""
        if v is UNDEF: return v
        if t in('double','float'):
            if isinstance(v,(Fraction,)): return v
            if isinstance(v,Poly): 
                if v.real: return v
                raise Unsupported("int bits as double")
            if isinstance(v,int):
                if v==0: return Fraction(0)
                import struct
                return Fraction(struct.unpack('<d',struct.pack('<q',v))[0]) if t=='double' else (_ for _ in ()).throw(Unsupported("float bits"))
            raise Unsupported(f"load {v!r} as double")
        if t=='ptr':
            if isinstance(v,(Ptr,Fn)): return v
            if isinstance(v,int) and v==0: return NULL
            if isinstance(v,int): return Ptr(-1,v)
            raise Unsupported(f"load {v!r} as ptr")
        if t=='i1': 
            if isinstance(v,(bool,tuple)): return v
            return s.to_cond(v)
        return v
    def split_off(s,st,o,off,n):
        """case split of a symbolic offset into a small object"""
        size=o.size
        if not is_const(size) or size>4096: raise Unsupported(f"symbolic offset into {o.name}")
        res=[]; cur=st
        cands=[k for k in range(0,size-n+1,n if n in(1,2,4,8) else 1)]
        rest=[]
        inb=c_or(*[c_eq0(sub(off,k)) for k in cands]) if len(cands)<=64 else True
        for k in cands:
            e=s.ncond(cur,c_eq0(sub(off,k)))
            if e is False: continue
            for b,tv in s.branch(cur,e):
                if tv: res.append((b,k)); 
                else: cur=b; continue
            if not any(not tv for _,tv in []): pass
            # did the false branch survive?
            if e is True: return res
            if not s.feasible(cur,c_not(e)) and cur is not None:
                return res
        s.dead_end(cur,f"memory safety: indexed access inside {o.name}",'safety')
        return res
    def load_arr(s,st,o,p,t):
        if o.et=='b' :
            return s.load_bits(st,o,p,t)
        c=s.acc_coords(st,o,p.off,'read')
        if c is None: return []
        v=s.arr_read(st,o,c)
        return [(st,v)]
    def store(s,st,p,v,t):
        o=s.live(st,p,'store')
        if o is None: return []
        if o.const: raise Unsupported("store to constant global")
        if o.kind=='array':
            if o.et=='b': return s.store_bits(st,o,p,v,t)
            c=s.acc_coords(st,o,p.off,'write')
            if c is None: return []
            n=o.copy(); 
            if v is UNDEF: v=fresh('undef',o.et)
            if o.et=='r': v=toreal(v)
            n.stores=o.stores+((tuple(s.norm(st,x) for x in c),v),)
            st.objs[p.obj]=n
            return [st]
        off=s.norm(st,p.off)
        if not is_const(off):
            return [r for st2,off2 in s.split_off(st,o,off,tsize(t)) for r in s.store(st2,Ptr(p.obj,off2),v,t)]
        n=tsize(t)
        if off<0 or (is_const(o.size) and off+n>o.size):
            s.dead_end(st,f"memory safety: store out of bounds ({o.name})",'safety'); return []
        if isinstance(v,Agg):
            for (fo,ft),x in zip(t['f'],v.v) if t['k']=='s' else [((i*t['es'],t['e']),x) for i,x in enumerate(v.v)]:
                r=s.store(st,Ptr(p.obj,off+fo),x,ft)
                if not r: return []
            return [st]
        o2=o.copy()
        if t=='i1': v=s.zext_cond(v)
        s.write_cell(o2,off,n,v)
        st.objs[p.obj]=o2
        return [st]
    def write_cell(s,o,off,n,v):
        if isinstance(v,Parts):
            pos=off
            for k,x in v.p: s.write_cell(o,pos,k,x); pos+=k
            return
        c=o.cells.get(off)
        if c is None or c[0]!=n:
            for k in [k for k,(sz,_) in o.cells.items() if k<off+n and off<k+sz]:
                sz,x=o.cells.pop(k)
                if k<off: o.cells[k]=(off-k,s.slice(x,sz,0,off-k))
                if k+sz>off+n: o.cells[off+n]=(k+sz-off-n,s.slice(x,sz,off+n-k,k+sz-off-n))
        o.cells[off]=(n,v)
    # bit arrays: dims are the *bit* coordinates; memory words are 32 bits
    def load_bits(s,st,o,p,t):
        off=s.norm(st,p.off)
        blk=s.elem_index(st,o,off)
        if blk is None or t!='i32': raise Unsupported("bit array access width")
        return [(st,Bits(p.obj,blk,(),(o.stores,o.base,o.rule)))]
    def store_bits(s,st,o,p,v,t):
        blk=s.elem_index(st,o,p.off)
        if blk is None or t!='i32': raise Unsupported("bit array access width")
        if isinstance(v,Bits) and v.arr==p.obj and s.norm(st,sub(v.blk,blk))==0:
            s.fresh_bits(o,v)
            n=o.copy()
            for pos,c in v.upd:
                fl=s.bitnorm(st,add(mul(blk,32),pos))
                co=s.decompose(st,fl,o.dims)
                if co is None:
                    s.oblig(st,False,f"memory safety: bit write of {o.name} stays inside the mask",'safety'); return []
                n.stores=n.stores+((tuple(s.norm(st,x) for x in co),c),)
            st.objs[p.obj]=n
            return [st]
        if is_const(v) and v in(0,-1,2**32-1):
            tot=1
            for d in o.dims: tot=mul(tot,d)
            ok=c_and(c_le0(neg(blk)),c_lt0(sub(mul(blk,32),tot)))
            if not s.oblig(st,ok,f"memory safety: word write of {o.name} stays inside the mask",'safety'): return []
            n=o.copy(); n.stores=o.stores+((('W',s.norm(st,blk)),v!=0),); st.objs[p.obj]=n
            return [st]
        raise Unsupported("word store to bit array")
    def fresh_bits(s,o,b):
        if not(o.stores is b.ver[0] and o.base==b.ver[1] and o.rule is b.ver[2]): raise Unsupported("mask word used after the mask has changed")
    def bit_cond(s,st,b,pos):
        o=st.objs[b.arr]; s.fresh_bits(o,b)
        fl=s.bitnorm(st,add(mul(b.blk,32),pos))
        co=s.decompose(st,fl,o.dims)
        if co is None:
            s.oblig(st,False,f"memory safety: bit read of {o.name} stays inside the mask",'safety'); return None
        r=None
        for ps,c in reversed(b.upd):
            d=s.norm(st,sub(ps,pos))
            if is_const(d):
                if d==0: return c
                continue
            raise Unsupported("bit alias")
        return s.arr_read(st,o,co)
    # ------------------------------------------------------------ ints/conds
    def zext_cond(s,c):
        if c is UNDEF: return c
        if isinstance(c,bool): return 1 if c else 0
        if isinstance(c,tuple): return ite(c,1,0)
        return c
    def to_cond(s,v):
        """integer -> (v != 0) & 1 for i8/i1 bool encodings"""
        if v is UNDEF: return UNDEF
        if isinstance(v,(bool,tuple)): return v
        if isinstance(v,BitTest): return v.c
        if is_const(v): return (v&1)==1
        x=s.single_ite(v)
        if x is not None:
            c,a,b=x
            if is_const(a) and is_const(b): return ite(c,(a&1)==1,(b&1)==1)
        lo,hi=iv(v)
        if lo is not None and hi is not None and lo>=0 and hi<=1: return c_ne0(v)
        raise Unsupported(f"trunc to bool of {show(v)}")
    as_cond=to_cond
    def single_ite(s,p):
        """p = k*ite(c,a,b)+r with constants -> (c,ka+r,kb+r)"""
        if not isinstance(p,Poly) or len(p.t)>2: return None
        it=None; r=0
        for m,c in p.t.items():
            if m==(): r=c
            elif len(m)==1 and ATOMS[m[0]].kind=='ite' and it is None: it=(m[0],c)
            else: return None
        if it is None: return None
        c,a,b=ATOMS[it[0]].args
        return c,add(mul(a,it[1]),r),add(mul(b,it[1]),r)
    def rng(s,n): return -(1<<(n-1)),(1<<(n-1))-1
    def wrap(s,st,v,n,nsw,what):
        if isinstance(v,(int,)) and not isinstance(v,bool):
            lo,hi=s.rng(n)
            if lo<=v<=hi: return v
            return ((v+(1<<(n-1)))%(1<<n))-(1<<(n-1))
        lo,hi=s.rng(n); a,b=iv(v)
        if a is not None and b is not None and a>=lo and b<=hi: return v
        if nsw:
            if st.flags.get('ovf') and s.record:
                s.oblig(st,c_and(c_le0(sub(v,hi)),c_le0(sub(lo,v))),f"no signed overflow: {what}",'overflow')
            else: s.assumed.add("signed integer arithmetic assumed not to overflow (nsw) except where an overflow obligation is stated")
            return v
        # unsigned/wrapping op: exact when provable
        v2=s.norm(st,v)
        if not isinstance(v2,Poly): return s.wrap(st,v2,n,nsw,what)
        if s.prove(st,c_and(c_le0(sub(v2,hi)),c_le0(sub(lo,v2))),quick=True): return v
        return sub(imod_pos(add(v2,-lo),1<<n),-lo)
    def unsigned(s,st,v,n):
        if is_const(v): return v%(1<<n)
        lo,_=iv(v)
        if lo is not None and lo>=0: return v
        v2=s.norm(st,v)
        if is_const(v2): return v2%(1<<n)
        lo,_=iv(v2)
        if lo is not None and lo>=0: return v
        if s.prove(st,c_le0(neg(v2)),quick=True): return v
        return ite(c_lt0(v2),add(v2,1<<n),v2)
    def cmp(s,st,pred,a,b,n):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a,(Ptr,Fn)) or isinstance(b,(Ptr,Fn)): return s.cmp_ptr(st,pred,a,b)
        if isinstance(a,BitTest) or isinstance(b,BitTest):
            if isinstance(b,BitTest): a,b=b,a
            if is_const(b) and b==0 and pred in('eq','ne'): return a.c if pred=='ne' else c_not(a.c)
            raise Unsupported("bit test comparison")
        if isinstance(a,Parts) or isinstance(b,Parts): 
            raise Unsupported("cmp of parts")
        if isinstance(a,(Bits,OneHot)) or isinstance(b,(Bits,OneHot)): raise Unsupported("cmp of bits")
        if isinstance(a,(bool,tuple)) or isinstance(b,(bool,tuple)):
            a=s.to_cond(a); b=s.to_cond(b)
            r={'eq':c_iff,'ne':c_xor}.get(pred)
            if r is None: a=s.zext_cond(a); b=s.zext_cond(b)
            else: return r(a,b)
        if pred[0]=='u':
            a=s.unsigned(st,a,n); b=s.unsigned(st,b,n); pred='s'+pred[1:]
        if pred in('eq','ne') and isinstance(a,Poly) and isinstance(b,Poly):
            x=s.single_ite(a); y=s.single_ite(b)
            if x is not None and y is not None and is_const(x[1]) and is_const(x[2]) and {x[1],x[2]}=={0,1} and {y[1],y[2]}=={0,1}:
                p=x[0] if x[1]==1 else c_not(x[0]); q=y[0] if y[1]==1 else c_not(y[0])
                return (c_iff if pred=='eq' else c_xor)(p,q)
        d=s.norm(st,sub(a,b))
        x=s.single_ite(d)
        f={'eq':c_eq0,'ne':c_ne0,'slt':c_lt0,'sle':c_le0,'sgt':lambda q:c_lt0(neg(q)),'sge':lambda q:c_le0(neg(q))}[pred]
        if x is not None and is_const(x[1]) and is_const(x[2]): return ite(x[0],f(x[1]),f(x[2]))
        return f(d)
    def cmp_ptr(s,st,pred,a,b):
        if is_const(a) and a==0: a=NULL
        if is_const(b) and b==0: b=NULL
        if isinstance(a,Fn) or isinstance(b,Fn):
            eq = a==b
            return eq if pred=='eq' else (not eq)
        if not(isinstance(a,Ptr) and isinstance(b,Ptr)): raise Unsupported(f"pointer comparison {a!r} {b!r}")
        if a.obj!=b.obj:
            if pred=='eq': return False
            if pred=='ne': return True
            s.trusted.add("relational comparison of pointers into different objects uses an arbitrary fixed object order")
            less=a.obj<b.obj
            return less if pred in('ult','ule','slt','sle') else not less
        d=s.norm(st,sub(a.off,b.off))
        if not is_const(d) and a.obj>0 and st.objs[a.obj].kind=='array' and len(st.objs[a.obj].dims)>1:
            o=st.objs[a.obj]
            ia=s.elem_index(st,o,a.off); ib=s.elem_index(st,o,b.off)
            if ia is not None and ib is not None:
                ca=s.decompose(st,ia,o.dims,True); cb=s.decompose(st,ib,o.dims,True)
                if ca is not None and cb is not None:
                    eq=c_and(*[c_eq0(s.norm(st,sub(x,y))) for x,y in zip(ca,cb)])
                    if pred=='eq': return eq
                    if pred=='ne': return c_not(eq)
                    lt=False
                    # lexicographic from the slowest dimension
                    for k in range(len(ca)):
                        dk=s.norm(st,sub(ca[k],cb[k]))
                        lt=c_or(c_lt0(dk),c_and(c_eq0(dk),lt))
                    if pred in('ult','slt'): return lt
                    if pred in('ule','sle'): return c_or(lt,eq)
                    if pred in('ugt','sgt'): return c_not(c_or(lt,eq))
                    return c_not(lt)
        p={'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(pred,pred)
        return {'eq':c_eq0,'ne':c_ne0,'slt':c_lt0,'sle':c_le0,'sgt':lambda q:c_lt0(neg(q)),'sge':lambda q:c_le0(neg(q))}[p](d)
    def idivrem(s,st,a,b,rem,unsig,n):
        if a is UNDEF or b is UNDEF: return UNDEF
        if unsig: a=s.unsigned(st,a,n); b=s.unsigned(st,b,n)
        a=s.norm(st,a); b=s.norm(st,b)
        if is_const(b):
            if b==0: s.dead_end(st,"division by zero",'safety'); return None
        elif not s.prove(st,c_ne0(b)):
            s.oblig(st,c_ne0(b),"no integer division by zero",'safety')
        if is_const(a) and is_const(b):
            q=ediv(a,b); return a-b*q if rem else q
        if is_const(b) and abs(b)==1:
            return 0 if rem else mul(a,b)
        isbit= is_const(b) and b==32 and any(o.kind=='array' and o.et=='b' for o in st.objs.values())
        if isbit:
            # word and bit of a flat position (non-negative: C division is floor)
            fixed=isinstance(a,Poly) and any(len(m)==1 and ATOMS[m[0]].kind=='fdiv' and c%32==0 and is_const(s.norm(st,fmod_atom(*ATOMS[m[0]].args))) for m,c in a.t.items())
            a=s.bitnorm(st,a)
            if (fixed or not s.o.get('alt')) and not is_const(a) and s.nonneg_flat(st,a): return s.wordbit(st,a,rem)
        if s.prove(st,c_lt0(neg(b)),quick=True):
            for aa,d,back in s.namings(st,a,b):
                q,r=s.polydiv(aa,d)
                if back: q=subst_poly(q,back); r=subst_poly(r,back)
                for dq in (0,-1,1):
                    q2=add(q,dq); r2=sub(r,mul(b,dq))
                    if s.prove(st,c_le0(neg(r2)),quick=dq!=0) and s.prove_lt(st,r2,b) :
                        if s.prove(st,c_le0(neg(q2)),quick=dq!=0): return r2 if rem else q2
        if isbit:
            if is_const(a):
                if a>=0: return a%32 if rem else a//32
            elif s.nonneg_flat(st,a): return s.wordbit(st,a,rem)
            elif s.prove(st,c_le0(neg(a))):
                q=idiv_atom(a,32); r=sub(a,mul(q,32))
                st.pc=PC(PC(PC(st.pc,('le',neg(r))),('le',sub(r,31))),('le',neg(q)))
                return r if rem else q
        return imod_atom(a,b) if rem else idiv_atom(a,b)
    def wordbit(s,st,a,rem):
        s.bitfact(st,a); q=fdiv_atom(a,32); st.pc=PC(st.pc,('le',neg(q))); s.inside_fact(st,q,fmod_atom(a,32))
        return fmod_atom(a,32) if rem else fdiv_atom(a,32)
    def bitfact(s,st,a):
        r=fmod_atom(a,32)
        if is_const(r): return
        st.pc=PC(PC(st.pc,('le',neg(r))),('le',sub(r,31)))
        q=fdiv_atom(a,32); st.pc=PC(st.pc,('le',sub(mul(q,32),a)))     # floor division
    def inside_fact(s,st,q,b):
        """a flat position whose coordinates are all in range is a position of the mask (lemma: mixed radix)"""
        fl=s.bitnorm(st,add(mul(q,32),b))
        for o in st.objs.values():
            if o.kind=='array' and o.et=='b' and s.decompose(st,fl,o.dims) is not None:
                n=mul(mul(o.dims[0],o.dims[1]),o.dims[2])
                st.pc=PC(PC(PC(st.pc,('le',neg(fl))),('le',add(sub(fl,n),1))),('le',neg(q))); return
    def nonneg_flat(s,st,a):
        for o in st.objs.values():
            if o.kind!='array' or o.et!='b': continue
            co=s.decompose(st,a,o.dims,last_open=True)
            if co is None: continue
            act=[k for k in range(len(co)) if not(is_const(s.norm(st,o.dims[k])) and s.norm(st,o.dims[k])==1)]
            # a position of the field, or its end
            if not act: continue
            d=s.norm(st,sub(co[act[-1]],o.dims[act[-1]]))
            if (is_const(d) and d==0 and all(is_const(co[k]) and co[k]==0 for k in act[:-1])) or s.prove(st,c_le0(add(d,1)),quick=True): return True
        return False
    def bitnorm(s,st,p):
        """32*fdiv(a)+fmod(a) = a"""
        p=s.norm(st,p)
        if not isinstance(p,Poly): return p
        for m,c in list(p.t.items()):
            if len(m)==1 and ATOMS[m[0]].kind=='fdiv' and c%32==0:
                A=ATOMS[m[0]].args; r=fmod_atom(*A); (rm,_),=r.t.items()
                rn=s.norm(st,r)
                if is_const(rn): p=add(sub(p,mul(Poly.atom(ATOMS[m[0]]),c)),mul(sub(A[0],rn),c//32))
                elif p.t.get(rm)==c//32: p=add(sub(p,add(mul(Poly.atom(ATOMS[m[0]]),c),mul(r,c//32))),mul(A[0],c//32))
                if not isinstance(p,Poly): return p
        # the same choice made for word and bit: 32*ite(c,q1,q2)+ite(c,r1,r2) = ite(c,32*q1+r1,32*q2+r2)
        its=[(m[0],c) for m,c in p.t.items() if len(m)==1 and ATOMS[m[0]].kind=='ite' and ATOMS[m[0]].sort=='i']
        for x,cx in its:
            for y,cy in its:
                if cx!=32*cy or repr(ATOMS[x].args[0])!=repr(ATOMS[y].args[0]): continue
                rest=mkpoly({m:c for m,c in p.t.items() if m not in((x,),(y,))},False)
                (_,q1,q2),(_,r1,r2)=ATOMS[x].args,ATOMS[y].args
                f1=s.bitnorm(st,add(rest,add(mul(q1,cx),mul(r1,cy)))); f2=s.bitnorm(st,add(rest,add(mul(q2,cx),mul(r2,cy))))
                if (f1==f2) and type(f1)==type(f2): return f1
        return p
    def namings(s,st,a,b):
        """ways to name compound dimensions before a polynomial division of a by b"""
        seen=set()
        if not(isinstance(b,Poly) and len(b.t)>1):
            seen.add((a,b)); yield a,b,None
            if not isinstance(b,Poly) or len(list(b.t)[0])<2: return
        for o in (0,1):
            cm=s.compaction(st,o)
            if cm:
                aa=subst_poly(a,cm[0]); d=subst_poly(b,cm[0])
                if not(isinstance(d,Poly) and len(d.t)>1) and (aa,d) not in seen: seen.add((aa,d)); yield aa,d,cm[1]
        if isinstance(b,Poly) and len(b.t)>1: yield s.name_dim(a,b)
    def name_dim(s,a,b):
        for m,c in b.t.items():
            if len(m)==1 and c in(1,-1) and ATOMS[m[0]].kind=='var':
                D=Poly.atom(mk_atom('dimname',(b,),'i',lo=1))
                rest=mkpoly({mm:cc for mm,cc in b.t.items() if mm!=m},False)
                e=sub(D,rest) if c==1 else sub(rest,D)
                return subst_poly(a,{m[0]:e}),D,{list(D.t)[0][0]:b}
        return a,b,None
    def prove_lt(s,st,r,b):
        """r < b, using a product decomposition of b when it is a monomial product"""
        if s.prove(st,c_lt0(sub(r,b)),quick=True): return True
        if isinstance(b,Poly) and len(b.t)==1:
            (m,c),=b.t.items()
            if len(m)==2 and c==1:
                for x,y in ((0,1),(1,0)):
                    e=Poly({(m[x],):1},False); f=Poly({(m[y],):1},False)
                    q,rr=s.polydiv(r,e)
                    # 0<=rr<e, q<f  =>  e*q+rr < e*f
                    if s.prove(st,c_lt0(sub(q,f)),quick=True) and s.prove(st,c_lt0(sub(rr,e)),quick=True): return True
        return s.prove(st,c_lt0(sub(r,b)))
    # ------------------------------------------------------------ functions
    def call(s,st,name,args,depth=0):
        """execute a function; returns list of (state,'ret'|'throw',value)"""
        if s.deadline and time.time()>s.deadline: raise PathLimit("time budget")
        f=s.m.fns.get(name)
        if f is None:
            if name in s.m.alias: return s.call(st,s.m.alias[name][1],args)
            raise Unsupported(f"call to unknown {name}")
        r=s.builtin(st,f,name,args)
        if r is not None: return r
        if 'blocks' not in f:
            raise Unsupported(f"external function {f['dem']}")
        if len(s.callstack)>200: raise Unsupported("recursion depth")
        s.callstack.append(f['dem'])
        s.fns_used.add(f['dem'])
        env={}
        for i,a in enumerate(args):
            env[i]=a
        allocs=[]
        outs=s.run(st,f,env,0,None,None)
        s.callstack.pop()
        res=[]
        for o,kind,v,env2 in outs:
            for i in env2.get('allocs',()):
                if i in o.objs: del o.objs[i]
            res.append((o,kind,v))
        return s.merge_outs(res) if len(res)>1 and s.merge else res
    merge=True
    def callstack_split(s): return not s.pure
    pure=0
    def joinable(s,c):
        """conditions whose two outcomes are joined again (comparisons between two symbolic quantities); others stay case splits"""
        if isinstance(c,bool): return True
        k=c[0]
        if k in('le','eq','ne'):
            p=c[1]
            if is_const(p): return True
            if p.real: return True
            a=p.atoms()
            return len(a)>=2 or any(ATOMS[x].kind=='ite' for x in a)
        if k in('and','or'): return all(s.joinable(x) for x in c[1])
        return False
    callstack=[]
    def merge_outs(s,res):
        res=list(res)
        while True:
            n=len(res); best=None
            for i in range(n):
                if res[i][1]!='ret' or res[i][0].conc: continue
                for j in range(i+1,n):
                    if res[j][1]!='ret': continue
                    a=res[i][0].pc; b=res[j][0].pc
                    while a is not b:
                        if a.depth>=b.depth: a=a.parent
                        else: b=b.parent
                        if a is None or b is None: break
                    if a is None or b is None: continue
                    if best is None or a.depth>best[0]: 
                        best=(a.depth,a,i,j) if (i,j,'x') not in s.nomerge else best
            if best is None: break
            _,anc,i,j=best
            m=s.merge2(anc,res[i],res[j])
            if m is None: break
            res[i]=m; del res[j]
        return res
    nomerge=frozenset()
    def merge2(s,anc,x,y):
        (a,_,va),(b,_,vb)=x,y
        if anc.sub is None: return None
        def cs(st):
            r=[]; p=st.pc
            while p is not anc: r.append(p.cond); p=p.parent
            return r[::-1]
        ca,cb=cs(a),cs(b)
        if not ca or not cb: return None
        if not all(s.joinable(c) for c in ca+cb): return None
        com=[c for c in ca if c in cb]       # facts learnt on both sides stay facts
        if com and len(com)<len(ca) and len(com)<len(cb):
            ca=[c for c in ca if c not in com]; cb=[c for c in cb if c not in com]
        else: com=[]
        A=c_and(*ca); B=c_and(*cb)
        if isinstance(A,bool) or isinstance(B,bool): return None
        if a.flags!=b.flags or a.log!=b.log or a.exc is not b.exc: return None
        if a.ghost.keys()!=b.ghost.keys() or any(a.ghost[k] is not b.ghost[k] and a.ghost[k]!=b.ghost[k] for k in a.ghost): return None
        BAD=object()
        cond=ca[0] if len(ca)==1 or c_not(ca[0])==cb[0] else A
        def mv(p,q):
            if p is q: return p
            if p is None or q is None: return BAD
            if isinstance(p,(bool,tuple)) and isinstance(q,(bool,tuple)): return ite(cond,p,q)
            if is_num(p) and is_num(q):
                if isreal(p)!=isreal(q): return BAD
                if p==q: return p
                d=sub(p,q)
                if isinstance(d,Poly) and not isreal(d):
                    e=c_eq0(d); l,h=iv(d)
                    if (l is None or l<=0) and (h is None or h>=0):
                        # a value valid on both sides
                        if subst_poly(d,a.sub)==0: return q
                        if subst_poly(d,b.sub)==0: return p
                    if any(ATOMS[x].kind in('fdiv','fmod') for x in d.atoms()): return BAD     # word/bit of different positions: keep the cases apart
                return ite(cond,p,q)
            if isinstance(p,Ptr) and isinstance(q,Ptr):
                if p.obj!=q.obj: return BAD
                d=sub(p.off,q.off)
                if isinstance(d,Poly) and nonlinear(('le',d)):
                    if 'npos' in a.ghost: return BAD      # end of a row or plane of a loop nest: keep the cases apart
                    e=c_ne0(d)
                    if s.strong(a,e,1500)=='unsat': return q
                    if s.strong(b,e,1500)=='unsat': return p
                o=mv(p.off,q.off)
                return BAD if o is BAD else Ptr(p.obj,o)
            if isinstance(p,Agg) and isinstance(q,Agg) and len(p.v)==len(q.v):
                r=[mv(u,w) for u,w in zip(p.v,q.v)]
                return BAD if any(w is BAD for w in r) else Agg(r)
            if s.same_fast(p,q): return p
            return BAD
        v=mv(va,vb)
        if v is BAD: return None
        if a.objs.keys()!=b.objs.keys(): return None
        objs={}
        for k,oa in a.objs.items():
            ob=b.objs[k]
            if oa is ob: objs[k]=oa; continue
            if oa.kind!=ob.kind or oa.alive!=ob.alive: return None
            if oa.kind=='array':
                if oa.stores!=ob.stores or oa.base!=ob.base or oa.rule is not ob.rule: return None
                objs[k]=oa; continue
            if oa.cells.keys()!=ob.cells.keys() or oa.zero!=ob.zero: return None
            n=oa.copy()
            for off,(sz,p) in oa.cells.items():
                sz2,q=ob.cells[off]
                if sz2!=sz: return None
                r=mv(p,q)
                if r is BAD: return None
                n.cells[off]=(sz,r)
            objs[k]=n
        m=a.clone(); m.objs=objs; m.sub=anc.sub
        m.pc=anc
        if not(len(ca)==1 and len(cb)==1 and c_not(ca[0])==cb[0]):
            # the shared alternative: (A or B), dropping complementary first conditions when nothing else was learnt
            if not(c_not(ca[0])==cb[0] and len(ca)==1 and len(cb)==1): m.pc=PC(anc,c_or(A,B))
        for c in com: m.pc=PC(m.pc,c)
        return (m,'ret',v)
    def run(s,st,f,env,blk,prev,within):
        """execute from block; `within`: frozenset of loop blocks + header: return items when leaving
        returns list of (state,'ret'/'throw',val,env)   [within None]
        with within=(hdr,blocks): list of (state,kind,val,env) kind in ret/throw/'exit'(val=(blk,prev))/'back'(val=prev)"""
        work=[(st,env,blk,prev,True)]
        done=[]
        while work:
            st,env,blk,prev,first=work.pop()
            if within is not None and not first:
                if blk==within[0]: done.append((st,'back',prev,env)); continue
                if blk not in within[1]: done.append((st,'exit',(blk,prev),env)); continue
            if blk in f['hdr'] and not (within is not None and first and blk==within[0]):
                L=f['hdr'][blk]
                if prev is None or prev not in L[1]:
                    for o in s.loop(st,f,env,L,prev):
                        if o[1]=='exit': work.append((o[0],o[3],o[2][0],o[2][1],False))
                        else: done.append(o)
                    continue
            for o in s.block(st,f,env,blk,prev):
                if o[1]=='next': work.append((o[0],o[3],o[2],blk,False))
                else: done.append(o)
        return done
    # ------------------------------------------------------------ loops
    def loop(s,st,f,env,L,prev):
        """execute loop L entered from prev. returns list of items kind ret/throw/exit"""
        snap=(st.clone(),dict(env))
        space=st.ghost.get('space')
        sp0=s.paths; nobj0=s.nobj
        obl0={k:dict(v) for k,v in s.obl.items()}; fail0=list(s.fail)
        nest=st.ghost.get('npos')
        depth=s.loop_depth(f,L) if space is not None else 0
        try:
            if depth: s.probing.append((f,L))
            try: return s.loop_unroll(st,f,env,L,prev,space is not None)
            finally:
                if depth: s.probing.pop()
        except NeedInvariant as e:
            if any(pf is f and L[1]<pl[1] for pf,pl in s.probing): raise     # the enclosing loop is part of the nest
            s.obl=obl0; s.fail=fail0
            if depth or nest is not None:
                res=s.loop_nest(snap[0],f,snap[1],L,prev,space,depth)
                if nest is not None: return res
                for o in res: o[0].ghost.pop('npos',None)
            else: res=s.loop_inv(snap[0],f,snap[1],L,prev,space)
            for o in res:      # the space of the loop after this one
                q=o[0].ghost.get('spaceq')
                if q and q[0] is None:
                    for k in ('space','spaceq','rules','invs','fold','lassume'): o[0].ghost.pop(k,None)
                elif q: o[0].ghost['space']=q[0]; o[0].ghost['spaceq']=q[1:]
            return res
    loopstack=[]
    probing=[]
    symexit=False
    def loop_depth(s,f,L):
        """levels of loops nested in L in the same function"""
        inner=[M for M in f['hdr'].values() if M[1]<L[1]]
        return max([1+s.loop_depth(f,M) for M in inner],default=0)
    def rule_base(s,st,a):
        """the array before the whole loop nest: what the rule's `old` refers to"""
        o=st.objs[a]
        if 'npos' in st.ghost and o.rule is not None and not o.stores and tuple(o.rule[:2])==tuple(st.ghost.get('rules',{}).get(a,()))[:2]: return o.rule[3]
        return o
    def loop_nest(s,st,f,env,L,prev,space,ax):
        """one level of a loop nest over the iteration space: axis ax, from the position of the outer levels"""
        if ax>2: raise Unsupported("loop nest deeper than the iteration space")
        if space[3]!=0 or st.ghost.get('invs') or st.ghost.get('fold'): raise Unsupported("loop nest with an entry coordinate, predicate or fold")
        ext=tuple(s.norm(st,x) for x in space[:3])
        pos=st.ghost.get('npos',(0,0,0))
        for a in range(ax,3):
            # the axes that are not looped over by an outer level have one point
            if st.ghost.get('npos') is None and a>ax and not(is_const(ext[a]) and ext[a]==1): raise Unsupported("loop nest with fewer levels than axes")
        if is_const(ext[ax]) and ext[ax]==1:
            st.ghost['npos']=pos
            return s.loop_unroll(st,f,env,L,prev,False)
        if not s.prove(st,c_lt0(sub(0,ext[ax]))): raise Unsupported("loop nest with a possibly empty axis")
        return s.loop_inv1(st,f,env,L,prev,ext,pos,ax)
    def deadblocks(s,f):
        r=f.get('dead')
        if r is not None: return r
        dead=set(); ch=True
        while ch:
            ch=False
            for b,ins in enumerate(f['blocks']):
                if b in dead: continue
                t=ins[-1]
                if t['op']=='unreachable': dead.add(b); ch=True
                elif t['op']=='br' and all(x in dead for x in t['b']): dead.add(b); ch=True
        f['dead']=dead
        return dead
    def loop_unroll(s,st,f,env,L,prev,has_space):
        work=[(st,env,prev)]
        done=[]; n=0
        while work:
            n+=1
            if n>s.unroll_limit*(4 if not has_space else 1)*4: raise Unsupported(f"loop in {f['dem'][:80]} not unrollable (no loop contract)")
            st,env,prev=work.pop()
            s.loopstack.append((f,L)); sv=s.symexit; s.symexit=False
            na=s.narr
            try: outs=s.run(st,f,env,L[0],prev,L)
            finally: s.loopstack.pop(); sym=s.symexit; s.symexit=sv
            back=[o for o in outs if o[1]=='back']; ex=[o for o in outs if o[1]!='back']
            sp=st.ghost.get('space') or (0,)
            one=st.ghost.get('invs') and not st.ghost.get('rules') and not st.ghost.get('fold') and all(is_const(s.norm(st,x)) and s.norm(st,x)==1 for x in sp[:3])   # a single iteration
            if has_space and not st.conc and not one and (sym or (s.narr!=na and (back or not ex))):
                raise NeedInvariant('symbolic exit')
            for o in ex: done.append(o)
            for o in back: work.append((o[0],o[3],o[2]))
        return done
    def lex_lt(s,g,h):
        """g strictly before h in iteration order (x fastest)"""
        r=False
        for a,b in zip(g,h):
            d=sub(a,b); r=c_or(c_lt0(d),c_and(c_eq0(d),r))
        return r
    def loop_inv(s,st,f,env,L,prev,space):
        ex,ey,ez,n0=space
        ex,ey,ez=[s.norm(st,x) for x in (ex,ey,ez)]
        # entry ghost coordinate
        res=[]
        for st1,g0 in s.entry_ghost(st,ex,ey,ez,n0):
            res+=s.loop_inv1(st1,f,dict(env),L,prev,(ex,ey,ez),g0)
        return res
    def entry_ghost(s,st,ex,ey,ez,n0):
        if n0==0: return [(st,(0,0,0))]
        out=[]
        assert n0==1
        for a,t in s.branch(st,c_lt0(sub(1,ex))):
            if t: out.append((a,(1,0,0)))
            else:
                for b,t2 in s.branch(a,c_lt0(sub(1,ey))):
                    if t2: out.append((b,(0,1,0)))
                    else: out.append((b,(0,0,1)))
        return out
    def snapshot(s,st,f,env,L,prev):
        """values of phis at header coming from prev"""
        ph={}
        for ins in f['blocks'][L[0]]:
            if ins['op']!='phi': break
            for b,o in ins['in']:
                if b==prev: ph[ins['id']]=s.ev(st,env,o)
        return ph
    def loop_samples(s,st,f,env,L,prev,ext,g0,ax=None):
        """run the loop on one concrete instance, collecting header values (used only to guess invariants)"""
        cs=[subst_cond(x,st.sub) for x in st.conds()]
        sv=z3.Solver(); sv.set('timeout',5000); sv.add(*[cond_z3(c) for c in cs if c is not True])
        ids=set()
        for c in cs: cond_atoms(c,ids)
        for x in ext: 
            if isinstance(x,Poly): 
                for a in x.atoms(): ids.update(atom_deps(a))
        sv.push()
        allnames=[a for a in ids if ATOMS[a].kind=='var' and ATOMS[a].sort=='i']
        dims=[]
        for o in st.objs.values():
            if o.kind=='array':
                for d in o.dims: 
                    d=s.norm(st,d)
                    if isinstance(d,Poly) and d not in dims: dims.append(d)
        def soft(zc):
            sv.push(); sv.add(zc)
            if sv.check()==z3.sat: return True
            sv.pop(); return False
        for x,v in zip(ext,(3,3,3) if ax is not None else (3,3,2) if not(is_const(ext[1]) and is_const(ext[2])) else (5,3,2)):
            if isinstance(x,Poly):
                if not soft(poly_z3(x)==v): soft(poly_z3(x)>=2)
        for i,d in enumerate(dims[:12]):
            for v in (7+2*i,5+i,):
                if soft(poly_z3(d)==v): break
        for a in allnames: soft(z3.And(atom_z3(a)<=40,atom_z3(a)>=-40))
        if sv.check()!=z3.sat: return None
        m=sv.model()
        conc={}
        for a in range(len(ATOMS)):
            at=ATOMS[a]
            if at.kind=='var' and at.sort=='i' and a not in st.sub:
                v=m.eval(atom_z3(a),model_completion=True)
                try: conc[a]=v.as_long()
                except Exception: return None
        c=st.clone()
        ns={k:(subst_poly(v,conc) if isinstance(v,Poly) else v) for k,v in st.sub.items()}
        ns.update(conc)
        c.sub=ns; c.conc=True
        rec=s.record; s.record=False
        samples=[]
        try:
            e=dict(env); p=prev; cur=c
            n=[s.norm(c,x) for x in ext]
            total=n[0]*n[1]*n[2]
            pos=list(s.norm(c,x) for x in g0)
            for it in range(60):
                samples.append((tuple(pos),{k:v for k,v in s.snapshot(cur,f,e,L,p).items()},dict(cur.objs)))
                keep=cur.clone()
                outs=s.run(cur,f,e,L[0],p,L)
                back=[o for o in outs if o[1]=='back']
                if not back and is_const(total) and it<total and ax is None:      # a loop that may stop early: try the other outcomes too
                    cur=keep
                    for fn,ctx in st.ghost.get('lassume',()):
                        r=s.eval_pure(cur,fn,[ctx]+list(pos)+[0,0,0]); s.assume(cur,s.ncond(cur,s.to_cond(r)))
                    try: s.conc_both=True; outs=s.run(cur,f,e,L[0],p,L)
                    finally: s.conc_both=False
                    back=[o for o in outs if o[1]=='back']
                if not back: break
                cur,_,p,e=back[0]
                if ax is not None:
                    pos[ax]+=1
                    if pos[ax]==n[ax]: break
                    continue
                pos[0]+=1
                if pos[0]==n[0]:
                    pos[0]=0; pos[1]+=1
                    if pos[1]==n[1]: pos[1]=0; pos[2]+=1
        finally:
            s.record=rec
        return samples,ns,c
    def fit(s,pts,vals):
        """affine fit of integer samples over ghost coordinates; returns (ai,aj,ak) or None. Unconstrained axes -> None"""
        rows=[[Fraction(1)]+[Fraction(x) for x in p]+[Fraction(v)] for p,v in zip(pts,vals)]
        n=4; piv=[]; r=0
        for c in range(n):
            k=next((i for i in range(r,len(rows)) if rows[i][c]!=0),None)
            if k is None: continue
            rows[r],rows[k]=rows[k],rows[r]
            pv=rows[r][c]; rows[r]=[x/pv for x in rows[r]]
            for i in range(len(rows)):
                if i!=r and rows[i][c]!=0:
                    q=rows[i][c]; rows[i]=[x-q*y for x,y in zip(rows[i],rows[r])]
            piv.append(c); r+=1
        for i in range(r,len(rows)):
            if rows[i][n]!=0: return None
        sol=[None]*4
        for i,c in enumerate(piv):
            # free variables set to 0
            sol[c]=rows[i][n]
        return sol[1:]
    def alpha_pool(s,st,ext,esz):
        ex,ey,ez=ext
        P=[0,1,ex,mul(ex,ey)]
        for o in st.objs.values():
            if o.kind=='array' and len(o.dims)>=2:
                P+= [o.dims[0],mul(o.dims[0],o.dims[1])]
        out=[]
        for p in P:
            for k in (1,-1,esz,-esz):
                q=mul(p,k)
                q=s.norm(st,q)
                if q not in out: out.append(q)
        return out
    def loop_inv1(s,st,f,env,L,prev,ext,g0,ax=None):
        ex,ey,ez=ext
        fname=f['dem'][:90]
        sm=s.loop_samples(st,f,env,L,prev,ext,g0,ax)
        forms={}   # loc -> list of candidate (alphas)
        entry_ph=s.snapshot(st,f,env,L,prev)
        pool_cache={}
        def cand(vals,pts,esz,ns,cst):
            a=s.fit(pts,vals)
            if a is None: return None
            key=esz
            if key not in pool_cache: pool_cache[key]=[(p,s.norm(cst,p)) for p in s.alpha_pool(st,ext,esz)]
            opts=[]
            for x in a:
                if x is None: opts.append([0]); continue
                o=[p for p,v in pool_cache[key] if is_const(v) and v==x]
                if not o:
                    if x.denominator==1: o=[int(x)]
                    else: return None
                opts.append(o[:4])
            res=[]
            for u in opts[0]:
                for v in opts[1]:
                    for w in opts[2]:
                        if a[2] is None and samp_open[0]: res.append((u,v,s.norm(st,mul(u,mul(ex,ey)))))   # axis end not reached by the samples
                        res.append((u,v,w))
            return res[:12]
        changed_cells=set(); samp_open=[False]
        if sm:
            samples,ns,cst=sm
            pts=[p for p,_,_ in samples]
            samp_open[0]=len(samples)==60
            def series(getter,loc,ev):
                vals=[]; objid=None
                raw=[getter(ph,ob) for _,ph,ob in samples]
                if all(s.same_fast(v,raw[0]) for v in raw): return 'const'
                for v in raw:
                    if isinstance(v,Ptr):
                        if objid is None: objid=v.obj
                        if v.obj!=objid: return 'mixed'
                        x=s.norm(cst,v.off)
                    else: x=v
                    if isinstance(x,Poly): x=s.norm(cst,x)
                    if not(isinstance(x,int) and not isinstance(x,bool)): return 'nonint'
                    vals.append(x)
                if all(v==vals[0] for v in vals): return 'const'
                esz=1
                if objid is not None and objid>0:
                    o=st.objs.get(objid); esz=o.esz if o is not None and o.kind=='array' else 1
                return cand(vals,pts,esz or 1,ns,cst)
            for k in entry_ph:
                r=series(lambda ph,ob:ph[k],('phi',k),None)
                forms[('phi',k)]=[(0,0,0)] if r=='const' else (r if isinstance(r,list) else None)
            for oid,o in st.objs.items():
                if o.kind!='cells' or o.const: continue
                if len(samples)>1 and all(samples[i][2].get(oid) is o for i in range(len(samples))): continue
                for off,(sz,v) in o.cells.items():
                    r=series(lambda ph,ob:(ob[oid].cells.get(off,(0,UNDEF))[1] if oid in ob else UNDEF),('c',oid,off),None)
                    if r=='const': continue
                    forms[('c',oid,off)]=r if isinstance(r,list) else None
                    if isinstance(r,list): pass
        # a pair of cells (bit position, block) of a mask iterator: 32*blk+bit is affine
        pairs=s.find_pairs(st,forms,sm,ext) if sm else []
        choice={k:0 for k in forms}
        gi=tuple(fresh(n,'i',0,None,50) if ax is None or ax==a else g0[a] for a,n in enumerate(('gi','gj','gk')))
        extra=set()   # extra modified cells -> havoc
        arrs=set()
        passes=0
        while True:
            passes+=1
            if passes>40: raise Unsupported("loop invariant inference did not converge")
            rec=s.record; s.record=False
            bad,newmod,newarr=s.loop_pass(st,f,env,L,prev,ext,g0,gi,forms,choice,extra,arrs,entry_ph,pairs,None,None,ax)
            s.record=rec
            ch=False
            if newmod-extra-set(k for k in forms if k[0]=='c'):
                extra|=newmod; ch=True
            if newarr-arrs: arrs|=newarr; ch=True
            if ch: continue
            if bad:
                if any(k[0]=='pair' for k in bad): bad={k for k in bad if k[0]=='pair'}
                for k in bad:
                    if k[0]=='pair': pairs=[p for p in pairs if ('pair',)+p[:2]!=k]; continue
                    if forms.get(k) is None: continue
                    if choice[k]+1<len(forms[k]): choice[k]+=1
                    else: forms[k]=None
                continue
            break
        out=[]
        s.loop_pass(st,f,env,L,prev,ext,g0,gi,forms,choice,extra,arrs,entry_ph,pairs,out,fname,ax)
        s.loopinfo.append({'function':fname,'cells':{str(k):(None if v is None else [show(x) for x in v[choice[k]]]) for k,v in forms.items()},'arrays':[st.objs[a].name for a in arrs],'passes':passes,'file':''})
        return out
    def find_pairs(s,st,forms,sm,ext):
        samples,ns,cst=sm
        pts=[p for p,_,_ in samples]
        un=[k for k,v in forms.items() if k[0]=='c']
        pairs=[]
        if not any(o.kind=='array' and o.et=='b' for o in st.objs.values()): return []
        def word(v1,v2):   # v1 a word and v2 a bit of one flat position
            v1=s.norm(st,v1); v2=s.norm(st,v2)
            if is_const(v1) and is_const(v2): return 0<=v2<32
            if not(isinstance(v1,Poly) and isinstance(v2,Poly)): return False
            return not any(ATOMS[a].kind in('fdiv','fmod') and m==(a,) for m in s.polyof(s.bitnorm(st,add(mul(v1,32),v2))) for a in m[:1])
        def bits_ptr(o,q):
            v=o.cells.get(q,(0,None))[1] if o is not None else None
            return isinstance(v,Ptr) and v.obj in st.objs and st.objs[v.obj].kind=='array' and st.objs[v.obj].et=='b'
        for k2 in un:
            if k2[1] not in st.objs: continue
            for dk in (4,-4):
                k1=(k2[0],k2[1],k2[2]+dk)
                o=st.objs.get(k1[1])
                if not bits_ptr(o,min(k1[2],k2[2])-8): continue     # the two positions follow the pointer to the words
                if o is None or k1[2] not in o.cells or o.cells[k1[2]][0]!=4 or not is_num(o.cells[k1[2]][1]) or not is_num(o.cells[k2[2]][1]): continue
                if not word(o.cells[k1[2]][1],o.cells[k2[2]][1]): continue
                vals=[]
                ok=True
                for _,ph,ob in samples:
                    a=s.norm(cst,ob[k1[1]].cells.get(k1[2],(0,UNDEF))[1]); b=s.norm(cst,ob[k2[1]].cells.get(k2[2],(0,UNDEF))[1])
                    if not(isinstance(a,int) and isinstance(b,int)) or not 0<=b<32: ok=False; break
                    vals.append(32*a+b)
                if not ok: continue
                if any(forms.get(k) is not None and False for k in (k1,k2)): continue
                a=s.fit(pts,vals)
                if a is None: continue
                pool=[(p,s.norm(cst,p)) for p in s.alpha_pool(st,ext,1)]
                al=[]
                for x in a:
                    if x is None: al.append(0); continue
                    o=[p for p,v in pool if is_const(v) and v==x]
                    al.append(o[0] if o else None)
                if None in al: continue
                # genuinely a div/mod pair: the low part must not be affine alone unless it is the shifted one
                pairs.append((k1,k2,tuple(al)))
        return pairs
    def polyof(s,p): return list(p.t) if isinstance(p,Poly) else []
    def head_state(s,st,f,env,L,prev,ext,g0,g,forms,choice,extra,arrs,entry_ph,pairs):
        h=st.clone(); e=dict(env)
        def form(v,al):
            d=0
            for a,x,x0 in zip(al,g,g0): d=add(d,mul(a,sub(x,x0)))
            if isinstance(v,Ptr): return Ptr(v.obj,add(v.off,d))
            return add(v,d)
        def havoc(v,nm):
            if isinstance(v,Ptr): raise Unsupported(f"loop-carried pointer without affine form in {f['dem'][:60]}")
            if isinstance(v,(bool,tuple)): return fresh_bool('h_'+nm)
            if v is UNDEF: return UNDEF
            if isinstance(v,Fraction) or (isinstance(v,Poly) and v.real):
                fd=s.fold_value(st,g)
                return fd if fd is not None else fresh('h_'+nm,'r')
            if is_num(v): 
                return fresh('h_'+nm,'i',-2**63,2**63-1,60)
            raise Unsupported(f"havoc of {v!r}")
        ph={}
        for k,v in entry_ph.items():
            fm=forms.get(('phi',k))
            if fm is not None: ph[k]=form(v,fm[choice[('phi',k)]]) if fm!=[(0,0,0)] else v
            else: ph[k]=havoc(v,f'phi{k}')
        done=set()
        for k1,k2,al in pairs:
            v1=h.objs[k1[1]].cells[k1[2]][1]; v2=h.objs[k2[1]].cells[k2[2]][1]
            fl=form(add(mul(v1,32),v2),al)
            fl=s.bitnorm(h,fl); q=fdiv_atom(fl,32); b=fmod_atom(fl,32); s.bitfact(h,fl)
            for k,nv in ((k1,q),(k2,b)):
                o=h.objs[k[1]].copy(); o.cells[k[2]]=(o.cells[k[2]][0],nv); h.objs[k[1]]=o; done.add(k)
        for k in list(forms)+[x for x in extra if x not in forms]:
            if k[0]!='c' or k in done: continue
            _,oid,off=k
            if oid not in h.objs: continue
            o=h.objs[oid].copy(); 
            if off not in o.cells:
                h.objs[oid]=o; continue
            sz,v=o.cells[off]
            fm=forms.get(k)
            nv=form(v,fm[choice[k]]) if fm is not None else havoc(v,f'{o.name}.{off}')
            o.cells[off]=(sz,nv); h.objs[oid]=o
        for a in arrs:
            o=h.objs[a]; n=o.copy(); n.stores=()
            rule=st.ghost.get('rules',{}).get(a)
            if rule is not None: n.rule=(rule[0],rule[1],g,s.rule_base(st,a)); n.base=None
            else: n.rule=None; n.base=o.name+f"#h{s.nobj}"; s.nobj+=1
            h.objs[a]=n
        h.ghost['g']=g
        return h,e,ph
    def fold_value(s,st,g):
        fd=st.ghost.get('fold')
        if fd is None: return None
        return mk_uf('fold',tuple(g),'r')
    def loop_pass(s,st,f,env,L,prev,ext,g0,gi,forms,choice,extra,arrs,entry_ph,pairs,out,fname=None,ax=None):
        """one verification pass over the loop body. out is None: inference mode. returns (bad,newmod,newarr)"""
        bad=set(); newmod=set(); newarr=set()
        ex,ey,ez=ext
        cases=[]
        if out is not None:
            # initiation of array rules, predicates and folds
            for a in arrs:
                rule=st.ghost.get('rules',{}).get(a)
                if rule is None: continue
                o=st.objs[a]; c=st.clone()
                w=s.skolem(c,o.dims)
                now=s.arr_read(c,o,w); old=s.arr_read(c,s.rule_base(st,a),w)
                r=s.eval_pure(c,rule[0],[rule[1]]+list(g0)+list(w)+[old if o.et!='b' else s.zext_cond(old)])
                s.oblig(c,s.val_eq(r,now,o.et),f"loop invariant of {o.name} holds on entry [{fname}]",'invariant')
            for iv_ in st.ghost.get('invs',()):
                c=st.clone(); w=s.skolem(c,ext)
                r=s.eval_pure(c,iv_[0],[iv_[1]]+list(g0)+list(w))
                s.oblig(c,s.to_cond(r),f"loop predicate holds on entry [{fname}]",'invariant')
        for k1,k2,al in pairs:     # on entry the bit position is within its word
            v2=st.objs[k2[1]].cells[k2[2]][1]
            if not(s.prove(st,c_le0(neg(v2))) and s.prove(st,c_le0(sub(v2,31)))): bad.add(('pair',k1,k2))
        for end in ((False,True) if ax is None else (False,)):
            g=gi if not end else (0,0,ez)
            h,e,ph=s.head_state(st,f,env,L,prev,ext,g0,g,forms,choice,extra,arrs,entry_ph,pairs)
            if not end:
                for a,(x,d) in enumerate(zip(g,ext)):
                    if ax is None or a==ax: h.pc=PC(h.pc,('le',neg(x))); s.assume(h,c_lt0(sub(x,d)))
                if ax is not None: h.ghost['npos']=g
                # at or after the entry coordinate
                if g0!=(0,0,0) and ax is None: s.assume(h,c_not(s.lex_lt(g,g0)))
                for k1,k2,al in pairs: s.inside_fact(h,h.objs[k1[1]].cells[k1[2]][1],h.objs[k2[1]].cells[k2[2]][1])
            e.update(ph)
            e['hdrphi']=(L[0],ph)
            for fn,ctx in (() if end else st.ghost.get('lassume',())):
                r=s.eval_pure(h,fn,[ctx]+list(g)+[0,0,0]); s.assume(h,s.to_cond(r))
            # predicates at the head for a skolem point
            preds=[]
            for iv_ in st.ghost.get('invs',()):
                w=s.skolem(h,ext)
                r=s.eval_pure(h,iv_[0],[iv_[1]]+list(g)+list(w)); s.assume(h,s.to_cond(r))
                preds.append((iv_,w))
            fd=st.ghost.get('fold')
            if fd is not None and not end:
                # unfold the ghost fold one step (definition of the spec function)
                pass
            before=dict(h.objs)
            outs=s.run(h,f,e,L[0],prev,L)
            for (o,kind,val,e2) in outs:
                if kind!='back':
                    if out is not None:
                        o.ghost['exit']=g; o.ghost['exit_early']=not end
                        e2.pop('hdrphi',None)
                        out.append((o,kind,val,e2))
                    continue
                if end:
                    if out is not None:
                        s.oblig(o,False,f"loop terminates after the last point [{fname}]",'invariant')
                    continue
                # back edge: which successor?
                succ=s.next_ghost(o,g,ext) if ax is None else s.next_level(o,g,ext,ax)
                for o2,gn in succ:
                    if ax is not None and gn[ax] is ext[ax]:     # after the last point of this level: on to the exit
                        for a in arrs:
                            rule=st.ghost.get('rules',{}).get(a)
                            if rule is None: raise Unsupported("array written in a loop nest without a rule")
                            ob=o2.objs[a]
                            if out is not None:
                                c=o2.clone(); w=s.skolem(c,ob.dims)
                                new=s.arr_read(c,ob,w); old=s.arr_read(c,s.rule_base(st,a),w)
                                r=s.eval_pure(c,rule[0],[rule[1]]+list(gn)+list(w)+[old if ob.et!='b' else s.zext_cond(old)])
                                s.oblig(c,s.val_eq(r,new,ob.et),f"loop invariant of {ob.name} preserved [{fname}]",'invariant')
                            n=ob.copy(); n.stores=(); n.rule=(rule[0],rule[1],gn,s.rule_base(st,a)); n.base=None
                            o2.objs[a]=n
                        o2.ghost['npos']=g0
                        if out is None: 
                            for oid,ob in o2.objs.items():
                                b0=before.get(oid)
                                if ob.kind=='array' and b0 is not None and b0 is not ob and (ob.stores!=b0.stores or ob.rule is not b0.rule or ob.base!=b0.base) and oid not in arrs: newarr.add(oid)
                            continue
                        for (o3,k3,v3,e3) in s.run(o2,f,e2,L[0],val,L):
                            if k3=='back': s.oblig(o3,False,f"loop terminates after the last point [{fname}]",'invariant'); continue
                            o3.ghost['exit']=gn; o3.ghost['exit_early']=False
                            out.append((o3,k3,v3,e3))
                        continue
                    back_ph={}
                    for ins in f['blocks'][L[0]]:
                        if ins['op']!='phi': break
                        for b,op in ins['in']:
                            if b==val: back_ph[ins['id']]=s.ev(o2,e2,op)
                    def chk(k,actual,expected,what):
                        ok=s.val_same(o2,actual,expected)
                        if not ok: bad.add(k)
                        if out is not None:
                            lab=f"loop invariant preserved [{fname}]"
                            rec=s.obl.setdefault(lab,{'n':0,'ok':0,'kind':'invariant','fail':0,'unknown':0})
                            rec['n']+=1; rec['ok']+=1 if ok else 0
                            s.nq_bydec['z3']+=1
                    def form(v,al):
                        d=0
                        for a,x,x0 in zip(al,gn,g0): d=add(d,mul(a,sub(x,x0)))
                        if isinstance(v,Ptr): return Ptr(v.obj,add(v.off,d))
                        return add(v,d)
                    for k,v in entry_ph.items():
                        fm=forms.get(('phi',k))
                        if fm is not None: chk(('phi',k),back_ph[k],form(v,fm[choice[('phi',k)]]) if fm!=[(0,0,0)] else v,'phi')
                    done=set()
                    for k1,k2,al in pairs:
                        n1=o2.objs[k1[1]].cells[k1[2]][1]; n2=o2.objs[k2[1]].cells[k2[2]][1]
                        v1=st.objs[k1[1]].cells[k1[2]][1]; v2=st.objs[k2[1]].cells[k2[2]][1]
                        fl=form(add(mul(v1,32),v2),al)
                        okp=s.prove(o2,c_eq0(s.bitnorm(o2,sub(add(mul(n1,32),n2),fl)))) and s.prove(o2,c_le0(neg(n2))) and s.prove(o2,c_le0(sub(n2,31)))
                        if not okp: bad.add(('pair',k1,k2))
                        done|={k1,k2}
                    for k,fm in forms.items():
                        if k[0]!='c' or fm is None or k in done: continue
                        if k[1] not in o2.objs: continue
                        nv=o2.objs[k[1]].cells.get(k[2],(0,UNDEF))[1]
                        chk(k,nv,form(st.objs[k[1]].cells[k[2]][1],fm[choice[k]]),'cell')
                    # frame: anything else changed?
                    for oid,ob in o2.objs.items():
                        b0=before.get(oid)
                        if b0 is ob or oid not in st.objs: continue
                        if b0 is None: continue
                        if ob.kind=='array':
                            if (ob.stores!=b0.stores or ob.rule is not b0.rule or ob.base!=b0.base) and oid not in arrs: newarr.add(oid)
                            continue
                        for off,(sz,v) in ob.cells.items():
                            c0=b0.cells.get(off)
                            if c0 is not None and c0[0]==sz and s.same_fast(c0[1],v): continue
                            if ('c',oid,off) in forms: continue
                            if c0 is not None and s.val_same(o2,v,c0[1],quick=True): continue
                            newmod.add(('c',oid,off))
                    if out is None: continue
                    # arrays, predicates, folds
                    for a in arrs:
                        rule=st.ghost.get('rules',{}).get(a)
                        if rule is None: continue
                        ob=o2.objs[a]; c=o2.clone(); w=s.skolem(c,ob.dims)
                        new=s.arr_read(c,ob,w)
                        old=s.arr_read(c,s.rule_base(st,a),w)
                        r=s.eval_pure(c,rule[0],[rule[1]]+list(gn)+list(w)+[old if ob.et!='b' else s.zext_cond(old)])
                        s.oblig(c,s.val_eq(r,new,ob.et),f"loop invariant of {ob.name} preserved [{fname}]",'invariant')
                    for iv_,w in preds:
                        c=o2.clone()
                        r=s.eval_pure(c,iv_[0],[iv_[1]]+list(gn)+list(w))
                        s.oblig(c,s.to_cond(r),f"loop predicate preserved [{fname}]",'invariant')
                    if fd is not None:
                        # F(next) = step(F(g), g)
                        c=o2.clone()
                        step=s.eval_pure(c,fd[0],[fd[1],s.fold_value(st,g)]+list(g))
                        nxt=s.fold_value(st,gn)
                        # accumulator cells/phis (real valued, havoced to F)
                        accs=0
                        for k,v in entry_ph.items():
                            if forms.get(('phi',k)) is None and isreal(v):
                                s.oblig(c,s.val_eq(back_ph[k],step,'r'),f"fold invariant preserved [{fname}]",'invariant'); accs+=1
                        for k in list(forms)+[x for x in extra if x not in forms]:
                            if k[0]=='c' and forms.get(k) is None:
                                v=st.objs[k[1]].cells.get(k[2],(0,UNDEF))[1]
                                if isinstance(v,Fraction) or (isinstance(v,Poly) and v.real):
                                    nv=o2.objs[k[1]].cells[k[2]][1]
                                    s.oblig(c,s.val_eq(nv,step,'r'),f"fold invariant preserved [{fname}]",'invariant'); accs+=1
            # initiation of fold: entry value = F(g0)
        if out is not None:
            fd=st.ghost.get('fold')
            if fd is not None:
                base=s.eval_pure(st,fd[2],[fd[1]])
                vals=[v for k,v in entry_ph.items() if forms.get(('phi',k)) is None and isreal(v)]
                vals+=[st.objs[k[1]].cells[k[2]][1] for k in list(forms)+[x for x in extra if x not in forms] if k[0]=='c' and forms.get(k) is None and k[2] in st.objs[k[1]].cells and isreal(st.objs[k[1]].cells[k[2]][1])]
                c=st.clone()
                if not vals: s.oblig(c,False,f"fold accumulator exists [{fname}]",'invariant')
                for v in vals: s.oblig(c,s.val_eq(v,base,'r'),f"fold invariant holds on entry [{fname}]",'invariant')
        return bad,newmod,newarr
    def same_fast(s,a,b):
        try: return type(a)==type(b) and a==b
        except Exception: return False
    def val_eq(s,a,b,et):
        if et=='b':
            return c_iff(s.to_cond(a),s.to_cond(b))
        return c_eq0(sub(a,b))
    def val_same(s,st,a,b,quick=False):
        if a is b: return True
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            return a.obj==b.obj and s.prove(st,c_eq0(sub(a.off,b.off)),quick)
        if is_num(a) and is_num(b): return s.prove(st,c_eq0(sub(a,b)),quick)
        if isinstance(a,(bool,tuple)) and isinstance(b,(bool,tuple)): return s.prove(st,c_iff(a,b),quick)
        try: return a==b
        except Exception: return False
    def skolem(s,st,dims):
        w=[]
        for d in dims:
            d=s.norm(st,d)
            if is_const(d) and d==1: w.append(0); continue
            x=fresh('w','i',0,None,40); st.pc=PC(st.pc,('le',neg(x))); s.assume(st,c_lt0(sub(x,d))); w.append(x)
        return tuple(w)
    def next_ghost(s,st,g,ext):
        i,j,k=g; ex,ey,ez=ext
        out=[]
        for a,t in s.branch(st,c_lt0(sub(add(i,1),ex))):
            if t: out.append((a,(add(i,1),j,k)))
            else:
                s.assume(a,s.ncond(a,c_eq0(sub(add(i,1),ex))))
                for b,t2 in s.branch(a,c_lt0(sub(add(j,1),ey))):
                    if t2: out.append((b,(0,add(j,1),k)))
                    else:
                        s.assume(b,s.ncond(b,c_eq0(sub(add(j,1),ey))))
                        out.append((b,(0,0,add(k,1))))
        return out
    def next_level(s,st,g,ext,ax):
        out=[]
        for a,t in s.branch(st,c_lt0(sub(add(g[ax],1),ext[ax]))):
            if t: out.append((a,tuple(add(x,1) if q==ax else x for q,x in enumerate(g))))
            else:
                s.assume(a,s.ncond(a,c_eq0(sub(add(g[ax],1),ext[ax]))))
                out.append((a,tuple(ext[q] if q==ax else x for q,x in enumerate(g))))
        return out
    # ------------------------------------------------------------ instructions
    def ev(s,st,env,o):
        k=o[0]
        if k=='v':
            return env[o[1]]
        if k=='gep':
            p=s.ev(st,env,o[1]); return s.gep(st,p,o[2],[(s.ev(st,env,v),sc) for v,sc in o[3]])
        if k=='?': raise Unsupported(f"operand {o}")
        return s.val_const(st,o)
    def gep(s,st,p,c,vs):
        if p is UNDEF: return UNDEF
        if isinstance(p,int) and p==0: p=NULL
        if not isinstance(p,Ptr): raise Unsupported(f"gep on {p!r}")
        off=add(p.off,c)
        for v,sc in vs:
            if v is UNDEF: return UNDEF
            if isinstance(v,(bool,tuple)): v=s.zext_cond(v)
            off=add(off,mul(v,sc))
        return Ptr(p.obj,off)
    def block(s,st,f,env,blk,prev):
        ins=f['blocks'][blk]
        # phis first (parallel)
        hp=env.get('hdrphi')
        idx=0
        if ins and ins[0]['op']=='phi':
            if hp is not None and hp[0]==blk and hp[1] is not None:
                vals=hp[1]; env['hdrphi']=None
                for i in ins:
                    if i['op']!='phi': break
                    env[i['id']]=vals[i['id']]; idx+=1
            else:
                vals={}
                for i in ins:
                    if i['op']!='phi': break
                    for b,o in i['in']:
                        if b==prev: vals[i['id']]=s.ev(st,env,o); break
                    else: raise Unsupported("phi edge")
                    idx+=1
                env.update(vals)
        elif hp is not None and hp[0]==blk: env['hdrphi']=None
        return s.steps(st,f,env,blk,idx)
    def steps(s,st,f,env,blk,idx):
        ins=f['blocks'][blk]
        n=len(ins)
        while idx<n:
            i=ins[idx]; op=i['op']; idx+=1
            if op in('call','invoke'):
                rs=s.do_call(st,env,i)
                out=[]
                if op=='invoke':
                    for (o,kind,v) in rs:
                        e=dict(env) if len(rs)>1 else env
                        if kind=='ret':
                            e[i['id']]=v; out.append((o,'next',i['b'][0],e))
                        else:
                            o.exc=v; out.append((o,'next',i['b'][1],e))
                    return out
                if len(rs)==1 and rs[0][1]=='ret':
                    st=rs[0][0]; env[i['id']]=rs[0][2]; continue
                for (o,kind,v) in rs:
                    e=dict(env)
                    if kind=='ret':
                        e[i['id']]=v; out+=s.steps(o,f,e,blk,idx)
                    else: out.append((o,'throw',v,e))
                return out
            h=getattr(s,'i_'+op,None)
            if op=='br':
                if 'c' not in i: return [(st,'next',i['b'][0],env)]
                c=s.ev(st,env,i['c'])
                if c is UNDEF:
                    s.dead_end(st,"branch on uninitialised value",'safety'); return []
                c=s.to_cond(c)
                if s.loopstack:
                    fi,L=s.loopstack[-1]
                    if fi is f and blk in L[1]:
                        dd=s.deadblocks(f)
                        if any(b not in L[1] and b not in dd for b in i['b']) and not isinstance(s.ncond(st,c),bool): s.symexit=True
                rs=s.branch(st,c)
                out=[]
                for (o,t) in rs:
                    out.append((o,'next',i['b'][0 if t else 1],dict(env) if len(rs)>1 else env))
                return out
            if op=='switch':
                v=s.ev(st,env,i['c']); out=[]; cur=st
                for cv,b in i['cases']:
                    rs=s.branch(cur,s.cmp(cur,'eq',v,s.ev(cur,env,cv),64))
                    cur=None
                    for o,t in rs:
                        if t: out.append((o,'next',b,dict(env)))
                        else: cur=o
                    if cur is None: break
                if cur is not None: out.append((cur,'next',i['def'],dict(env)))
                return out
            if op=='select':
                a_=s.ev(st,env,i['x'][1]); b_=s.ev(st,env,i['x'][2])
                if isinstance(a_,(Ptr,Fn)) or isinstance(b_,(Ptr,Fn)):
                    c_=s.ev(st,env,i['x'][0])
                    if c_ is UNDEF: s.dead_end(st,"memory safety: decision on an uninitialised value",'safety'); return []
                    if s.same_fast(a_,b_): env[i['id']]=a_; continue
                    spl=True
                elif is_num(a_) and is_num(b_) and not isreal(a_):
                    c_=s.ev(st,env,i['x'][0])
                    if c_ is not UNDEF: c_=s.ncond(st,s.to_cond(c_))
                    spl=c_ is not UNDEF and not isinstance(c_,bool) and not s.joinable(c_) and s.callstack_split()
                else: spl=False
                if spl:
                    out=[]
                    for o,tv in s.branch(st,s.to_cond(c_)):
                        e=dict(env); e[i['id']]=a_ if tv else b_
                        out+=s.steps(o,f,e,blk,idx)
                    return out
            if op=='ret':
                v=s.ev(st,env,i['x'][0]) if i['x'] else None
                return [(st,'ret',v,env)]
            if op=='resume':
                return [(st,'throw',st.exc,env)]
            if op=='unreachable':
                return []
            if op=='load':
                rs=s.load(st,s.ev(st,env,i['x'][0]),i['t'])
                if len(rs)==1: st,env[i['id']]=rs[0]; continue
                out=[]
                for o,v in rs:
                    e=dict(env); e[i['id']]=v; out+=s.steps(o,f,e,blk,idx)
                return out
            if op=='store':
                v=s.ev(st,env,i['x'][0]); t=i['ot']
                rs=s.store(st,s.ev(st,env,i['x'][1]),v,t)
                if len(rs)==1: st=rs[0]; continue
                out=[]
                for o in rs: out+=s.steps(o,f,dict(env),blk,idx)
                return out
            if op=='alloca':
                c=s.ev(st,env,i['n'])
                if not is_const(c): raise Unsupported("variable alloca")
                oid=s.newobj(st,'cells',i['sz']*c,f['name'][:40]+f"%{i['id']}")
                env[i['id']]=Ptr(oid,0)
                env['allocs']=env.get('allocs',())+(oid,)
                continue
            if op=='getelementptr':
                env[i['id']]=s.ev(st,env,i['x']); continue
            if op=='landingpad':
                env[i['id']]=s.landing(st,i); continue
            r=s.simple(st,env,i,op)
            if r is DEAD: return []
            env[i['id']]=r
        return []
    def landing(s,st,i):
        ex=st.exc; sel=0
        for k,c in i['cl']:
            if k!='catch': continue
            if c[0]=='null': sel=s.typeid('*'); break
            ti=c[1]
            if s.ti_match(ex.ti,ti): sel=s.typeid(ti); break
        return Agg([ex.ptr,sel])
    def ti_match(s,a,b):
        if a==b: return True
        base={'_ZTISt13runtime_error':'_ZTISt9exception','_ZTISt11logic_error':'_ZTISt9exception','_ZTISt12out_of_range':'_ZTISt11logic_error','_ZTISt16invalid_argument':'_ZTISt11logic_error'}
        while a in base:
            a=base[a]
            if a==b: return True
        return False
    def typeid(s,ti):
        return s.tid.setdefault(ti,len(s.tid)+1)
    def simple(s,st,env,i,op):
        t=i['t']
        if op in('add','sub','mul','shl','and','or','xor','lshr','ashr','sdiv','udiv','srem','urem'):
            a=s.ev(st,env,i['x'][0]); b=s.ev(st,env,i['x'][1]); n=bits_of(t)
            return s.arith(st,op,a,b,n,i.get('nsw',False),i)
        if op=='icmp':
            a=s.ev(st,env,i['x'][0]); b=s.ev(st,env,i['x'][1])
            n=64 if i['ot']=='ptr' else bits_of(i['ot'])
            return s.cmp(st,i['pred'],a,b,n)
        if op in('fadd','fsub','fmul','fdiv','frem'):
            a=s.ev(st,env,i['x'][0]); b=s.ev(st,env,i['x'][1])
            if a is UNDEF or b is UNDEF: return UNDEF
            if op=='fadd': return toreal(add(a,b))
            if op=='fsub': return toreal(sub(a,b))
            if op=='fmul': return toreal(mul(a,b))
            if op=='fdiv': return toreal(rdiv(s.norm(st,a),s.norm(st,b)))
            return mk_uf('frem',(a,b),'r')
        if op=='fneg': 
            a=s.ev(st,env,i['x'][0]); return UNDEF if a is UNDEF else neg(a)
        if op=='fcmp':
            a=s.ev(st,env,i['x'][0]); b=s.ev(st,env,i['x'][1])
            if a is UNDEF or b is UNDEF: return UNDEF
            d=sub(a,b); p=i['pred'][1:]
            if i['pred'] in('uno','ord'): return i['pred']=='ord'
            return {'eq':c_eq0,'ne':c_ne0,'lt':c_lt0,'le':c_le0,'gt':lambda q:c_lt0(neg(q)),'ge':lambda q:c_le0(neg(q))}[p](toreal(d))
        if op in('sext','zext','trunc'):
            a=s.ev(st,env,i['x'][0]); fr=bits_of(i['ot']); to=bits_of(t)
            return s.cast(st,op,a,fr,to)
        if op in('sitofp','uitofp'):
            a=s.ev(st,env,i['x'][0])
            if a is UNDEF: return a
            a=s.zext_cond(a)
            if op=='uitofp': a=s.unsigned(st,a,bits_of(i['ot']))
            return toreal(a)
        if op in('fptosi','fptoui'):
            a=s.ev(st,env,i['x'][0])
            return UNDEF if a is UNDEF else rtrunc(s.norm(st,a))
        if op in('fpext','fptrunc'): 
            if op=='fptrunc': s.assumed.add("float rounding ignored (reals)")
            return s.ev(st,env,i['x'][0])
        if op in('bitcast','inttoptr','ptrtoint','freeze','addrspacecast'):
            a=s.ev(st,env,i['x'][0])
            if op=='inttoptr' and is_const(a): return NULL if a==0 else Ptr(-1,a)
            if op=='bitcast' and i['ot']!=t: return s.conv(a,t)
            return a
        if op=='select':
            c=s.ev(st,env,i['x'][0]); a=s.ev(st,env,i['x'][1]); b=s.ev(st,env,i['x'][2])
            if c is UNDEF: return UNDEF
            c=s.ncond(st,s.to_cond(c))
            if c is True: return a
            if c is False: return b
            if a is UNDEF or b is UNDEF: return UNDEF
            if isinstance(a,(bool,tuple))!=isinstance(b,(bool,tuple)) and isinstance(a,(bool,tuple,int,Poly)) and isinstance(b,(bool,tuple,int,Poly)):
                if i['t']=='i1': a,b=s.to_cond(a),s.to_cond(b)
                else: a,b=s.zext_cond(a),s.zext_cond(b)
            if is_num(a) and is_num(b) or isinstance(a,(bool,tuple)): return ite(c,a,b)
            if s.same_fast(a,b): return a
            raise Unsupported("select on pointers")
        if op=='extractvalue':
            v=s.ev(st,env,i['x'][0])
            for k in i['ix']: v=v.v[k] if v is not UNDEF else UNDEF
            return v
        if op=='insertvalue':
            a=s.ev(st,env,i['x'][0]); v=s.ev(st,env,i['x'][1])
            def ins(a,ix,v):
                if a is UNDEF: a=Agg([UNDEF]*8)
                l=list(a.v)
                if len(ix)==1: l[ix[0]]=v
                else: l[ix[0]]=ins(l[ix[0]],ix[1:],v)
                return Agg(l)
            return ins(a,i['ix'],v)
        if op=='fence': return None
        if op=='atomicrmw':
            p=s.ev(st,env,i['x'][0]); v=s.ev(st,env,i['x'][1]); r=s.load(st,p,i['t'])
            if not r: return DEAD
            old=r[0][1]
            k=i['rmw']
            if k=='add': nv=add(old,v)
            elif k=='sub': nv=sub(old,v)
            elif k=='xchg': nv=v
            else: raise Unsupported("rmw "+k)
            s.store(st,p,nv,i['t']); s.trusted.add("atomic read-modify-write executed sequentially")
            return old
        raise Unsupported(f"instruction {op}")
    def cast(s,st,op,a,fr,to):
        if a is UNDEF: return a
        if isinstance(a,(Ptr,Fn)): return a
        if fr==1:
            a=s.to_cond(a)
            if op=='zext': return s.zext_cond(a)
            return neg(s.zext_cond(a)) 
        if isinstance(a,BitTest):
            if op=='trunc' and to==1: raise Unsupported("trunc bit test")
            return a
        if isinstance(a,OneHot): return a
        if isinstance(a,(Bits,)): 
            raise Unsupported("cast bits")
        if op=='trunc':
            if to==1: return s.to_cond(a)
            if isinstance(a,Parts): return s.slice(a,fr//8,0,to//8)
            if isinstance(a,(bool,tuple)): return s.zext_cond(a)
            if is_const(a): return s.wrap(st,a,to,False,'trunc')
            lo,hi=s.rng(to); x,y=iv(a)
            if x is not None and y is not None and x>=lo and y<=hi: return a
            a2=s.norm(st,a)
            if is_const(a2): return s.wrap(st,a2,to,False,'trunc')
            s.assumed.add("64->32 bit truncation of index quantities assumed value preserving unless an overflow obligation is stated")
            if st.flags.get('ovf'): s.oblig(st,c_and(c_le0(sub(a2,hi)),c_le0(sub(lo,a2))),"no loss in narrowing conversion",'overflow')
            return a
        if op=='zext':
            if isinstance(a,Parts): return Parts(a.p+[((to-fr)//8,0)])
            if isinstance(a,(bool,tuple)): return s.zext_cond(a)
            return s.unsigned(st,a,fr)
        if isinstance(a,Parts): raise Unsupported("sext of parts")
        return a
    def arith(s,st,op,a,b,n,nsw,i):
        if a is UNDEF or b is UNDEF: return UNDEF
        if n==1:
            a=s.to_cond(a); b=s.to_cond(b)
            if op=='and': return c_and(a,b)
            if op=='or': return c_or(a,b)
            if op in('xor','add','sub'): return c_xor(a,b)
            raise Unsupported("i1 "+op)
        if isinstance(a,(bool,tuple)): a=s.zext_cond(a)
        if isinstance(b,(bool,tuple)): b=s.zext_cond(b)
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr):
                if a.obj==b.obj: return s.norm(st,sub(a.off,b.off))
                raise Unsupported("difference of unrelated pointers")
            if op=='add' and isinstance(a,Ptr) and is_num(b): return Ptr(a.obj,add(a.off,b))
            if op=='add' and isinstance(b,Ptr) and is_num(a): return Ptr(b.obj,add(b.off,a))
            if op=='sub' and isinstance(a,Ptr) and is_num(b): return Ptr(a.obj,sub(a.off,b))
            if op=='and' and is_const(b):   # alignment test
                if isinstance(a,Ptr) and is_const(a.off) and 0<b<8: return a.off&b
            raise Unsupported(f"{op} on pointer")
        if isinstance(a,Fn) and op=='and' and is_const(b) and b==1: return 0   # member function pointer: virtual bit of an aligned function
        if isinstance(a,(Bits,OneHot,BitTest)) or isinstance(b,(Bits,OneHot,BitTest)): return s.bitop(st,op,a,b)
        if isinstance(a,Parts) or isinstance(b,Parts):
            return s.partop(op,a,b,n)
        what=f"{op} at line {i.get('ln','?')}"
        if op=='add': return s.wrap(st,add(a,b),n,nsw,what)
        if op=='sub': return s.wrap(st,sub(a,b),n,nsw,what)
        if op=='mul': return s.wrap(st,mul(a,b),n,nsw,what)
        if op in('sdiv','udiv','srem','urem'):
            r=s.idivrem(st,a,b,op[1:]=='rem',op[0]=='u',n)
            return DEAD if r is None else r
        a=s.norm(st,a); b=s.norm(st,b)
        if is_const(a) and is_const(b):
            ua=a%(1<<n); ub=b%(1<<n)
            r={'shl':lambda:ua<<ub,'and':lambda:ua&ub,'or':lambda:ua|ub,'xor':lambda:ua^ub,'lshr':lambda:ua>>ub,'ashr':lambda:a>>ub}[op]()
            return s.wrap(st,r,n,False,what)
        if op=='shl':
            if is_const(b): return s.wrap(st,mul(a,1<<b),n,nsw,what)
            if is_const(a) and a==1: return OneHot(b)
        if op in('lshr','ashr') and is_const(b):
            if op=='lshr': a=s.unsigned(st,a,n)
            return s.idiv_floor(st,a,1<<b)
        if op=='xor' and is_const(b) and b==-1: return sub(-1,a)
        if op=='and' and is_const(b):
            if b==-1: return a
            if b==0: return 0
            if b>0 and (b&(b+1))==0:
                u=s.unsigned(st,a,n); return s.idivrem(st,u,b+1,True,False,n+1)
        if op=='and' and is_const(a): return s.arith(st,op,b,a,n,nsw,i)
        if op in('or','xor') and is_const(b) and b==0: return a
        if op=='or' and is_const(a) and a==0: return b
        if op in('and','or','xor') and iv(a)[0] in(0,1) and iv(a)[1] in(0,1) and iv(b)[0] in(0,1) and iv(b)[1] in(0,1):
            x=s.to_cond(a); y=s.to_cond(b)
            return s.zext_cond({'and':c_and,'or':c_or,'xor':c_xor}[op](x,y))
        raise Unsupported(f"bit operation {op} {show(a)} {show(b)}")
    def idiv_floor(s,st,a,b):
        if s.prove(st,c_le0(neg(a)),quick=True): return s.idivrem(st,a,b,False,False,64)
        raise Unsupported("shift of possibly negative")
    def bitop(s,st,op,a,b):
        if isinstance(b,(Bits,)) and not isinstance(a,Bits): a,b=b,a
        if isinstance(a,OneHot) and op=='xor' and is_const(b) and b==-1: return OneHot(a.pos,not a.neg)
        if isinstance(a,Bits) and is_const(b):
            u=b%(1<<32)
            if u and u&(u-1)==0: b=OneHot(u.bit_length()-1)
            else:
                u=(1<<32)-1-u
                if u and u&(u-1)==0: b=OneHot(u.bit_length()-1,True)
        if isinstance(a,Bits) and isinstance(b,OneHot):
            ok=s.prove(st,c_and(c_le0(neg(b.pos)),c_le0(sub(b.pos,31))))
            if not ok: s.oblig(st,False,"bit position within the word",'safety'); return DEAD
            if op=='and' and not b.neg:
                c=s.bit_cond(st,a,b.pos)
                if c is None: return DEAD
                return BitTest(c)
            if op=='and' and b.neg: return Bits(a.arr,a.blk,a.upd+((b.pos,False),),a.ver)
            if op=='or' and not b.neg: return Bits(a.arr,a.blk,a.upd+((b.pos,True),),a.ver)
        raise Unsupported(f"bit operation {op} on {a!r},{b!r}")
    def partop(s,op,a,b,n):
        if op=='lshr' and isinstance(a,Parts) and is_const(b) and b%8==0:
            k=b//8; tot=sum(z for z,_ in a.p)
            r=s.slice(a,tot,k,tot-k)
            ps=r.p if isinstance(r,Parts) else [(tot-k,r)]
            return Parts(ps+[(k,0)])
        if op=='shl' and isinstance(a,Parts) and is_const(b) and b%8==0:
            k=b//8; tot=n//8
            ps=[(k,0)]; rem=tot-k
            for z,v in a.p:
                if rem<=0: break
                if z<=rem: ps.append((z,v)); rem-=z
                else: ps.append((rem,s.slice(v,z,0,rem))); rem=0
            return Parts(ps)
        if op=='shl' and is_num(a): pass
        if op=='or' and isinstance(a,Parts) and isinstance(b,Parts):
            # byte-disjoint
            tot=n//8; out=[]; pos=0
            def at(P,pos):
                q=0
                for z,v in P.p:
                    if q<=pos<q+z: return q,z,v
                    q+=z
            while pos<tot:
                qa,za,va=at(a,pos); qb,zb,vb=at(b,pos)
                if is_const(va) and va==0: z=min(zb-(pos-qb),za-(pos-qa)); out.append((z,s.slice(vb,zb,pos-qb,z) if z!=zb else vb)); pos+=z
                elif is_const(vb) and vb==0: z=min(za-(pos-qa),zb-(pos-qb)); out.append((z,s.slice(va,za,pos-qa,z) if z!=za else va)); pos+=z
                else: raise Unsupported("or of parts")
            return Parts(out)
        raise Unsupported(f"{op} on parts")
    # ------------------------------------------------------------ calls
    def do_call(s,st,env,i):
        fo=i['f']
        if fo[0]=='fn' and fo[1].startswith('llvm.experimental'): return [(st,'ret',None)]
        args=[s.ev(st,env,a) for a in i['args']]
        if fo[0]=='fn': name=fo[1]
        else:
            p=s.ev(st,env,fo)
            if not isinstance(p,Fn):
                if p is UNDEF or p==NULL: s.dead_end(st,"memory safety: call through invalid function pointer",'safety'); return []
                raise Unsupported(f"indirect call {p!r}")
            name=p.name
        if 'byval' in i:
            for k,sz in enumerate(i['byval']):
                if sz:
                    o=s.newobj(st,'cells',sz,'byval')
                    s.memcpy(st,Ptr(o,0),args[k],sz); args[k]=Ptr(o,0)
        rs=s.call(st,name,args)
        return rs
    def memcpy(s,st,d,p,n):
        """returns True or False (path dead)"""
        n=s.norm(st,n)
        if is_const(n) and n==0: return True
        od=s.live(st,d,'copy destination'); 
        if od is None: return False
        op=s.live(st,p,'copy source')
        if op is None: return False
        if od.kind=='array' or op.kind=='array': return s.memcpy_arr(st,d,od,p,op,n)
        do=s.norm(st,d.off); so=s.norm(st,p.off)
        if not(is_const(n) and is_const(do) and is_const(so)): raise Unsupported("symbolic memcpy")
        if do<0 or do+n>od.size or so<0 or so+n>op.size:
            s.dead_end(st,"memory safety: copy out of bounds",'safety'); return False
        new=od.copy()
        # clear dest range
        s.write_cell(new,do,n,UNDEF); del new.cells[do]
        new.zero=tuple(x for z in new.zero for x in s.cut(z,do,n))
        for k,(sz,v) in op.cells.items():
            if k+sz<=so or k>=so+n: continue
            if k<so or k+sz>so+n:
                a=max(k,so); b=min(k+sz,so+n)
                new.cells[do+a-so]=(b-a,s.slice(v,sz,a-k,b-a))
            else: new.cells[do+k-so]=(sz,v)
        for zo,zn in op.zero:
            a=max(zo,so); b=min(zo+zn,so+n)
            if a<b: new.zero=new.zero+((do+a-so,b-a),)
        st.objs[d.obj]=new
        return True
    def cut(s,z,o,n):
        a,l=z; b=a+l
        if b<=o or a>=o+n: return [z]
        r=[]
        if a<o: r.append((a,o-a))
        if b>o+n: r.append((o+n,b-o-n))
        return r
    def memcpy_arr(s,st,d,od,p,op,n):
        if od.kind=='array' and op.kind=='array' and od.et==op.et and s.norm(st,d.off)==0 and s.norm(st,p.off)==0:
            # whole-object copy
            tot=1
            for x in op.dims: tot=mul(tot,x)
            tot2=1
            for x in od.dims: tot2=mul(tot2,x)
            if s.prove(st,c_eq0(sub(n,mul(tot,op.esz)))) and len(od.dims)==len(op.dims) and all(s.norm(st,sub(x,y))==0 for x,y in zip(od.dims,op.dims)):
                nn=od.copy(); nn.base=op.base; nn.stores=op.stores; nn.rule=op.rule
                st.objs[d.obj]=nn; return True
        raise Unsupported("symbolic array copy")
    # ------------------------------------------------------------ builtins
    def cstr(s,st,p):
        o=st.objs[p.obj]; r=''; off=p.off
        while True:
            v=s.read_cells(o,off,1)
            if v==0 or not isinstance(v,int): return r
            r+=chr(v); off+=1
    def builtin(s,st,f,name,args):
        R=lambda v=None:[(st,'ret',v)]
        if name.startswith('llvm.'): return s.intrinsic(st,name,args)
        if name.startswith('vc_') : 
            h=getattr(s,name,None)
            if h is not None: return h(st,args)
            if 'blocks' not in f: raise Unsupported("vc api "+name)
            return None
        dem=f['dem']
        st_=s.stub_for(dem)
        if st_ is not None and st_ not in s.callstack_names():
            return s.call(st,st_,args)
        if name in('_Znwm','_Znam','malloc'):
            n=s.norm(st,args[0])
            oid=s.newobj(st,'cells',n,'heap'); st.objs[oid].heap=True
            return R(Ptr(oid,0))
        if name=='_ZnwmSt11align_val_t': 
            oid=s.newobj(st,'cells',args[0],'heap'); st.objs[oid].heap=True; return R(Ptr(oid,0))
        if name in('_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm','free'):
            p=args[0]
            if p==NULL or (is_const(p) and p==0): return R()
            o=s.live(st,p,'free')
            if o is None: return []
            if not o.heap or s.norm(st,p.off)!=0: s.dead_end(st,"memory safety: free of non-heap pointer",'safety'); return []
            n=o.copy(); n.alive=False; st.objs[p.obj]=n
            return R()
        if name in('__cxa_guard_acquire',):
            p=args[0]; v=s.load(st,p,'i8')[0][1]
            return R(1 if (v is UNDEF or v==0) else 0)
        if name=='__cxa_guard_release': 
            s.store(st,args[0],1,'i8'); return R()
        if name in('__cxa_guard_abort','__cxa_atexit'): return R(0)
        if name=='__cxa_allocate_exception':
            oid=s.newobj(st,'cells',args[0],'exc'); st.objs[oid].heap=True; return R(Ptr(oid,0))
        if name=='__cxa_free_exception': return R()
        if name=='__cxa_throw':
            ti=None
            for g,oi in s.gobj.items():
                if isinstance(args[1],Ptr) and oi==args[1].obj: ti=g
            return [(st,'throw',Exc(ti,args[0]))]
        if name=='__cxa_begin_catch': 
            st.flags['caught']=st.flags.get('caught',())+(st.exc,); return R(args[0])
        if name=='__cxa_end_catch': return R()
        if name=='__cxa_rethrow': return [(st,'throw',st.exc)]
        if name=='__assert_fail':
            txt=s.cstr(st,args[0])
            s.dead_end(st,f"assert({txt[:80]})",'assert'); return []
        if name in('abort','_ZSt9terminatev','__clang_call_terminate','exit','_ZSt17__throw_bad_allocv','_ZSt28__throw_bad_array_new_lengthv'):
            s.dead_end(st,f"call to {dem}",'safety'); return []
        if name.startswith('_ZSt') and 'throw_' in name and 'blocks' not in f:
            return [(st,'throw',Exc('_ZTISt9exception',NULL))]
        if name in('strcmp','strncmp'):
            a=s.cstr(st,args[0]); b=s.cstr(st,args[1]); return R((a>b)-(a<b))
        if name=='strlen': return R(len(s.cstr(st,args[0])))
        if name in('memcpy','memmove'):
            return R(args[0]) if s.memcpy(st,args[0],args[1],args[2]) else []
        if name=='__gxx_personality_v0': raise Unsupported("personality")
        if name in FMATH: return R(s.fmath(st,name,args))
        if name=='__dynamic_cast': raise Unsupported("dynamic_cast")
        if name.startswith('pthread_') or name.startswith('__pthread') or name=='__gthread_active_p':
            s.trusted.add("pthread primitives treated as no-ops (sequential semantics)"); return R(0)
        if NOOP.search(dem):
            s.trusted.add("iostream/string/exception-object library calls have no effect on tracked memory")
            rt=f['ret']
            if rt=='ptr': return R(args[0] if args else NULL)
            if rt=='void': return R()
            return R(UNDEF)
        return None
    def callstack_names(s): return ()
    def stub_for(s,dem):
        for rx,fn in s.stubs.items():
            if rx.search(dem): return fn
        return None
    def fmath(s,st,name,args):
        a=[s.norm(st,x) for x in args]
        if any(x is UNDEF for x in a): return UNDEF
        if name=='fabs':
            x=a[0]
            if is_const(x): return abs(x)
            c=c_lt0(x)
            if c is False: return x
            return ite(c,neg(x),x)
        if name=='sqrt' and is_const(a[0]) and a[0] in(0,1): return a[0]
        if name=='pow' and is_const(a[1]) and a[1].denominator==1 and 0<=a[1]<=4:
            r=Fraction(1)
            for _ in range(int(a[1])): r=mul(r,a[0])
            return toreal(r)
        s.trusted.add("libm functions are uninterpreted (same argument, same result)")
        return mk_uf(name,tuple(toreal(x) for x in a),'r')
    def intrinsic(s,st,name,args):
        R=lambda v=None:[(st,'ret',v)]
        n=name.split('.')
        k=n[1]
        if k in('lifetime','dbg','donothing','assume','prefetch','experimental'): return R()
        if k in('memcpy','memmove'):
            return R() if s.memcpy(st,args[0],args[1],args[2]) else []
        if k=='memset':
            sz=s.norm(st,args[2]); v=args[1]
            if is_const(sz) and sz==0: return R()
            o=s.live(st,args[0],'memset')
            if o is None: return []
            off=s.norm(st,args[0].off)
            if o.kind=='array': raise Unsupported("memset of array")
            if not(is_const(sz) and is_const(off)): raise Unsupported("symbolic memset")
            nn=o.copy()
            s.write_cell(nn,off,sz,UNDEF); del nn.cells[off]
            if v==0: nn.zero=tuple(x for z in nn.zero for x in s.cut(z,off,sz))+((off,sz),)
            else:
                for q in range(sz): nn.cells[off+q]=(1,v)
            st.objs[args[0].obj]=nn
            return R()
        if k=='eh' : return R(s.typeid(next((g for g,oi in s.gobj.items() if isinstance(args[0],Ptr) and oi==args[0].obj),'*')))
        if k=='fabs': return R(s.fmath(st,'fabs',args))
        if k in('sqrt','sin','cos','exp','log','log10','pow','floor','ceil'): return R(s.fmath(st,k,args))
        if k=='fmuladd': return R(toreal(add(mul(args[0],args[1]),args[2])))
        if k in('smax','smin','umax','umin'):
            a,b=args; 
            if a is UNDEF or b is UNDEF: return R(UNDEF)
            c=s.ncond(st,c_lt0(sub(a,b)))
            return R(ite(c,b,a) if 'max' in k else ite(c,a,b))
        if k=='abs':
            a=args[0]; return R(abs(a) if is_const(a) else ite(s.ncond(st,c_lt0(a)),neg(a),a))
        if k=='trap': s.dead_end(st,"trap",'safety'); return []
        if k=='stacksave' or k=='stackrestore': return R(NULL)
        if k=='is' : return R(True)
        if k=='umul' or k=='uadd':  # with.overflow
            a,b=args; v=mul(a,b) if k=='umul' else add(a,b)
            n_=int(name.split('.i')[-1]); 
            return R(Agg([s.wrap(st,v,n_,False,'ovf'), False])) if s.prove(st,c_and(c_le0(sub(v,(1<<(n_-1))-1)),c_le0(neg(v)))) else (_ for _ in ()).throw(Unsupported("with.overflow"))
        raise Unsupported("intrinsic "+name)
    # ------------------------------------------------------------ vc api
    def _name(s,st,p): return s.cstr(st,p)
    def vc_symbolic(s,st,args): return [(st,'ret',True)]
    def vc_int_(s,st,args):
        n=s._name(st,args[0]); lo,hi=s.norm(st,args[1]),s.norm(st,args[2])
        il=lo if is_const(lo) else iv(lo)[0]; ih=hi if is_const(hi) else iv(hi)[1]
        if is_const(lo) and is_const(hi) and lo==hi: return [(st,'ret',lo)]
        v=named(n,'i',il,ih,10)
        if (n,'i') not in s.inputs: s.inputs.append((n,'i'))
        if is_const(lo): st.pc=PC(st.pc,('le',sub(lo,v)))
        else: s.assume(st,c_le0(sub(lo,v)))
        if is_const(hi): st.pc=PC(st.pc,('le',sub(v,hi)))
        else: s.assume(st,c_le0(sub(v,hi)))
        return [(st,'ret',v)]
    def vc_bool_(s,st,args):
        n=s._name(st,args[0])
        if (n,'b') not in s.inputs: s.inputs.append((n,'b'))
        return [(st,'ret',named_bool(n))]
    def vc_real_(s,st,args):
        n=s._name(st,args[0])
        if (n,'r') not in s.inputs: s.inputs.append((n,'r'))
        return [(st,'ret',named(n,'r'))]
    def vc_frac_(s,st,args):
        n=s._name(st,args[0])
        if (n,'r') not in s.inputs: s.inputs.append((n,'r'))
        v=named(n,'r'); (a,),=v.t; T.FRACS.add(a)
        s.assume(st,c_le0(neg(v))); s.assume(st,c_lt0(sub(v,Fraction(1))))
        return [(st,'ret',v)]
    def vc_array_def_(s,st,args):
        o=st.objs[args[0].obj]
        if o.stores or o.rule is not None or o.et!='r': raise Unsupported("array defined after use")
        n=o.copy(); n.rule=(args[1],args[2],(0,0,0),o); n.base=None
        if n.old is not None: n.old=None
        st.objs[args[0].obj]=n; return [(st,'ret',None)]
    def vc_dim_(s,st,args):
        """mark an integer input as array dimension (never substituted)"""
        v=args[0]
        if isinstance(v,Poly):
            for a in v.atoms(): s.dims_protected.add(a)
        return [(st,'ret',None)]
    def vc_assume_(s,st,args):
        c=s.ncond(st,s.to_cond(args[0]))
        if c is False or not s.feasible(st,c): return []
        s.assume(st,c); return [(st,'ret',None)]
    def vc_check_(s,st,args):
        lab=s._name(st,args[1])
        c=args[0]
        if c is UNDEF: s.oblig(st,False,lab+" (uninitialised)"); return [(st,'ret',None)]
        c=s.to_cond(c)
        s.covers[lab]=s.covers.get(lab,0)+1
        s.oblig(st,c,lab,'ensures')
        if s.ncond(st,c) is False: return []
        return [(st,'ret',None)]
    def vc_cover_(s,st,args):
        lab=s._name(st,args[0]); s.covers['cover:'+lab]=s.covers.get('cover:'+lab,0)+1
        return [(st,'ret',None)]
    def vc_ovf_(s,st,args):
        st.flags['ovf']=args[0] if isinstance(args[0],bool) else args[0]!=0
        return [(st,'ret',None)]
    def vc_note_(s,st,args):
        st.log=st.log+(s._name(st,args[0]),); return [(st,'ret',None)]
    def wellformed(s,st,d,what):
        c=s.ncond(st,c_lt0(neg(d)))
        if not s.prove(st,c): s.oblig(st,c,"harness: "+what,'requires')
    def mkarr(s,st,args,et,esz):
        n=s._name(st,args[0])
        dims=tuple(s.norm(st,a) for a in args[1:4])
        for d in dims:
            if not isinstance(d,Poly): continue
            for a in d.atoms(): s.dims_protected.add(a)
            # a dimension that depends on a condition: one case per outcome
            for a in d.atoms():
                at=ATOMS[a]
                if at.kind=='ite' and not isinstance(s.ncond(st,at.args[0]),bool):
                    out=[]
                    for b,t in s.branch(st,at.args[0]):
                        b.sub={k:(subst_poly(v,{a:at.args[1 if t else 2]}) if isinstance(v,Poly) else v) for k,v in b.sub.items()}
                        b.sub[a]=s.norm(b,at.args[1 if t else 2])
                        out+=s.mkarr(b,args,et,esz)
                    return out
        tot=1
        for d in dims: s.wellformed(st,d,"array dimensions are positive")
        for d in dims: tot=mul(tot,d)
        oid=s.newobj(st,'array',mul(tot,esz),n)
        o=st.objs[oid]; o.et=et; o.esz=esz; o.dims=dims; o.base=n
        return [(st,'ret',Ptr(oid,0))]
    def vc_darray_(s,st,args): return s.mkarr(st,args,'r',8)
    def vc_iarray_(s,st,args): return s.mkarr(st,args,'i',4)
    def vc_larray_(s,st,args): return s.mkarr(st,args,'i',8)
    def vc_bitarray_(s,st,args):
        r=s.mkarr(st,args,'b',4); return r
    def vc_bit_(s,st,args):
        """bit at coordinates of a bit array (spec-level read)"""
        p=args[0]; o=st.objs[p.obj]
        co=[s.norm(st,x) for x in args[1:4]]
        act=[0 if (is_const(s.norm(st,d)) and s.norm(st,d)==1) else c for c,d in zip(co,o.dims)]
        return [(st,'ret',s.arr_read(st,o,act))]
    def vc_at_(s,st,args):
        """spec-level read of a shaped array at coordinates"""
        p=args[0]; o=st.objs[p.obj]
        co=[s.norm(st,x) for x in args[1:4]]
        act=[0 if (is_const(s.norm(st,d)) and s.norm(st,d)==1) else c for c,d in zip(co,o.dims)]
        return [(st,'ret',s.arr_read(st,o,act))]
    def vc_old_at_(s,st,args):
        """value before the last array rule loop (pre-state)"""
        p=args[0]; o=st.ghost['pre'][p.obj]
        co=[s.norm(st,x) for x in args[1:4]]
        act=[0 if (is_const(s.norm(st,d)) and s.norm(st,d)==1) else c for c,d in zip(co,o.dims)]
        return [(st,'ret',s.arr_read(st,o,act))]
    def vc_pre_(s,st,args):
        """remember the current contents of every array as the pre-state"""
        st.ghost['pre']={k:o for k,o in st.objs.items() if o.kind=='array'}
        return [(st,'ret',None)]
    def vc_loop_space_(s,st,args):
        for d in args[:3]: s.wellformed(st,d,"iteration space is non-empty")
        st.ghost['space']=tuple(args[:4]); return [(st,'ret',None)]
    def vc_loop_next_(s,st,args):
        for d in args[:3]: s.wellformed(st,d,"iteration space is non-empty")
        st.ghost['spaceq']=st.ghost.get('spaceq',())+(tuple(args[:4]),); return [(st,'ret',None)]
    def vc_loop_last_(s,st,args):
        """no loop contract after the current loop"""
        st.ghost['spaceq']=st.ghost.get('spaceq',())+(None,); return [(st,'ret',None)]
    def vc_loop_end_(s,st,args):
        for k in ('space','spaceq','rules','invs','fold','lassume'): st.ghost.pop(k,None)
        return [(st,'ret',None)]
    def vc_array_rule_(s,st,args):
        r=dict(st.ghost.get('rules',{})); r[args[0].obj]=(args[1],args[2]); st.ghost['rules']=r
        return [(st,'ret',None)]
    vc_bit_rule_=vc_array_rule_
    def vc_old_bit_(s,st,args):
        o=st.ghost['pre'][args[0].obj]
        co=[s.norm(st,x) for x in args[1:4]]
        act=[0 if (is_const(s.norm(st,d)) and s.norm(st,d)==1) else c for c,d in zip(co,o.dims)]
        return [(st,'ret',s.arr_read(st,o,act))]
    def vc_bits_any_(s,st,args):
        """the array has arbitrary contents from here on"""
        p=args[0]; o=st.objs[p.obj]
        if o.kind!='array' or not(is_const(p.off) and p.off==0): raise Unsupported("arbitrary contents of a non-array")
        n=o.copy(); n.stores=(); n.rule=None; n.base=s._name(st,args[1])+"!any"
        st.objs[p.obj]=n; return [(st,'ret',None)]
    def vc_loop_inv_(s,st,args):
        st.ghost['invs']=st.ghost.get('invs',())+((args[0],args[1]),); return [(st,'ret',None)]
    def vc_loop_assume_(s,st,args):
        st.ghost['lassume']=st.ghost.get('lassume',())+((args[0],args[1]),); return [(st,'ret',None)]
    def vc_use_inv_(s,st,args):
        """instantiate the loop predicates at a point, at loop exit"""
        g=st.ghost.get('exit')
        if g is None: return [(st,'ret',None)]
        for fn,ctx in st.ghost.get('invs',()):
            r=s.eval_pure(st,fn,[ctx]+list(g)+list(args[:3])); s.assume(st,s.ncond(st,s.to_cond(r)))
        return [(st,'ret',None)]
    def vc_fold_(s,st,args):
        st.ghost['fold']=(args[0],args[1],args[2]); return [(st,'ret',None)]
    def vc_fold_result_(s,st,args):
        g=st.ghost.get('exit')
        if g is None:
            # the loop was fully unrolled: the fold of a region of constant size, by its definition
            sp=[s.norm(st,x) for x in st.ghost['space']]
            if not all(is_const(x) for x in sp) or sp[0]*sp[1]*sp[2]>64: raise Unsupported("fold without an invariant loop")
            fn,ctx,base=st.ghost['fold']; acc=s.eval_pure(st,base,[ctx])
            for n in range(sp[3],sp[0]*sp[1]*sp[2]): acc=s.eval_pure(st,fn,[ctx,acc,n%sp[0],n//sp[0]%sp[1],n//(sp[0]*sp[1])])
            return [(st,'ret',acc)]
        return [(st,'ret',s.fold_value(st,g))]
    def vc_has_exit_(s,st,args): return [(st,'ret','exit' in st.ghost)]
    def vc_exit_(s,st,args):
        g=st.ghost.get('exit',(0,0,0)); return [(st,'ret',g[args[0]])]
    def vc_exit_early_(s,st,args): return [(st,'ret',bool(st.ghost.get('exit_early',False)))]
    def vc_case_(s,st,args):
        """explicit case split"""
        return [(b,'ret',t) for b,t in s.branch(st,s.to_cond(args[0]))]
    def vc_uf_(s,st,args):
        n=s._name(st,args[0]); return [(st,'ret',mk_uf('h_'+n,tuple(toreal(x) for x in args[1:]),'r'))]
    # ------------------------------------------------------------ top
    def verify(s,name,budget=600):
        s.deadline=time.time()+budget
        st=State()
        s.callstack=[]; s.loopstack=[]
        outs=s.call(st,name,[])
        n=0
        for o,kind,v in outs:
            if kind=='throw':
                s.dead_end(o,f"uncaught exception",'safety')
            else: n+=1
        s.ends=n
        return n
DEAD=object()

def imod_pos(a,m):
    """mathematical a mod m in [0,m)"""
    if is_const(a): return a%m
    return Poly.atom(mk_atom('emod',(a,m),'i',lo=0,hi=m-1))
_old_atom_z3=T.atom_z3
def _atom_z3(a):
    at=ATOMS[a]
    if at._z is None:
        if at.kind=='emod': at._z=T.poly_z3(at.args[0])%at.args[1]
        elif at.kind=='dimname': at._z=T.poly_z3(at.args[0])
    return _old_atom_z3(a)
T.atom_z3=_atom_z3
atom_z3=_atom_z3
