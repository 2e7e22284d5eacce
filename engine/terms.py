"""Terms: polynomial normal forms over hash-consed atoms, conditions, z3 translation."""
import z3
from fractions import Fraction

class Atom:
    __slots__=('id','name','sort','lo','hi','kind','args','_z','prio','_deps')
    def __repr__(s): return s.name

ATOMS=[]           # id -> Atom
_ATOMKEY={}

def reset():
    ATOMS.clear(); _ATOMKEY.clear(); _CZ.clear(); Poly._zc.clear()

def mk_atom(kind,args,sort,name=None,lo=None,hi=None,prio=0):
    key=(kind,args,sort)
    a=_ATOMKEY.get(key)
    if a is not None: return a
    a=Atom(); a.id=len(ATOMS); a.kind=kind; a.args=args; a.sort=sort; a.lo=lo; a.hi=hi; a._z=None; a.prio=prio; a._deps=None
    a.name=name or f"{kind}_{a.id}"
    ATOMS.append(a); _ATOMKEY[key]=a
    return a

_fresh=[0]
def fresh(name,sort='i',lo=None,hi=None,prio=0):
    _fresh[0]+=1
    n=f"{name}!{_fresh[0]}"
    return Poly.atom(mk_atom('var',(n,),sort,n,lo,hi,prio))

def named(name,sort='i',lo=None,hi=None,prio=0):
    return Poly.atom(mk_atom('var',(name,),sort,name,lo,hi,prio))

class Poly:
    """sum of coef * product of atoms; never a bare constant (those are python int / Fraction)"""
    __slots__=('t','real','_h','_iv')
    _zc={}
    def __init__(s,t,real): s.t=t; s.real=real; s._h=None; s._iv=None
    @staticmethod
    def atom(a): return Poly({(a.id,):1},a.sort=='r')
    def __hash__(s):
        if s._h is None: s._h=hash((frozenset(s.t.items()),s.real))
        return s._h
    def __eq__(s,o): return isinstance(o,Poly) and s.real==o.real and s.t==o.t
    def __ne__(s,o): return not s==o
    def key(s): return (frozenset(s.t.items()),s.real)
    def __repr__(s): return show(s)
    def atoms(s):
        r=set()
        for m in s.t: r.update(m)
        return r

def is_const(x): return isinstance(x,(int,Fraction)) and not isinstance(x,bool)
def is_num(x): return isinstance(x,(int,Fraction,Poly)) and not isinstance(x,bool)

def show(x):
    if not isinstance(x,Poly): return str(x)
    out=[]
    for m,c in sorted(x.t.items()):
        out.append(f"{c}"+"".join("*"+ATOMS[a].name for a in m))
    return "("+" + ".join(out)+")"

def isreal(x): return x.real if isinstance(x,Poly) else isinstance(x,Fraction)

def mkpoly(t,real):
    t={m:c for m,c in t.items() if c!=0}
    if not t: return Fraction(0) if real else 0
    if len(t)==1 and () in t: return (Fraction(t[()]) if real else t[()])
    return Poly(t,real)

def tdict(x):
    if isinstance(x,Poly): return x.t
    return {():x}

def add(a,b):
    if not isinstance(a,Poly) and not isinstance(b,Poly): return a+b
    t=dict(tdict(a))
    for m,c in tdict(b).items(): t[m]=t.get(m,0)+c
    return mkpoly(t,isreal(a) or isreal(b))
def neg(a):
    if not isinstance(a,Poly): return -a
    return Poly({m:-c for m,c in a.t.items()},a.real)
def sub(a,b): return add(a,neg(b))
def _mm(m,n):
    if not m: return n
    if not n: return m
    r=tuple(sorted(m+n))
    return _inv_reduce(r)
def _inv_reduce(r):
    # cancel x * inv(x)
    for i,a in enumerate(r):
        at=ATOMS[a]
        if at.kind=='inv1':
            t=at.args[0]
            if t in r:
                l=list(r); l.remove(a); l.remove(t); return _inv_reduce(tuple(l))
    return r
def mul(a,b):
    if not isinstance(a,Poly) and not isinstance(b,Poly): return a*b
    t={}
    for m,c in tdict(a).items():
        if c==0: continue
        for n,d in tdict(b).items():
            if d==0: continue
            k=_mm(m,n); t[k]=t.get(k,0)+c*d
    return mkpoly(t,isreal(a) or isreal(b))

def toreal(x):
    if isinstance(x,int): return Fraction(x)
    if isinstance(x,Fraction): return x
    if x.real: return x
    return Poly(dict(x.t),True)

def rdiv(a,b):
    """real division a/b (b assumed non-zero)"""
    a=toreal(a); b=toreal(b)
    if is_const(b):
        if b==0: return Poly.atom(mk_atom('uf',('div0',a),'r'))
        return mul(a,Fraction(1)/b)
    # polynomial single monomial: invert atom-wise
    if len(b.t)==1:
        (m,c),=b.t.items()
        r=Poly({():1},True); r=Fraction(1)/c
        for x in m:
            at=ATOMS[x]
            if at.kind=='inv1': r=mul(r,Poly({(at.args[0],):1},True))
            elif at.kind=='invp': r=mul(r,Poly(dict(at.args[0].t),True))
            else: r=mul(r,Poly({(mk_atom('inv1',(x,),'r').id,):1},True))
        return mul(a,r)
    # normalise leading coefficient
    lead=min(b.t); c=b.t[lead]
    if a==b: return Fraction(1)
    bn=Poly({m:Fraction(v)/c for m,v in b.t.items()},True)
    if isinstance(a,Poly):
        # exact multiple?
        q=_ratio(a,b)
        if q is not None: return q
    iv=Poly.atom(mk_atom('invp',(bn,),'r'))
    return mul(mul(a,Fraction(1)/c),iv)
def _ratio(a,b):
    if len(a.t)!=len(b.t): return None
    k=min(b.t)
    if k not in a.t: return None
    q=Fraction(a.t[k])/b.t[k]
    for m,c in b.t.items():
        if a.t.get(m)!=q*c: return None
    return q

INF=None
def iv(x):
    """interval (lo,hi), None = unbounded"""
    if not isinstance(x,Poly): return (x,x)
    if x._iv is not None: return x._iv
    lo=hi=0
    for m,c in x.t.items():
        l,h=1,1
        # even powers
        i=0
        while i<len(m):
            a=ATOMS[m[i]]
            al,ah=a.lo,a.hi
            l,h=_imul(l,h,al,ah)
            i+=1
        if len(m)==2 and m[0]==m[1]:
            if l is None or l<0: l=0
        l,h=_imul(l,h,c,c)
        lo=None if lo is None or l is None else lo+l
        hi=None if hi is None or h is None else hi+h
    x._iv=(lo,hi)
    return x._iv
def _imul(a,b,c,d):
    # intervals [a,b]*[c,d] with None infinities
    if a is not None and b is not None and a==b:
        if a==0: return (0,0)
        if a>0: return (None if c is None else a*c, None if d is None else a*d)
        return (None if d is None else a*d, None if c is None else a*c)
    if c is not None and d is not None and c==d: return _imul(c,d,a,b)
    if None in (a,b,c,d):
        # non-negative lower bounds are the common useful case
        if a is not None and c is not None and a>=0 and c>=0:
            return (a*c, None if b is None or d is None else b*d)
        return (None,None)
    p=[a*c,a*d,b*c,b*d]
    return (min(p),max(p))

# ---------------------------------------------------------------- conditions
# python bool | ('le',p) p<=0 | ('lt',p) p<0 (reals) | ('eq',p) | ('ne',p) | ('and',(..)) | ('or',(..)) | ('bv',atomid) | ('nbv',atomid)
def _norm_sign(p):
    k=min(p.t)
    return neg(p) if p.t[k]<0 else p
def c_le0(p):
    if is_const(p): return p<=0
    lo,hi=iv(p)
    if hi is not None and hi<=0: return True
    if lo is not None and lo>0: return False
    return ('le',p)
def c_lt0(p):
    if not isreal(p): return c_le0(add(p,1))
    if is_const(p): return p<0
    lo,hi=iv(p)
    if hi is not None and hi<0: return True
    if lo is not None and lo>=0: return False
    return ('lt',p)
def c_eq0(p):
    if is_const(p): return p==0
    lo,hi=iv(p)
    if (lo is not None and lo>0) or (hi is not None and hi<0): return False
    return ('eq',_norm_sign(p))
def c_ne0(p): return c_not(c_eq0(p))
def c_not(c):
    if isinstance(c,bool): return not c
    k=c[0]
    if k=='le': return c_lt0(neg(c[1])) if not isreal(c[1]) else ('lt',neg(c[1]))
    if k=='lt': return ('le',neg(c[1]))
    if k=='eq': return ('ne',c[1])
    if k=='ne': return ('eq',c[1])
    if k=='and': return c_or(*[c_not(x) for x in c[1]])
    if k=='or': return c_and(*[c_not(x) for x in c[1]])
    if k=='bv': return ('nbv',c[1])
    if k=='nbv': return ('bv',c[1])
    raise Exception(c)
def c_and(*cs):
    out=[]
    for c in cs:
        if c is True: continue
        if c is False: return False
        if c[0]=='and':
            for x in c[1]:
                if x not in out: out.append(x)
        elif c not in out: out.append(c)
    for x in out:
        if c_not(x) in out: return False
    if not out: return True
    if len(out)==1: return out[0]
    return ('and',tuple(out))
def c_or(*cs):
    out=[]
    for c in cs:
        if c is False: continue
        if c is True: return True
        if c[0]=='or':
            for x in c[1]:
                if x not in out: out.append(x)
        elif c not in out: out.append(c)
    for x in out:
        if c_not(x) in out: return True
    if not out: return False
    if len(out)==1: return out[0]
    return ('or',tuple(out))
def c_xor(a,b): return c_or(c_and(a,c_not(b)),c_and(c_not(a),b))
def c_iff(a,b): return c_not(c_xor(a,b))
def fresh_bool(name):
    _fresh[0]+=1
    return ('bv',mk_atom('bool',(f"{name}!{_fresh[0]}",),'b',f"{name}!{_fresh[0]}").id)
def named_bool(name): return ('bv',mk_atom('bool',(name,),'b',name).id)

def ite(c,a,b):
    if c is True: return a
    if c is False: return b
    if isinstance(a,(bool,tuple)) or isinstance(b,(bool,tuple)):
        return c_or(c_and(c,a),c_and(c_not(c),b))
    if a==b and isreal(a)==isreal(b): return a
    real=isreal(a) or isreal(b)
    if real: a=toreal(a); b=toreal(b)
    if not real and c[0]=='le':
        d=sub(a,b); p=c[1]
        if isinstance(p,Poly) and isinstance(d,Poly):
            if p==d or p==add(d,1): return minmax(a,b,'min')
            n=neg(d)
            if p==n or p==add(n,1): return minmax(a,b,'max')
    # canonical polarity
    nc=c_not(c)
    if repr(nc)<repr(c): c,a,b=nc,b,a
    la,ha=iv(a); lb,hb=iv(b)
    lo=None if la is None or lb is None else min(la,lb)
    hi=None if ha is None or hb is None else max(ha,hb)
    return Poly.atom(mk_atom('ite',(c,a,b),'r' if real else 'i',lo=lo,hi=hi))

MM={}   # atom id -> (kind,args): integer min/max, flattened and ordered
def minmax(a,b,kind):
    args=[]
    def fl(x):
        if isinstance(x,Poly) and len(x.t)==1:
            (m,c),=x.t.items()
            if len(m)==1 and c==1 and m[0] in MM and MM[m[0]][0]==kind:
                for y in MM[m[0]][1]: 
                    if y not in args: args.append(y)
                return
        if x not in args: args.append(x)
    fl(a); fl(b)
    # constant differences decide
    out=[]
    for x in args:
        keep=True
        for k,y in enumerate(out):
            d=sub(x,y)
            if is_const(d):
                if (d<0)==(kind=='min'): out[k]=x
                keep=False; break
        if keep: out.append(x)
    args=sorted(out,key=repr)
    r=args[0]
    for x in args[1:]:
        d=sub(x,r) if kind=='min' else sub(r,x)
        la,ha=iv(r); lb,hb=iv(x)
        f=min if kind=='min' else max
        if kind=='min':
            lo=None if la is None or lb is None else min(la,lb)
            hi=hb if ha is None else (ha if hb is None else min(ha,hb))
        else:
            lo=lb if la is None else (la if lb is None else max(la,lb))
            hi=None if ha is None or hb is None else max(ha,hb)
        dl,dh=iv(d)
        if dh is not None and dh<=0: r=x; continue
        if dl is not None and dl>=0: continue
        r=Poly.atom(mk_atom('ite',(('le',d),x,r),'i',lo=lo,hi=hi))
    if isinstance(r,Poly) and len(r.t)==1 and len(args)>1:
        (m,c),=r.t.items()
        if len(m)==1 and c==1 and ATOMS[m[0]].kind=='ite': MM.setdefault(m[0],(kind,tuple(args)))
    return r
# ---------------------------------------------------------------- substitution
def subst_poly(p,s,memo=None):
    """replace atoms by s[atomid] (polys/consts). Recurses into structured atoms."""
    if not isinstance(p,Poly): return p
    if memo is None: memo={}
    r=memo.get(p)
    if r is not None: return r
    acc=Fraction(0) if p.real else 0
    touched=False
    for m,c in p.t.items():
        term=c if not p.real else Fraction(c)
        for a in m:
            v=subst_atom(a,s,memo)
            if not(isinstance(v,Poly) and len(v.t)==1 and v.t.get((a,))==1): touched=True
            term=mul(term,v)
        acc=add(acc,term)
    if p.real: acc=toreal(acc)
    if not touched: acc=p
    memo[p]=acc
    return acc
def atom_deps(a):
    """set of base atoms under atom a (including itself)"""
    at=ATOMS[a]
    if at._deps is not None: return at._deps
    r={a}
    def walk(x):
        if isinstance(x,Poly):
            for k in x.atoms(): r.update(atom_deps(k))
        elif isinstance(x,tuple):
            if len(x)==2 and x[0] in('bv','nbv') and isinstance(x[1],int): r.add(x[1])
            else:
                for y in x: walk(y)
    if at.kind in('inv1',): r.update(atom_deps(at.args[0]))
    elif at.kind!='var' and at.kind!='bool': walk(at.args)
    at._deps=r
    return r
def subst_atom(a,s,memo):
    if a in s: return s[a]
    at=ATOMS[a]
    if at.kind in('var','bool'): return Poly({(a,):1},at.sort=='r')
    if not (atom_deps(a) & s.keys()): return Poly({(a,):1},at.sort=='r')
    k=('A',a)
    if k in memo: return memo[k]
    args=at.args
    if at.kind=='ite':
        r=ite(subst_cond(args[0],s,memo),subst_poly(args[1],s,memo),subst_poly(args[2],s,memo))
    elif at.kind=='div': r=idiv_atom(subst_poly(args[0],s,memo),subst_poly(args[1],s,memo))
    elif at.kind=='mod': r=imod_atom(subst_poly(args[0],s,memo),subst_poly(args[1],s,memo))
    elif at.kind=='fdiv': r=fdiv_atom(subst_poly(args[0],s,memo),args[1])
    elif at.kind=='fmod': r=fmod_atom(subst_poly(args[0],s,memo),args[1])
    elif at.kind=='inv1':
        v=subst_atom(args[0],s,memo); r=rdiv(Fraction(1),v)
    elif at.kind=='invp': r=rdiv(Fraction(1),subst_poly(args[0],s,memo))
    elif at.kind=='sel': r=mk_sel(args[0],tuple(subst_poly(x,s,memo) for x in args[1]),at.sort,at.lo,at.hi)
    elif at.kind=='uf': r=mk_uf(args[0],tuple(subst_any(x,s,memo) for x in args[1:]),at.sort,at.lo,at.hi)
    elif at.kind=='trunc': r=rtrunc(subst_poly(args[0],s,memo))
    else: raise Exception("subst "+at.kind)
    memo[k]=r
    return r
def subst_any(x,s,memo):
    if isinstance(x,Poly): return subst_poly(x,s,memo)
    if isinstance(x,tuple): return subst_cond(x,s,memo)
    return x
def subst_cond(c,s,memo=None):
    if isinstance(c,bool): return c
    if memo is None: memo={}
    k=c[0]
    if k in('le','lt','eq','ne'):
        p=subst_poly(c[1],s,memo)
        if p is c[1]: return c
        return {'le':c_le0,'lt':c_lt0,'eq':c_eq0,'ne':c_ne0}[k](p)
    if k in('and','or'):
        l=[subst_cond(x,s,memo) for x in c[1]]
        if all(x is y for x,y in zip(l,c[1])): return c
        return c_and(*l) if k=='and' else c_or(*l)
    if k in('bv','nbv'):
        if c[1] in s:
            v=s[c[1]]; return v if k=='bv' else c_not(v)
        at=ATOMS[c[1]]
        if at.kind=='bsel':
            v=mk_bsel(at.args[0],tuple(subst_poly(x,s,memo) for x in at.args[1]))
            return v if k=='bv' else c_not(v)
        return c
    raise Exception(c)

def mk_sel(base,idx,sort,lo=None,hi=None):
    return Poly.atom(mk_atom('sel',(base,idx),sort,lo=lo,hi=hi))
def mk_bsel(base,idx):
    return ('bv',mk_atom('bsel',(base,idx),'b').id)
def mk_uf(name,args,sort,lo=None,hi=None):
    return Poly.atom(mk_atom('uf',(name,)+tuple(args),sort,lo=lo,hi=hi))

def ediv(a,b):
    q=abs(a)//abs(b)
    return q if (a>=0)==(b>=0) else -q
def idiv_atom(a,b):
    """C truncated division as an atom (b != 0 assumed)"""
    if is_const(a) and is_const(b) and b!=0: return ediv(a,b)
    if is_const(b) and b==1: return a
    la,ha=iv(a); lo=hi=None
    lb,hb=iv(b)
    if la is not None and la>=0 and lb is not None and lb>0:
        lo=0; hi=ha if ha is None or not is_const(b) else ha//b
    return Poly.atom(mk_atom('div',(a,b),'i',lo=lo,hi=hi))
def imod_atom(a,b):
    if is_const(a) and is_const(b) and b!=0: return a-b*ediv(a,b)
    if is_const(b) and b in(1,-1): return 0
    la,ha=iv(a); lb,hb=iv(b); lo=hi=None
    if la is not None and la>=0:
        lo=0
        if hb is not None and lb is not None and lb>0: hi=hb-1
        if ha is not None: hi=ha if hi is None else min(hi,ha)
    return Poly.atom(mk_atom('mod',(a,b),'i',lo=lo,hi=hi))
def fdiv_atom(a,b):
    """floor(a/b) and a-b*floor(a/b), b a positive constant: opaque to the solver (only the bounds of the remainder are used)"""
    return a//b if is_const(a) else Poly.atom(mk_atom('fdiv',(a,b),'i'))
def fmod_atom(a,b):
    return a%b if is_const(a) else Poly.atom(mk_atom('fmod',(a,b),'i',lo=0,hi=b-1))
FRACS=set()    # real symbols in [0,1)
def rtrunc(x):
    """real -> int truncation toward zero"""
    if is_const(x):
        return int(x)
    # a non-negative integer plus a fraction in [0,1)
    fr=[m for m in x.t if len(m)==1 and m[0] in FRACS]
    if len(fr)==1 and x.t[fr[0]]==1 and all(m==fr[0] or (Fraction(c).denominator==1 and all(ATOMS[a].sort=='i' for a in m)) for m,c in x.t.items()):
        r=mkpoly({m:int(c) for m,c in x.t.items() if m!=fr[0]},False)
        lo=r if is_const(r) else iv(r)[0]
        if lo is not None and lo>=0: return r
    return Poly.atom(mk_atom('trunc',(x,),'i'))

# ---------------------------------------------------------------- z3
_CZ={}
_FD={}
def z3int(v): return z3.IntVal(v)
def atom_z3(a):
    at=ATOMS[a]
    if at._z is not None: return at._z
    k=at.kind
    if k=='var': z=z3.Int(at.name) if at.sort=='i' else z3.Real(at.name)
    elif k=='bool': z=z3.Bool(at.name)
    elif k in('fdiv','fmod'): z=z3.Int(at.name)
    elif k=='ite': z=z3.If(cond_z3(at.args[0]),poly_z3(at.args[1],at.sort=='r'),poly_z3(at.args[2],at.sort=='r'))
    elif k in('div','mod'):
        x=poly_z3(at.args[0]); y=poly_z3(at.args[1])
        la,_=iv(at.args[0]); lb,_=iv(at.args[1])
        if la is not None and la>=0 and lb is not None and lb>0:
            z=x/y if k=='div' else x%y
        else:
            q=z3.If(x>=0,z3.If(y>0,x/y,-(x/(-y))),z3.If(y>0,-((-x)/y),(-x)/(-y)))
            z=q if k=='div' else x-y*q
    elif k=='inv1': z=1/_tor(atom_z3(at.args[0]))
    elif k=='invp': z=1/poly_z3(at.args[0],True)
    elif k in('sel','bsel'):
        base,idx=at.args
        rs={'i':z3.IntSort(),'r':z3.RealSort(),'b':z3.BoolSort()}[at.sort]
        f=z3.Function(f"A_{base}",*([z3.IntSort()]*len(idx)+[rs]))
        z=f(*[poly_z3(x) for x in idx])
    elif k=='uf':
        zs=[]; 
        for x in at.args[1:]:
            if isinstance(x,(bool,tuple)): zs.append(cond_z3(x))
            else: zs.append(poly_z3(x,isreal(x)))
        rs={'i':z3.IntSort(),'r':z3.RealSort(),'b':z3.BoolSort()}[at.sort]
        f=z3.Function(f"UF_{at.args[0]}",*([x.sort() for x in zs]+[rs]))
        z=f(*zs)
    elif k=='trunc':
        x=poly_z3(at.args[0],True)
        z=z3.If(x>=0,z3.ToInt(x),-z3.ToInt(-x))
    else: raise Exception(k)
    at._z=z
    return z
def _tor(z): return z3.ToReal(z) if z.sort()==z3.IntSort() else z
def poly_z3(p,real=None):
    if not isinstance(p,Poly):
        if real or isinstance(p,Fraction): 
            p=Fraction(p); return z3.RealVal(f"{p.numerator}/{p.denominator}")
        return z3.IntVal(p)
    real=p.real if real is None else real
    k=(p.key(),real)
    z=Poly._zc.get(k)
    if z is not None: return z
    ts=[]
    for m,c in p.t.items():
        fs=[]
        for a in m:
            za=atom_z3(a)
            if real: za=_tor(za)
            fs.append(za)
        if c!=1 or not fs:
            if real:
                f=Fraction(c); cz=z3.RealVal(f"{f.numerator}/{f.denominator}")
            else: cz=z3.IntVal(c)
            fs=[cz]+fs
        ts.append(fs[0] if len(fs)==1 else z3.Product(*fs))
    z=ts[0] if len(ts)==1 else z3.Sum(*ts)
    Poly._zc[k]=z
    return z
def cond_z3(c):
    if isinstance(c,bool): return z3.BoolVal(c)
    z=_CZ.get(c)
    if z is not None: return z
    k=c[0]
    if k in('le','lt','eq','ne'):
        p=poly_z3(c[1])
        zero=z3.RealVal(0) if c[1].real else z3.IntVal(0)
        z={'le':lambda:p<=zero,'lt':lambda:p<zero,'eq':lambda:p==zero,'ne':lambda:p!=zero}[k]()
    elif k=='and': z=z3.And(*[cond_z3(x) for x in c[1]])
    elif k=='or': z=z3.Or(*[cond_z3(x) for x in c[1]])
    elif k=='bv': z=atom_z3(c[1])
    elif k=='nbv': z=z3.Not(atom_z3(c[1]))
    _CZ[c]=z
    return z
def cond_atoms(c,acc=None):
    if acc is None: acc=set()
    if isinstance(c,bool): return acc
    k=c[0]
    if k in('le','lt','eq','ne'):
        for a in c[1].atoms(): acc.update(atom_deps(a))
    elif k in('and','or'):
        for x in c[1]: cond_atoms(x,acc)
    else: acc.update(atom_deps(c[1]))
    return acc
