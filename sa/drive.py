"""Scenarios: abstract arguments, construction and operation of library objects."""
import ast
from .dom import *
from . import interp as ip
from .interp import Interp, State, Cell, Func, ClassInfo, V, vconst, vany, vdim, vnum, Unsupported, Budget, AnchorMissing, NONE

DRIVER = ast.parse('def driver(): pass').body[0]
class Step:
    """Outcome of a step: results [ ( V, State ) ], raises [ Out ]."""
    def __init__(s, results, raises): s.results = results; s.raises = raises
    def __repr__(s): return f'Step({len(s.results)} results, raises {sorted({(r.v.c if r.v.c is not ip.NOC else "?") for r in s.raises})})'

def blank(I):
    st = State(); st.env = {}
    return st

class Driver:
    def __init__(self, I): self.I = I; self.n = 0
    def run(self, op, f):
        I = self.I
        save = I.op, I.ctx
        I.op, I.ctx = op, ()
        ds, dk = len(I.stack), len(I.sinks)
        I.stack.append((Func(DRIVER, I.package, None, None, [], {}, '<driver>'), None)); I.sinks.append([])
        try:
            r = f()
            sink = I.sinks[-1]
        finally:
            del I.stack[ds:]; del I.sinks[dk:]; I.loops.clear()
            I.op, I.ctx = save
        return Step(r, sink)
    def cls(self, name):
        ci = self.I.classes.get(name)
        if ci is None: raise AnchorMissing(f'class {name}')
        return ci
    def construct(self, name, args=(), kw=None, st=None, op='k0'):
        ci = self.cls(name); st = st or blank(self.I)
        return self.run(op, lambda: self.I.construct(ci, list(args), dict(kw or {}), st, NODE))
    def method(self, o, name, args=(), kw=None, st=None, op='k1'):
        I = self.I
        def f():
            out = []
            for m, s in I.getattr_(o, name, st, NODE): out += I.call(m, list(args), dict(kw or {}), s, NODE)
            return I.mergev(out)
        return self.run(op, f)
    def static(self, cname, name, args=(), kw=None, st=None, op='k0'):
        ci = self.cls(cname)
        if self.I.lookup(ci, name) is None: raise AnchorMissing(f'{cname}.{name}')
        return self.method(V('cls', c=ci), name, args, kw, st or blank(self.I), op)
    def get(self, o, name, st, op='k1'):
        return self.run(op, lambda: self.I.getattr_(o, name, st, NODE))
    def set(self, o, name, v, st, op='k1'):
        return self.run(op, lambda: [(NONE, s) for s in self.I.setattr_(st, o, name, v, NODE)])
NODE = ast.copy_location(ast.Pass(), DRIVER); NODE.lineno = 0; NODE.col_offset = 0

# ------------------------------------------------------------------ abstract arguments
def KD(s): return frozenset(s)
def dimof(label, d, mn): return atom(f'{label}.{d}', mn) if isinstance(d, str) else (d if isinstance(d, Dim) else Dim(d))
def array(st, label, dt='f', dims=('N',), lin='K', deps=None, mn=1, iv=None, mv=None, items=None, el=False, tag='arg', nn=None):
    """Argument array with symbolic dimensions.  el: element dependences are tracked per position."""
    sh = tuple(dimof(label, d, mn) for d in dims)
    loc = f'{tag}:{label}'
    dp = frozenset([f'el:{label}' if el else f'arg:{label}']) if deps is None else deps
    e = V('num', dt=KD(dt), deps=dp, lin=lin, iv=iv, mv=frozenset([label]) if mv is None else mv, t=('elt', label))
    st.heap[loc] = Cell('arr', elem=e, items=items)
    return V('arr', dt=KD(dt), shape=sh, locs=frozenset([loc]), deps=E0)
def listof(st, label, dt='f', n='N', lin='K', mn=1, el=False, tag='arg', iv=None):
    sh = (dimof(label, n, mn),)
    loc = f'{tag}:{label}'
    e = V('num', dt=KD(dt), deps=frozenset([f'el:{label}' if el else f'arg:{label}']), lin=lin, iv=iv, mv=frozenset([label]), t=('elt', label))
    st.heap[loc] = Cell('list', elem=e)
    return V('list', shape=sh, locs=frozenset([loc]))
def rows(st, label, dt='f', n='R', m='N', lin='K', mn=1, tag='arg'):
    """List of lists of equal length."""
    inner = f'{tag}:{label}.row'
    st.heap[inner] = Cell('list', elem=V('num', dt=KD(dt), deps=frozenset([f'arg:{label}']), lin=lin, mv=frozenset([label]), t=('elt', label)), multi=True)
    iv = V('list', shape=(dimof(label, m, mn),), locs=frozenset([inner]))
    outer = f'{tag}:{label}'
    st.heap[outer] = Cell('list', elem=iv)
    return V('list', shape=(dimof(label, n, mn),), locs=frozenset([outer]))
def fnum(label, iv=None, lin='K'): return V('num', dt=DF, iv=iv, deps=frozenset([f'arg:{label}']), lin=lin, mv=frozenset([label]), t=('par', label))
def cnum(label, lin='K'): return V('num', dt=DC, deps=frozenset([f'arg:{label}']), lin=lin, mv=frozenset([label]), t=('par', label))
def inum(label, mn=None, mx=None):
    """Integer parameter; with a minimum it is an affine dimension."""
    if mn is not None:
        a = atom(f'{label}', mn)
        return V('num', dt=DI, d=a, iv=(mn, True, INF if mx is None else mx, mx is not None), deps=frozenset([f'arg:{label}']), mv=frozenset([label]), t=('par', label))
    return V('num', dt=DI, iv=(-INF, False, INF, False), deps=frozenset([f'arg:{label}']), mv=frozenset([label]), t=('par', label))
def text(label): return V('str', deps=frozenset([f'arg:{label}']), t=('par', label))
def flag(label): return V('bool', dt=DB, iv=(0, True, 1, True), deps=frozenset([f'arg:{label}']), t=('par', label))
def obj(label): return V('any', deps=frozenset([f'arg:{label}']), t=('par', label))
def const(v, label=None):
    r = vconst(v)
    return r.r(deps=frozenset([f'arg:{label}'])) if label else r
