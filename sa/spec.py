"""Documented public surface of the library: constructors, assignable properties, operations, parameter domains.
This is the statement of the contract (taken from documentation and property statements), not of the implementation."""
from .drive import *

class Mode:
    """How array-like parameters are instantiated."""
    def __init__(s, sig='f', cont='arr', siglin='K', coef='f', state='f', statelin='K', el=False, tag='arg', mn=1, dims=None):
        s.sig, s.cont, s.siglin, s.coef, s.state, s.statelin, s.el, s.tag, s.mn, s.dims = sig, cont, siglin, coef, state, statelin, el, tag, mn, dims
    def __repr__(s): return f'{s.cont}:{s.sig}/{s.coef}'
    def r(s, **k):
        m = Mode(); m.__dict__.update(s.__dict__); m.__dict__.update(k); return m
BASE = Mode()

class P: kind = '?'; dom = None
class Sig(P):
    kind = 'sig'
    def __init__(s, dims=('N',), mn=1, iv=None, dt=None, conts=('arr', 'list')): s.dims, s.mn, s.iv, s.dt, s.conts = dims, mn, iv, dt, conts
    def mk(s, st, label, m):
        dt = s.dt or m.sig
        dims = m.dims if m.dims else s.dims
        if m.cont == 'list' and 'list' in s.conts:
            if len(dims) == 1: return listof(st, label, dt, dims[0], lin=m.siglin, mn=s.mn, el=m.el, tag=m.tag, iv=s.iv)
            return rows(st, label, dt, dims[0], dims[1], lin=m.siglin, mn=s.mn, tag=m.tag)
        return array(st, label, dt, dims, lin=m.siglin, mn=s.mn, iv=s.iv, el=m.el, tag=m.tag)
class Coef(P):
    kind = 'coef'
    def __init__(s, n='N', mn=1, dt=None): s.n, s.mn, s.dt = n, mn, dt
    def mk(s, st, label, m):
        if m.cont == 'list': return listof(st, label, s.dt or m.coef, s.n, mn=s.mn, tag=m.tag)
        return array(st, label, s.dt or m.coef, (s.n,), mn=s.mn, tag=m.tag)
class FCoef(Coef):
    """Feedback coefficients: leading value zero."""
    def mk(s, st, label, m):
        v = super().mk(st, label, m)
        return v
class State(P):
    kind = 'state'
    def __init__(s, n='N', mn=1): s.n, s.mn = n, mn
    def mk(s, st, label, m):
        if m.cont == 'list': return listof(st, label, m.state, s.n, mn=s.mn, lin=m.statelin, tag=m.tag)
        return array(st, label, m.state, (s.n,), mn=s.mn, lin=m.statelin, tag=m.tag)
class Rows(P):
    """State of the diversity model."""
    kind = 'rows'
    def mk(s, st, label, m):
        if m.cont == 'list': return rows(st, label, m.state, tag=m.tag)
        return array(st, label, m.state, ('R', 'N'), tag=m.tag)
class Num(P):
    """Real parameter on the domain ( lo, loclosed, hi, hiclosed )."""
    kind = 'num'
    def __init__(s, lo=-INF, lc=False, hi=INF, hc=False): s.dom = (lo, lc, hi, hc)
    def mk(s, st, label, m): return fnum(label, s.dom)
class SigNum(P):
    """Number which joins the signal path (reset value)."""
    kind = 'signum'
    def __init__(s, cplx=True): s.cplx = cplx
    def mk(s, st, label, m): return V('num', dt=KD(m.sig if s.cplx else 'f'), deps=frozenset([f'arg:{label}']), lin=m.siglin, mv=frozenset([label]), t=('par', label))
class Int(P):
    kind = 'int'
    def __init__(s, mn=None, mx=None): s.dom = (-INF if mn is None else mn, mn is not None, INF if mx is None else mx, mx is not None)
    def mk(s, st, label, m): return inum(label, None if s.dom[0] == -INF else s.dom[0], None if s.dom[2] == INF else s.dom[2])
class Flag(P):
    kind = 'flag'
    def mk(s, st, label, m): return flag(label)
class Const(P):
    kind = 'const'
    def __init__(s, v): s.v = v
    def mk(s, st, label, m): return const(s.v, label)
    def __repr__(s): return repr(s.v)
class Obj(P):
    kind = 'obj'
    def mk(s, st, label, m): return obj(label)
class Text(P):
    kind = 'text'
    def mk(s, st, label, m): return text(label)
class Map(P):
    kind = 'map'
    def mk(s, st, label, m): return mapping(st, label, m.tag)
class Labels(P):
    kind = 'labels'
    def __init__(s, n): s.n = n
    def mk(s, st, label, m): return array(st, label, 'i', (atom(s.n, 1),), tag=m.tag)
class Stream(P):
    kind = 'stream'
    def mk(s, st, label, m): return V('ext', c=('stream', label), deps=frozenset([f'arg:{label}']), t=('par', label))

def mapping(st, label, tag='arg'):
    loc = f'{tag}:{label}'
    st.heap[loc] = Cell('dict', elem=V('str', deps=frozenset([f'arg:{label}']), t=('elt', label)), items=None)
    return V('dict', locs=frozenset([loc]), deps=frozenset([f'arg:{label}']), t=('par', label))

class K:
    """Constructor variant."""
    def __init__(self, name, /, **p): self.name, self.p = name, p
class O:
    """Operation variant."""
    def __init__(self, op, variant="", /, **p): self.op, self.name, self.p = op, op + (f"[{variant}]" if variant else ""), p
class C:
    def __init__(s, name, ctors, sets=None, ops=(), static=False, linear=True): s.name, s.ctors, s.sets, s.ops, s.static = name, ctors, sets or {}, list(ops), static

F01 = lambda: Num(0.0, False, 1.0, False)
def cascade(): return [O('delay', length=Int(1), count=Int(1)), O('response', length=Int(1), count=Int(1)), O('roots', count=Int(1))]
def design(styles): return [K('style=' + s, style=Const(s), frequency=F01(), order=Int(1), count=Int(1), complement=Flag(), gain=Num()) for s in styles]
FIRSTYLE = ('Blackman', 'Hamming', 'Hann', 'Kaiser')
IIRSTYLE = ('Bessel', 'Butterworth', 'Chebyshev')
DISTANCE = ('Chebyshev', 'Euclidean', 'Geometric', 'Manhattan')
DERIV = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4)]
INTEG = list(range(1, 13))
WAVELET = [('Haar', 1), ('Daubechies', 3), ('Coiflet', 5)]

API = [
 C('FirFilter', [K('coefficients', b=Coef(), s=State())] + design(FIRSTYLE), dict(b=Coef(), s=State()),
   [O('filter', x=Sig()), O('reset', x=SigNum())] + cascade()),
 C('IirFilter', [K('coefficients', a=FCoef(), b=Coef(), s=State())] + design(IIRSTYLE), dict(a=FCoef(), b=Coef(), s=State()),
   [O('filter', x=Sig()), O('reset', x=SigNum())] + cascade()),
 C('DerivativeFilter', [K('1,1', derivative=Const(1), order=Const(1)), K('2,4', derivative=Const(2), order=Const(4))], dict(b=Coef(), s=State()),
   [O('filter', x=Sig()), O('reset', x=SigNum())] + cascade()),
 C('IntegralFilter', [K('2', order=Const(2))], dict(a=FCoef(), b=Coef(), s=State()), [O('filter', x=Sig()), O('reset', x=SigNum())] + cascade()),
 C('GoertzelFilter', [K('b', b=Coef(), frequency=Num(-1.0, True, 1.0, True))], dict(frequency=Num(-1.0, True, 1.0, True)), [O('filter', x=Sig()), O('reset', x=SigNum())]),
 C('RankFilter', [K('index', index=Int(0), order=Int(0)), K('1,4', index=Const(1), order=Const(4))], dict(index=Int(0), s=State()), [O('filter', x=Sig()), O('reset', x=SigNum())]),
 C('PidFilter', [K('b', b=Coef(3))], dict(b=Coef(3), limit=Num(0.0, False)), [O('filter', x=Sig()), O('reset', x=SigNum())]),
 C('PolynomialRateFilter', [K(f'order={n}', rate=Num(0.0, False), order=p) for n, p in (('1', Const(1)), ('2', Const(2)), ('3+', Int(3)))], dict(rate=Num(0.0, False), order=Int(1)),
   [O('filter', x=Sig(mn=2))]),
 C('PolyphaseRateFilter', [K('rate', rate=Num(0.0, False, 256.0, True))], dict(rate=Num(0.0, False, 256.0, True), s=State()),
   [O('filter', x=Sig()), O('reset', x=SigNum())]),
 C('WindowFilter', [K('style=' + s, style=Const(s), order=Int(0), normal=Flag()) for s in FIRSTYLE], {}, [O('filter', x=Sig(dims=(atom('order', 0).add(Dim(1)),)))]),
 C('ComplexBandpassFilter', [K('f', frequency=Num(-1.0, True, 1.0, True), rate=Num(0.0, True, 1.0, True))], dict(frequency=Num(-1.0, True, 1.0, True), rate=Num(0.0, True, 1.0, True)),
   [O('filter', d=Sig()), O('reset', x=SigNum())]),
 C('ComplexFrequencyFilter', [K('f', frequency=Num(-1.0, True, 1.0, True), rate=Num(0.0, True, 1.0, True))], dict(frequency=Num(-1.0, True, 1.0, True), rate=Num(0.0, True, 1.0, True)),
   [O('filter', d=Sig()), O('reset', x=SigNum())]),
 C('ComplexExponentialFilter', [K('phase', phase=Num(-1.0, True, 1.0, True))], dict(phase=Num(-1.0, True, 1.0, True)), [O('filter', x=Sig(iv=(-1.0, True, 1.0, True)))]),
 C('ComplexTransform', [], {}, [O('transform', 'complex', x=Sig(dt='c'), neutral=Flag()), O('transform', 'three-phase', x=Sig(dims=(3, 'N'), dt='f'), neutral=Flag()), O('transform', 'real', x=Sig(), neutral=Flag())], static=True),
 C('FourierTransform', [], {}, [O('transform', x=Sig(), b=Coef(), inverse=Flag())], static=True),
 C('PsdTransform', [], {}, [O('transform', x=Sig(), b=Coef(), index=Int(1), spectrogram=Flag())], static=True),
 C('ZTransform', [], {}, [O('transform', u=Coef(), v=Coef(), frequency=Num(0.0, False), bilinear=Flag())], static=True),
 C('WaveletTransform', [K(f'{s} {o}', style=Const(s), order=Const(o)) for s, o in WAVELET], {},
   [O('transform', f'{d}{"inverse" if i else "forward"} count={n}', x=Sig(dims=('N',) if d == '' else ('R', 'N')), count=Const(n), inverse=Const(i)) for d in ('', '2-D ') for i in (False, True) for n in (1, 2) if n == 1 or d == '']),
 C('DiversityModel', [K('style=' + s, style=Const(s), order=Int(0)) for s in DISTANCE], dict(s=Rows()), [O('fit', x=Sig(dims=('R', 'N'))), O('clear')]),
 C('GaussianModel', [K('regularize', regularize=Num(0.0, True))], dict(regularize=Num(0.0, True)),
   [O('fit', x=Sig(dims=('R', 'N'), conts=('arr',)), y=Labels('x.R')), O('predict', x=Sig(dims=('R', 'N'), conts=('arr',)))]),
 C('GaussianMixtureModel', [K('order', order=Int(1), index=Int(1), regularize=Num(0.0, True))], dict(regularize=Num(0.0, True), index=Int(1)),
   [O('fit', x=Sig(dims=('R', 'N'), conts=('arr',)), y=Labels('x.R')), O('predict', x=Sig(dims=('R', 'N'), conts=('arr',)))]),
 C('RestClient', [K('')], dict(proxy=Map(), timeout=Obj(), url=Text()),
   [O('request', method=Const('get'), api=Text(), auth=Obj(), header=Map(), item=Map(), data=Obj(), json=Const(None)),
    O('request', 'json', method=Const('post'), api=Text(), auth=Obj(), header=Map(), item=Map(), data=Const(None), json=Map())]),
 C('Serial', [], {}, [O('encode', x=Map(), compress=Flag(), encoding=Text()), O('encode', 'array', x=Sig(), compress=Flag(), encoding=Text()), O('decode', x=Text(), encoding=Text()), O('code', x=Text(), encoding=Text())], static=True),
]
BYNAME = {c.name: c for c in API}
# constructor variants which combine arguments of others; not used where each argument must take effect
EXTRA = {'FirFilter': [K('coefficients and constraints', b=Coef(), s=State(), style=Const('Hann'), frequency=F01(), order=Int(1), count=Int(1), complement=Flag(), gain=Num())],
         'IirFilter': [K('coefficients and constraints', a=FCoef(), b=Coef(), s=State(), style=Const('Bessel'), frequency=F01(), order=Int(1), count=Int(1), complement=Flag(), gain=Num())]}
def mkargs(st, p, m, prefix=''):
    return {n: q.mk(st, prefix + n, m) for n, q in p.items()}
