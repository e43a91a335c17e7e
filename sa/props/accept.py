"""C41: calls outside the documented domain of shapes are rejected, calls inside are accepted."""
import ast
from ..core import *
from ..spec import *
from .. import interp as ip
from .lines import forms, vec, leaf
from .models import labels

def sig(st, label, dims, kind='f', cont='arr', iv=None, ramp=None):
    """Signal of a shape: elements are formal as far as vectors are followed, else a summary; kind z: all zero."""
    n = 1
    for d in dims: n *= d
    if cont == 'list' and len(dims) == 2:
        inner = [vec(st, f'{label}.{i}', forms(f'{label}{i}', dims[1], kind), kind, 'list') for i in range(dims[0])]
        st.heap['arg:' + label] = Cell('list', elem=inner[0] if inner else None, items=tuple(inner))
        return V('list', locs=frozenset(['arg:' + label]), shape=(Dim(dims[0]),))
    if kind == 'z': fs, kind = [('c', 0.0)] * n, 'f'
    elif n <= 64: fs = forms(label, n, kind) if kind != 'i' else [leaf(label, i) for i in range(n)]
    else: fs = None
    if fs is None or iv is not None:
        if cont == 'list': return listof(st, label, kind, Dim(n), iv=iv)
        return array(st, label, kind, tuple(Dim(d) for d in dims), iv=iv)
    v = vec(st, label, fs, kind, cont)
    return v if cont == 'list' else v.r(shape=tuple(Dim(d) for d in dims))
def fmt(dims): return f'{dims[0]} values' if len(dims) == 1 else 'shape ( ' + ', '.join(map(str, dims)) + ' )'
class Client:
    def __init__(s, ctx): s.ctx, s.R = ctx, ctx.R
    def judge(s, r, lab, want, cls, meth):
        """A call which must be rejected with an exception of a kind, or accepted ( want None )."""
        R = s.R; site = s.ctx.site(cls, meth); key = f'{cls}.{meth}'
        if r is None: return None
        names = sorted({str(excname(o)) for o in r.raises})
        if want:
            if r.results:
                if any(explicit(o) for o in r.raises): R.undecided('reject', lab, 'guard not decided')
                else: R.bad('accepted', lab, f'{lab} is not rejected with {want}', *site, key=f'accepted|{key}')
            elif not r.raises: R.undecided('reject', lab, 'no outcome')
            elif names == [want]: R.ok('reject', lab)
            elif want not in names and 'None' not in names: R.bad('exception', lab, f'{lab} fails with {", ".join(names)} instead of {want}', *site, key=f'exception|{key}')
            else: R.undecided('reject', lab, f'fails with {", ".join(names)}')
            return None
        if r.results:
            # the design of the shared bank has a guard of its own
            if any(explicit(o) for o in r.raises) and not (cls == 'PolyphaseRateFilter' and meth == '__init__'): R.undecided('accept', lab, 'guard not decided')
            else: R.ok('accept', lab)
            return r.results[0]
        if r.raises: R.bad('rejected', lab, f'{lab} is rejected ( {", ".join(names)} )', *site, key=f'rejected|{key}')
        else: R.undecided('accept', lab, 'no outcome')
        return None
    def make(s, cls, lab, want=None, st=None, **kw):
        st = st or blank(s.ctx.I)
        return s.judge(s.ctx.guard('analysis', lab, lambda: s.ctx.D.construct(cls, kw=kw, st=st)), lab, want, cls, '__init__')
    def call(s, o, st, cls, meth, args, lab, want=None, op='k1', **kw):
        return s.judge(s.ctx.guard('analysis', lab, lambda: s.ctx.D.method(o, meth, args, kw, st, op=op)), lab, want, cls, meth)
    def static(s, cls, meth, lab, want=None, st=None, **kw):
        return s.judge(s.ctx.guard('analysis', lab, lambda: s.ctx.D.static(cls, meth, kw=kw, st=st)), lab, want, cls, meth)
    def put(s, o, st, cls, name, v, lab, want=None):
        return s.judge(s.ctx.guard('analysis', lab, lambda: s.ctx.D.set(o, name, v, st, op='s')), lab, want, cls, name)

def c(v): return vconst(v)
# constructor arguments of one instance of every filter, smallest signal, dimensions other than one rejected, kinds of signal
def filters():
    def fixed(st): return {}
    return {
     'FirFilter': [(f'of {n} coefficients', lambda st, n=n: dict(b=vec(st, 'b', forms('b', n, 'f')))) for n in (1, 2, 3)],
     'IirFilter': [(f'of {n} coefficients', lambda st, n=n: dict(a=vec(st, 'a', [('c', x) for x in [0.0, 0.5, -0.25][:n]]), b=vec(st, 'b', [('c', x) for x in [1.0, 0.5, 0.25][:n]]))) for n in (1, 2, 3)],
     'DerivativeFilter': [('( 1, 1 )', lambda st: dict(derivative=c(1), order=c(1))), ('( 2, 4 )', lambda st: dict(derivative=c(2), order=c(4)))],
     'IntegralFilter': [('( 2 )', lambda st: dict(order=c(2)))],
     'GoertzelFilter': [(f'with a window of {n}', lambda st, n=n: dict(b=vec(st, 'b', [('c', 1.0)] * n), frequency=c(0.25))) for n in (1, 2, 5)],
     'RankFilter': [('( 0, 0 )', lambda st: dict(index=c(0), order=c(0))), ('( 1, 4 )', lambda st: dict(index=c(1), order=c(4)))],
     'PidFilter': [('', lambda st: dict(b=vec(st, 'b', [('c', x) for x in (1.0, 0.1, 0.1)])))],
     'PolynomialRateFilter': [(f'( {r}, {q} )', lambda st, r=r, q=q: dict(rate=c(r), order=c(q))) for r, q in ((1.5, 1), (0.5, 2), (2.0, 3), (1.0, 1), (1.0, 5))],
     'PolyphaseRateFilter': [(f'( {r} )', lambda st, r=r: dict(rate=c(r))) for r in (1.5, 0.5)],
     'ComplexBandpassFilter': [('', lambda st: dict(frequency=c(0.1), rate=c(0.1)))],
     'ComplexFrequencyFilter': [('', lambda st: dict(frequency=c(0.1), rate=c(0.1)))],
     'ComplexExponentialFilter': [('', lambda st: dict(phase=c(0.1)))],
    }
KINDS = {'ComplexExponentialFilter': 'fi', 'PolynomialRateFilter': 'fic'}
RESET = ('FirFilter', 'IirFilter', 'DerivativeFilter', 'IntegralFilter', 'GoertzelFilter', 'PolyphaseRateFilter', 'RankFilter', 'ComplexFrequencyFilter')
def c41(ctx):
    from .. import poly
    poly.REAL.clear()
    I = ctx.I; k = Client(ctx)
    deep = ctx.tier != 'quick'
    UNIT = (-1.0, True, 1.0, True)
    # ---- filters: signals
    for cls, vs in filters().items():
        low = 2 if cls == 'PolynomialRateFilter' else 1
        sizes = [n for n in range(low, 9 if not deep else 20)] + ctx.limits(20, 200000, cls)
        for name, kw in vs:
            lab0 = f'{cls}{name if name.startswith("(") else " " + name if name else ""}'
            for kind in KINDS.get(cls, 'fic'):
                for cont in ('arr', 'list'):
                    if not ctx.mine(): continue
                    st = blank(I)
                    r = k.make(cls, lab0, st=st, **kw(st))
                    if r is None: continue
                    o, st = r
                    iv = UNIT if cls == 'ComplexExponentialFilter' else None
                    for n in range(low):
                        s2 = st.copy(); x = sig(s2, 'x', (n,), kind, cont)
                        k.call(o, s2, cls, 'filter', [x], f'{lab0}, {cont} of {n} {kind} samples', 'ValueError')
                    for n in sizes:
                        if n > 64 and cont == 'list' and not deep: continue
                        if n > 4 and cls in ('PolynomialRateFilter', 'PolyphaseRateFilter', 'IirFilter') and kind != 'f': continue
                        s2 = st.copy(); x = sig(s2, 'x', (n,), kind, cont, iv)
                        k.call(o, s2, cls, 'filter', [x], f'{lab0}, {cont} of {n} {kind} samples')
                    if cls == 'PolynomialRateFilter':
                        for dims in ((2, 2), (3, 1), (1, 4), (2, 2, 2)):
                            if cont == 'list' and len(dims) > 2: continue
                            s2 = st.copy(); x = sig(s2, 'x', dims, kind, cont)
                            k.call(o, s2, cls, 'filter', [x], f'{lab0}, {cont} of {fmt(dims)}', 'ValueError')
            if cls == 'ComplexExponentialFilter':
                for what, kind, iv in (('complex samples', 'c', None), ('samples above 1', 'f', (1.0, False, 9.0, True)), ('samples below -1', 'f', (-9.0, True, -1.0, False))):
                    for cont in ('arr', 'list'):
                        if not ctx.mine(): continue
                        st = blank(I); r = k.make(cls, lab0, st=st, **kw(st))
                        if r is None: continue
                        for n in (1, 2, 4, 9):
                            s2 = r[1].copy(); x = sig(s2, 'x', (n,), kind, cont, iv)
                            k.call(r[0], s2, cls, 'filter', [x], f'{lab0}, {cont} of {n} {what}', 'ValueError')
                for v in ((1.5,), (0.5, 1.5), (-0.5, 0.25, -1.25), (-2.0, 0.5, 0.5), (0.0, 1.0001, 0.0, -1.0), (0.25, -1.0000001), (1.000000001,), (float('1e300'), 0.0)):
                    for cont in ('arr', 'list'):
                        st = blank(I); r = k.make(cls, lab0, st=st, **kw(st))
                        if r is None: continue
                        s2 = r[1]; x = vec(s2, 'x', [('c', q) for q in v], 'f', cont)
                        k.call(r[0], s2, cls, 'filter', [x], f'{lab0}, {cont} {list(v)}', 'ValueError')
                for v in ((1.0,), (-1.0,), (0.0,), (0.5, -1.0, 1.0), (-0.25, 0.999)):
                    st = blank(I); r = k.make(cls, lab0, st=st, **kw(st))
                    if r: k.call(r[0], r[1], cls, 'filter', [vec(r[1], 'x', [('c', q) for q in v], 'f')], f'{lab0}, {list(v)}')
            if cls in RESET:
                for kind in 'fc':
                    for cont in ('arr', 'list'):
                        if not ctx.mine(): continue
                        st = blank(I); r = k.make(cls, lab0, st=st, **kw(st))
                        if r is None: continue
                        for n in (0, 1, 2, 3):
                            s2 = r[1].copy(); x = sig(s2, 'x', (n,), kind, cont)
                            k.call(r[0], s2, cls, 'reset', [x], f'{lab0}, reset with {cont} of {n} values', 'ValueError')
                for q in (0.0, 0, 1, -2, 0.5, -0.25, 1j, 1.0 + 0.5j, 1e9):
                    st = blank(I); r = k.make(cls, lab0, st=st, **kw(st))
                    if r: k.call(r[0], r[1], cls, 'reset', [c(q)], f'{lab0}, reset with {q}')
    # ---- window filter
    cls = 'WindowFilter'
    for style in ('Blackman', 'Hamming', 'Hann', 'Kaiser'):
        for order in (0, 1, 2, 3, 6, *(() if not deep else (4, 5, 7, 12))):
            if style == 'Hann' and order == 1: continue
            for kind in 'fc':
                for cont in ('arr', 'list'):
                    if not ctx.mine(): continue
                    lab0 = f'{cls}( {style}, {order} )'
                    st = blank(I); r = k.make(cls, lab0, st=st, style=c(style), order=c(order))
                    if r is None: continue
                    for n in sorted({0, 1, 2, order, order + 1, order + 2, 2 * order + 2, 64}):
                        s2 = r[1].copy(); x = sig(s2, 'x', (n,), kind, cont)
                        k.call(r[0], s2, cls, 'filter', [x], f'{lab0}, {cont} of {n} samples', None if n == order + 1 else 'ValueError')
                    for dims in ((order + 1, 1), (order + 1, 2), (1, order + 1), (order + 1, order + 1)):
                        s2 = r[1].copy(); x = sig(s2, 'x', dims, kind, cont)
                        k.call(r[0], s2, cls, 'filter', [x], f'{lab0}, {cont} of {fmt(dims)}', 'ValueError')
    # ---- coefficients
    for cont in ('arr', 'list'):
        for kind in 'fci':
            if not ctx.mine(): continue
            st = blank(I); k.make('FirFilter', f'FirFilter with no coefficients ( {cont} )', 'ValueError', st=st, b=sig(st, 'b', (0,), kind, cont))
            for n in (1, 2, 4): st = blank(I); k.make('FirFilter', f'FirFilter with {n} coefficients ( {cont} )', st=st, b=sig(st, 'b', (n,), kind, cont))
            for n in range(8): st = blank(I); k.make('PidFilter', f'PidFilter with {n} coefficients ( {cont} )', None if n == 3 else 'ValueError', st=st, b=sig(st, 'b', (n,), kind, cont))
            st = blank(I); k.make('GoertzelFilter', f'GoertzelFilter with no window ( {cont} )', 'ValueError', st=st, b=sig(st, 'b', (0,), kind, cont), frequency=c(0.1))
        for n in (1, 2, 3, 8):
            if not ctx.mine(): continue
            st = blank(I); k.make('GoertzelFilter', f'GoertzelFilter with a window of {n} zeros ( {cont} )', 'ValueError', st=st, b=vec(st, 'b', [('c', 0.0)] * n, 'f', cont), frequency=c(0.1))
            for i in range(n):
                for q in (1.0, -0.5):
                    st = blank(I); k.make('GoertzelFilter', f'GoertzelFilter with a window of {n} values, one of them not zero ( {cont} )', st=st, b=vec(st, 'b', [('c', q if i == j else 0.0) for j in range(n)], 'f', cont), frequency=c(0.1))
        for a in ((1.0,), (1.0, 0.5), (-0.5, 0.25, 0.125), (1, 0), (1e-3, 0.5), (1j, 0.5), (0.5 - 0.5j,)):
            for m in (1, 2, 4):
                if not ctx.mine(): continue
                kind = 'c' if any(isinstance(q, complex) for q in a) else 'f'
                st = blank(I); k.make('IirFilter', f'IirFilter( a = {list(a)} ) with {m} forward coefficients ( {cont} )', 'ValueError', st=st, a=vec(st, 'a', [('c', q) for q in a], kind, cont), b=vec(st, 'b', forms('b', m, 'f'), 'f', cont))
                st = blank(I); r = k.make('IirFilter', f'IirFilter( a = [ 0, 0.5 ] ) with {m} forward coefficients ( {cont} )', st=st, a=vec(st, 'a', [('c', 0.0), ('c', 0.5)], 'f', cont), b=vec(st, 'b', forms('b', m, 'f'), 'f', cont))
    transforms(ctx, k, deep)
    models(ctx, k, deep)

def transforms(ctx, k, deep):
    I = ctx.I; VE = 'ValueError'
    cls = 'ComplexTransform'
    for cont in ('arr', 'list'):
        for neutral in (True, False):
            for kind in 'fi':
                for n in [*range(0, 7)] + ctx.limits(7, 200000, cls):
                    if not ctx.mine() or n > 64 and cont == 'list': continue
                    st = blank(I); x = sig(st, 'x', (n,), 'c' if kind == 'f' else kind, cont)
                    k.static(cls, 'transform', f'{cls} of {n} values ( {cont} )', None if n else VE, st=st, x=x, neutral=c(neutral))
                for dims in [(r, q) for r in range(0, 6) for q in (0, 1, 2, 3, 4)] + [(9, 3), (3, 9), (33, 2), (12, 12)] + [(1, 2, 2), (3, 3, 3), (3, 1, 1), (1, 1, 1), (0, 0, 0), (3, 2, 0)]:
                    if cont == 'list' and (len(dims) > 2 or not dims[0]) or not ctx.mine(): continue
                    good = len(dims) == 2 and dims[0] in (1, 3) and dims[1] > 0
                    st = blank(I); x = sig(st, 'x', dims, kind, cont)
                    k.static(cls, 'transform', f'{cls} of {fmt(dims)} ( {cont} )', None if good else VE, st=st, x=x, neutral=c(neutral))
    for cls in ('FourierTransform', 'PsdTransform'):
        low = 1 if cls == 'FourierTransform' else 2
        for cont in ('arr', 'list'):
            for kind in 'fc':
                for extra in ((dict(inverse=c(False)), dict(inverse=c(True))) if low == 1 else (dict(index=c(1)), dict(index=c(3), spectrogram=c(True)))):
                    if not ctx.mine(): continue
                    for b in range(0, 6):
                        for n in range(0, 9):
                            st = blank(I); x = sig(st, 'x', (n,), kind, cont); w = vec(st, 'b', [('c', 1.0)] * b, 'f', cont)
                            good = n >= b >= low
                            if b == 1 and low == 2 and n: continue
                            k.static(cls, 'transform', f'{cls} of {n} samples with a window of {b} ( {cont} )', None if good else VE, st=st, x=x, b=w, **extra)
                    for n in (1, 2, 4, 7):
                        st = blank(I); x = sig(st, 'x', (8,), kind, cont); w = vec(st, 'b', [('c', 0.0)] * n, 'f', cont)
                        k.static(cls, 'transform', f'{cls} with a window of {n} zeros ( {cont} )', VE, st=st, x=x, b=w, **extra)
                        for i in range(n):
                            if n == 1 and low == 2: continue
                            st = blank(I); x = sig(st, 'x', (8,), kind, cont); w = vec(st, 'b', [('c', -0.5 if j == i else 0.0) for j in range(n)], 'f', cont)
                            k.static(cls, 'transform', f'{cls} with a window of {n} values, one of them not zero ( {cont} )', None, st=st, x=x, b=w, **extra)
                    for n in ctx.limits(9, 200000, cls):
                        if cont == 'list': continue
                        st = blank(I); x = sig(st, 'x', (n,), kind); w = vec(st, 'b', [('c', 1.0)] * 4, 'f')
                        k.static(cls, 'transform', f'{cls} of {n} samples with a window of 4', None, st=st, x=x, b=w, **extra)
    cls = 'ZTransform'
    for cont in ('arr', 'list'):
        for bil in (True, False):
            for n in (0, 1, 2, 3):
                if not ctx.mine(): continue
                for u, v in (([0.0] * n, [1.0]), ([1.0, 2.0], [0.0] * n)):
                    st = blank(I)
                    k.static(cls, 'transform', f'{cls} of {u}, {v} ( {cont} )', VE, st=st, u=vec(st, 'u', [('c', q) for q in u], 'f', cont), v=vec(st, 'v', [('c', q) for q in v], 'f', cont), frequency=c(0.1), bilinear=c(bil))
            for u, v in (([1.0, 2.0], [1.0]), ([0.0, 1.0, 2.0], [0.5]), ([1.0, 0.0, 2.0], [0.0, 1.0]), ([1.0, 0.5, 2.0], [0.0, 0.0, 1.0]), ([2.0], [3.0]), ([1.0, 2.0], [1e-9]), ([1.0, 2.0], [1e-30]), ([1e-12, 2e-12], [1.0]), ([1e-30, 1e-30], [-1e-30]), ([1e12, 2e12], [1e12]), ([-1.0, -2.0], [-1.0])):
                st = blank(I)
                k.static(cls, 'transform', f'{cls} of {u}, {v} ( {cont} )', None if bil or len(u) > 1 else VE, st=st, u=vec(st, 'u', [('c', q) for q in u], 'f', cont), v=vec(st, 'v', [('c', q) for q in v], 'f', cont), frequency=c(0.1), bilinear=c(bil))
    cls = 'WaveletTransform'
    for style, order in (('Haar', 1), ('Daubechies', 3), ('Coiflet', 5)):
        for cont in ('arr', 'list'):
            for count in (1, 2, 3):
                for inv in (False, True):
                    if not ctx.mine(): continue
                    lab0 = f'{cls}( {style}, {order} )'
                    st = blank(I); r = k.make(cls, lab0, st=st, style=c(style), order=c(order))
                    if r is None: continue
                    q = 2 ** count
                    ones = range(0, 2 * q + 2) if order < 5 or deep else (0, 1, 2, q - 1, q, q + 2)
                    ones = sorted({*ones})
                    shapes = [(n,) for n in ones] + [(1, 0), (2, 0), (0, 2), (0, 0), (q, 0), (1, 1, 1), (2, 2, 2), (q, q, q)]
                    if order < 3 or deep: shapes += [(a, b) for a in (1, 2, 3, q, q + 1) for b in (1, 2, 3, q, q + 1)]
                    else: shapes += [(q, 1), (q + 1, q), (q, q + 1), (1, q), (1, q + 1)]
                    if count == 1 and order == 1: shapes += [(n,) for n in ctx.limits(2 * q + 2, 60, cls)]
                    for dims in sorted(set(shapes)):
                        if cont == 'list' and (len(dims) > 2 or not dims[0] and len(dims) > 1): continue
                        rc = (1, *dims)[-2:]
                        good = len(dims) < 3 and all(dims) and all(d == 1 or d % q == 0 for d in rc)
                        s2 = r[1].copy(); x = sig(s2, 'x', dims, 'f', cont)
                        k.call(r[0], s2, cls, 'transform', [x], f'{lab0} of {fmt(dims)}, {count} stages ( {cont} )', None if good else VE, count=c(count), inverse=c(inv))

DATA = [1., 2., 3., 5., 2., 1., -1., 0., .5, .25, 4., 1., 2.5, -1., 0., -2., 3.5, .75, -.5, 1.25, 2.25, -1.5, 1.75, .125]
def table(st, name, dims, kind='f'):
    n = 1
    for d in dims: n *= d
    return vec(st, name, [('c', DATA[i % len(DATA)]) for i in range(n)], kind).r(shape=tuple(Dim(d) for d in dims))
def lab(n, kind='i'): return [(0, 1)[i % 2] for i in range(n)]
def models(ctx, k, deep):
    I = ctx.I; VE = 'ValueError'
    for cls, kws in (('GaussianModel', dict(regularize=c(0.5))), ('GaussianMixtureModel', dict(order=c(1), index=c(10), regularize=c(0.5)))):
        def fresh():
            st = blank(I); return k.make(cls, cls, st=st, **kws)
        def fit(o, st, dims, n, what, want=None, kind='i', op='k1'):
            x = table(st, 'x', dims)
            y = labels(st, lab(n)) if n else vec(st, 'y', [], 'i')
            if kind != 'i': y = vec(st, 'y', [('c', q) for q in map(float, lab(n))], 'f')
            return k.call(o, st, cls, 'fit', [], f'{cls}.fit of {what}', want, op=op, x=x, y=y)
        for dims, n in [((r, q), r) for r in (4, 6, 8) for q in (1, 2, 3)]:
            if not ctx.mine(): continue
            r = fresh()
            if r: fit(r[0], r[1], dims, n, f'{dims[0]} samples of {dims[1]} features')
        for dims, n in [((4, 2), m) for m in (0, 1, 3, 5, 8)] + [((0, 2), 0), ((4, 0), 4), ((0, 0), 0), ((4,), 4), ((4, 2, 1), 4), ((2, 2, 2), 2), ((0,), 0)]:
            if not ctx.mine(): continue
            for trained in (False, True):
                r = fresh()
                if r and trained: r2 = fit(r[0], r[1], (4, 2), 4, '4 samples of 2 features'); r = r2 and (r[0], r2[1])
                if r: fit(r[0], r[1], dims, n, f'data of {fmt(dims)} with {n} labels', VE, op='k2')
        if ctx.mine():
            r = fresh()
            if r: fit(r[0], r[1], (4, 2), 4, 'labels which are not integers', 'TypeError', kind='f')
        for dims in ((1, 2), (3, 1), (2, 2)):
            if not ctx.mine(): continue
            r = fresh()
            if r: k.call(r[0], r[1], cls, 'predict', [], f'{cls}.predict before training', VE, x=table(r[1], 'z', dims))
        for q in (1, 2, 3):
            for z in [(1, q), (2, q), (4, q), (7, q), (1, q + 1), (4, q + 1), (2, q + 2), (3, q - 1), (q,), (q + 1,), (0, q), (1, q, 1), (2, 0), (q, q, q), (0,)]:
                if not ctx.mine(): continue
                r = fresh()
                if r is None: continue
                o = r[0]; r = fit(o, r[1], (6, q), 6, f'6 samples of {q} features')
                if r is None: continue
                good = len(z) == 2 and z[0] > 0 and z[1] == q
                k.call(o, r[1], cls, 'predict', [], f'{cls}.predict of {fmt(z)} after training with {q} features', None if good else VE, op='k2', x=table(r[1], 'z', z))
    cls = 'DiversityModel'
    for style in ('Chebyshev', 'Euclidean', 'Geometric', 'Manhattan'):
        for order in (0, 1, 2, 4):
            for cont in ('arr', 'list'):
                if not ctx.mine(): continue
                lab0 = f'{cls}( {style}, {order} )'
                for dims in ((1, 1), (1, 2), (2, 3), (4, 2), (6, 1), (0, 2), (2, 0), (0, 0), (4,), (1,), (0,), (1, 2, 1), (2, 2, 2)):
                    if cont == 'list' and (len(dims) > 2 or len(dims) == 2 and not dims[0]): continue
                    good = len(dims) == 2 and all(dims)
                    for kind in 'fc':
                        st = blank(I); r = k.make(cls, lab0, st=st, style=c(style), order=c(order))
                        if r is None: continue
                        if dims[0] > 4 and order > 1: continue  # many paths
                        o, s2 = r; x = sig(s2, 'x', dims, kind, cont)
                        ok = good and kind == 'f'
                        r = k.call(o, s2, cls, 'fit', [x], f'{lab0}, fit of {"complex " if kind == "c" else ""}{fmt(dims)} ( {cont} )', None if ok else VE)
                        if r is None or cont == 'list' or dims[0] > 4: continue
                        for d2 in ((dims[0], dims[1]), (1, dims[1]), (1, dims[1] + 1), (3, dims[1] + 2), (2, dims[1] - 1), (dims[1],)):
                            good = len(d2) == 2 and d2[1] == dims[1]
                            if good and d2[0] > 2: continue
                            s3 = r[1].copy(); x = sig(s3, 'z', d2, 'f')
                            k.call(o, s3, cls, 'fit', [x], f'{lab0} of {dims[1]} features, fit of {fmt(d2)}', None if good else VE, op='k2')
