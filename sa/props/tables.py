"""C14, C17, C18: coefficient tables, reversible transforms, advertised options."""
import math, cmath
from ..core import *
from .. import interp as ip
from .. import poly
from ..dom import vjoin
DERIVATIVE = {1: (1, 2, 4), 2: (2, 4, 6, 8), 3: (4, 6, 8)}
INTEGRAL = (0, 1, 2, 3, 4)
WAVE = {'Coiflet': (5, 11, 17, 23, 29), 'Daubechies': tuple(range(3, 20, 2)), 'Haar': (1,), 'Symmlet': tuple(range(7, 20, 2))}
TOL = 1e-7
def consts_of(ctx, st, v):
    """List of numbers of an array of constants, or None."""
    if v.k not in ('arr', 'list', 'tuple'): return None
    its = ctx.I.vitems(st, v) if v.k == 'arr' else ctx.I.items(st, v)
    if its is None or not all(x.k in ('num', 'bool') and x.c is not ip.NOC for x in its): return None
    return [x.c for x in its]
def get(ctx, o, name, st):
    r = ctx.guard('analysis', f'{name}', lambda: ctx.D.get(o, name, st))
    return r.results[0] if r and len(r.results) == 1 else (None, None)
def make(ctx, cls, lab, **kw):
    return ctx.guard('analysis', lab, lambda: ctx.D.construct(cls, kw={k: vconst(v) for k, v in kw.items()}, st=blank(ctx.I)))
def conv(a, b):
    r = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] += x * y
    return r
def c14(ctx):
    R, I = ctx.R, ctx.I
    f, n = ctx.site('DerivativeFilter', '__init__')
    def kernel(cls, lab, kw):
        r = make(ctx, cls, lab, **kw)
        if r is None: return None
        f, n = ctx.site(cls, '__init__')
        if not r.results: R.bad('advertised', lab, f'{lab} is advertised but there is no such kernel: {sorted({str(excname(o)) for o in r.raises})}', f, n, key=f'missing|{lab}'); return None
        if len(r.results) > 1: R.undecided('kernel', lab, 'construction not decided'); return None
        R.ok('advertised', lab)
        return r.results[0]
    for d, os_ in DERIVATIVE.items():
        for o in os_:
            lab = f'DerivativeFilter( {d}, {o} )'
            q = kernel('DerivativeFilter', lab, dict(derivative=d, order=o))
            if q is None: continue
            v, st = get(ctx, *q[:1], 'b', q[1])
            b = consts_of(ctx, st, v) if v is not None else None
            if b is None: R.undecided('kernel', lab, 'kernel is not constant'); continue
            f, n = ctx.site('DerivativeFilter', '__init__')
            for k in range(d + 1):
                m = sum(x * (-i) ** k for i, x in enumerate(b)); want = math.factorial(d) if k == d else 0.0
                if abs(m - want) <= TOL: R.ok('derivative-moment', f'{lab} moment {k}')
                else: R.bad('derivative-moment', lab, f'the kernel of {lab} maps the monomial of degree {k} to {m:.9g}, not {want:g}', f, n, key=f'moment|{d}|{o}|{k}')
    for o in INTEGRAL:
        lab = f'IntegralFilter( {o} )'
        q = kernel('IntegralFilter', lab, dict(order=o))
        if q is None: continue
        f, n = ctx.site('IntegralFilter', '__init__')
        v, st = get(ctx, q[0], 'b', q[1]); a, st2 = get(ctx, q[0], 'a', q[1])
        b = consts_of(ctx, st, v) if v is not None else None; a = consts_of(ctx, st2, a) if a is not None else None
        if b is None: R.undecided('kernel', lab, 'kernel is not constant'); continue
        while len(b) > 1 and b[-1] == 0.0: b = b[:-1]
        if abs(sum(b) - 1.0) <= TOL: R.ok('integral-gain', lab)
        else: R.bad('integral-gain', lab, f'the kernel of {lab} has gain {sum(b):.9g}, not one', f, n, key=f'gain|{o}')
        if all(abs(x - y) <= TOL for x, y in zip(b, reversed(b))): R.ok('integral-symmetry', lab)
        else: R.bad('integral-symmetry', lab, f'the kernel of {lab} is not symmetric', f, n, key=f'symmetry|{o}')
        if a is not None:
            z = list(a)
            while len(z) > 1 and z[-1] == 0.0: z = z[:-1]
            if len(z) == 2 and abs(z[0]) <= TOL and abs(z[1] - 1.0) <= TOL: R.ok('integral-recursion', lab)
            else: R.bad('integral-recursion', lab, f'{lab} does not accumulate: recursive coefficients {z}', f, n, key=f'recursion|{o}')
    f, n = ctx.site('WaveletTransform', '__init__')
    for s, os_ in WAVE.items():
        for o in os_:
            lab = f'WaveletTransform( {s}, {o} )'
            q = kernel('WaveletTransform', lab, dict(style=s, order=o))
            if q is None: continue
            v, st = get(ctx, q[0], 'b', q[1])
            bank = None
            if v is not None and (its := I.items(st, v)) is not None and len(its) == 2:
                bank = [[consts_of(ctx, st, x) for x in (I.items(st, y) or ())] if y.k in ('tuple', 'list') else None for y in its]
            if not bank or any(y is None or len(y) != 2 for y in bank) or bank[0][0] is None: R.undecided('kernel', lab, 'kernel is not constant'); continue
            h = bank[0][0]
            if len(h) == o + 1: R.ok('wavelet-length', lab)
            else: R.bad('wavelet-length', lab, f'the kernel of {lab} has {len(h)} coefficients, not {o + 1}', f, n, key=f'length|{s}|{o}')
            e = math.sqrt(sum(x * x for x in h))
            if not e: R.bad('wavelet-zero', lab, f'the kernel of {lab} is zero', f, n, key=f'zero|{s}|{o}'); continue
            u = [x / e for x in h]
            for k in range(1, len(u) // 2 + 1):
                m = sum(x * y for x, y in zip(u, u[2 * k:]))
                if abs(m) <= TOL: R.ok('wavelet-orthogonal', f'{lab} shift {2 * k}')
                else: R.bad('wavelet-orthogonal', lab, f'the kernel of {lab} is not orthogonal to its shift by {2 * k}: {m:.3g}', f, n, key=f'orthogonal|{s}|{o}')
            if abs(sum(u) - math.sqrt(2.0)) <= TOL: R.ok('wavelet-sum', lab)
            else: R.bad('wavelet-sum', lab, f'the normalised kernel of {lab} sums to {sum(u):.9g}, not the square root of two', f, n, key=f'sum|{s}|{o}')
            if any(x is None for y in bank for x in y): R.undecided('wavelet-bank', lab, 'bank is not constant'); continue
            (h0, h1), (g0, g1) = bank
            if len({len(x) for x in (h0, h1, g0, g1)}) != 1: R.bad('wavelet-bank', lab, f'the kernels of {lab} differ in length', f, n, key=f'bank|{s}|{o}'); continue
            alt = lambda c: [x * (-1) ** i for i, x in enumerate(c)]
            t = [x + y for x, y in zip(conv(h0, g0), conv(h1, g1))]; z = [x + y for x, y in zip(conv(alt(h0), g0), conv(alt(h1), g1))]
            p = max(range(len(t)), key=lambda i: abs(t[i]))
            if max(abs(x) for x in z) <= TOL and abs(t[p] - 1.0) <= TOL and all(abs(x) <= TOL for i, x in enumerate(t) if i != p): R.ok('wavelet-bank', lab)
            else: R.bad('wavelet-bank', lab, f'analysis and synthesis kernels of {lab} do not cancel: the bank reconstructs with gain {t[p]:.9g} and error {max([abs(x) for x in z] + [abs(x) for i, x in enumerate(t) if i != p]):.3g}', f, n, key=f'bank|{s}|{o}')
    # three-phase matrix and gain
    f, n = ctx.site('ComplexTransform', 'transform')
    r3 = math.sqrt(3.0)
    for neutral in (True, False):
        g = 1.0 if neutral else cmath.exp(-1j * math.pi / 6.0) / r3
        want = [[g * 2 / 3], [g * (-1 / 3 + 1j / r3)], [g * (-1 / 3 - 1j / r3)]]
        lab = f'three-phase, neutral {neutral}'
        m = linear(ctx, 3, neutral, lab)
        if m is None: R.undecided('clarke', lab, 'transform is not in closed form'); continue
        if any(len(c) != 1 for c in m): R.bad('clarke', lab, 'three-phase signals are not transformed to one complex signal', f, n, key='clarke-shape'); continue
        e = max(abs(c[0] - w[0]) for c, w in zip(m, want))
        if e <= TOL: R.ok('clarke', lab)
        else: R.bad('clarke', lab, f'the three-phase transform ({"neutral" if neutral else "line"} reference) is not the amplitude-invariant Clarke transform: maps the phases to {[complex(round(complex(c[0]).real, 6), round(complex(c[0]).imag, 6)) for c in m]}', f, n, key=f'clarke|{neutral}')

# ------------------------------------------------------------------ the three-phase transform as a linear map
def entries(st, label, R_, N, dt):
    its = tuple(V('num', dt=KD(dt), deps=frozenset([f'arg:{label}']), lin='L', mv=frozenset([label]), t=('elt', label, i)) for i in range(R_ * N))
    e = its[0]
    for q in its[1:]: e = vjoin(e, q)
    st.heap['arg:' + label] = Cell('arr', elem=e, items=its)
    return V('arr', dt=KD(dt), shape=(Dim(R_), Dim(N)) if R_ > 1 else (Dim(N),), locs=frozenset(['arg:' + label]))
def out_terms(ctx, v, st):
    if v.k != 'arr' or v.shape is None: return None
    its = ctx.I.vitems(st, v)
    if its is None or any(q.t is None for q in its): return None
    return [q.t for q in its]
def point(ts, env):
    try: return [complex(poly.evaluate(t, env)) for t in ts]
    except poly.NoForm: return None
def apply(ctx, v, st, neutral, op='k1', lab=''):
    return ctx.guard('analysis', f'ComplexTransform {lab}', lambda: ctx.D.static('ComplexTransform', 'transform', [], dict(x=v, neutral=vconst(neutral)), st, op=op))
def linear(ctx, rows_, neutral, lab):
    """Images of the unit vectors, after a check that the terms are real-linear; None if not in closed form."""
    st = blank(ctx.I)
    x = entries(st, 'x', rows_, 1, 'f' if rows_ == 3 else 'c')
    r = apply(ctx, x, st, neutral, lab=lab)
    if r is None or len(r.results) != 1: return None
    ts = out_terms(ctx, *r.results[0])
    if ts is None: return None
    out = []
    for i in range(rows_):
        y = point(ts, {('elt', 'x', j): 1.0 if j == i else 0.0 for j in range(rows_)})
        if y is None: return None
        out.append(y)
    return out

# ------------------------------------------------------------------ C17
def signal(st, label, rows_, N, dt, forms, two=False, tag='arg'):
    """Array argument whose elements are the given canonical terms."""
    its = tuple(V('num', dt=KD(dt), deps=frozenset([f'arg:{label}']), lin='L', mv=frozenset([label]), t=t, **(dict(c=t[1]) if CONC is not None and t[0] == 'c' else {})) for t in forms)
    e = its[0]
    for q in its[1:]: e = vjoin(e, q)
    st.heap[f'{tag}:{label}'] = Cell('arr', elem=e, items=its)
    return V('arr', dt=KD(dt), shape=(Dim(rows_), Dim(N)) if rows_ > 1 or two else (Dim(N),), locs=frozenset([f'{tag}:{label}']))
CONC = None  # given samples instead of formal ones: where the source decides by the values of samples
SCALE = (1.0, 1e-13, 2e7, 1.0, 1.0, 1.0)
def given(n, i):
    """A sample of a given signal, or a coefficient."""
    h = sum(map(ord, n)) % 13; u = math.sin(2.1 * i + 1.7 * h + 0.4)
    if n[0] not in 'xsrzq': return ('c', 0.3 + u * u)
    if CONC == 0: return ('c', (0.0, 0.0, 1.5, 0.0, -2.25, 0.75, 0.0, 0.0, 0.0, 3.0)[(i + h) % 10])
    if CONC == 1: return ('c', 1e-13 * (1.0 + u))
    if CONC == 2: return ('c', 2e7 * (1.0 + 0.25 * u))
    if CONC == 3: return ('c', 0.0 if n[0] != 'x' else 1.0)
    if CONC == 4: return ('c', -1.25 - u)
    return ('c', 0.0)
def leaf(n, i): poly.REAL.add(n); return ('elt', n, i) if CONC is None else given(n, i)
def lt(**kw):
    """Term of a linear combination: name_index=coefficient."""
    return poly.rebuild({((('elt', k.split('_')[0], int(k.split('_')[1])), 1),): c for k, c in kw.items()})
def same(ctx, st, v, forms, tol=1e-7):
    """True / False / None: whether the elements of v are the given forms."""
    its = ctx.I.vitems(st, v) if v.k == 'arr' else None
    if its is None: return None
    if len(its) != len(forms): return False
    res = True
    if CONC is not None:
        try: a, b = ([complex(poly.evaluate(t, {})) for t in ts] for ts in ([q.t if q.t is not None else ('c', q.c) for q in its], forms))
        except (poly.NoForm, TypeError, KeyError, ValueError, OverflowError, ZeroDivisionError): return None
        m = 1e-7 * max(map(abs, b), default=0.0) + 1e-11 * SCALE[CONC] + 1e-14
        return all(abs(x - y) <= m for x, y in zip(a, b)) if all(x == x for x in a + b) else None
    for q, w in zip(its, forms):
        if q.t is None: return None
        try:
            p, r = poly.norm(q.t), poly.norm(w)
        except poly.NoForm: return None
        s = max([abs(c) for c in r.values()] + [1e-30])
        if any(abs(p.get(m, 0) - r.get(m, 0)) > max(tol * s, 1e-12) for m in set(p) | set(r)):
            if any(not (isinstance(a, tuple) and a[0] == 'elt') for a in poly.atoms(p)): return None
            res = False
    return res
def c17(ctx):
    R, I = ctx.R, ctx.I
    poly.REAL.clear()
    f, n = ctx.site('FourierTransform', 'transform')
    top = 8 if ctx.tier == 'quick' else 12
    more = ctx.limits(top, 66, 'FourierTransform'); ctx.room(max(more, default=0) + 2)
    for N in sorted({*range(1, top + 1), *more}):
        for wn, w in (('rectangular', [1.0] * N), ('uneven', [0.5 + ((i * 7 + 3) % 11) / 7.0 for i in range(N)]), ('tapered', [0.54 - 0.46 * math.cos(2.0 * math.pi * i / max(N - 1, 1)) for i in range(N)]), *((f'narrow (ends {c:g})', [c if i in (0, N - 1) else 0.5 for i in range(N)]) for c in (1e-2, 1e-4, 1e-6))):
            if N > top and wn != 'rectangular' and wn != 'uneven' or wn[0] == 'n' and N not in (1, 2, 5): continue
            for kind in 'fc':
                for cont in (0, 2):
                    if cont and (kind == 'c' or N > 4): continue
                    lab = f'{N} {"real" if kind == "f" else "complex"} samples{" of " + str(N + cont) if cont else ""}, {wn} window'
                    if not ctx.mine(): continue
                    st = blank(I)
                    forms = [leaf('x', i) if kind == 'f' else poly.rebuild({((leaf('x', i), 1),): 1.0, ((leaf('y', i), 1),): 1j}) for i in range(N + cont)]
                    x = signal(st, 'x', 1, N + cont, kind, forms)
                    st.heap['arg:b'] = Cell('arr', elem=vconst(w[0]) if len(set(w)) == 1 else V('num', dt=KD('f'), deps=frozenset(['arg:b']), lin='K'), items=tuple(vconst(c) for c in w))
                    b = V('arr', dt=KD('f'), shape=(Dim(N),), locs=frozenset(['arg:b']))
                    tr = lambda v, s, inv, op: ctx.guard('analysis', 'FourierTransform', lambda: ctx.D.static('FourierTransform', 'transform', [], dict(x=v, b=b, inverse=vconst(inv)), s, op=op))
                    r = tr(x, st, False, 'k1')
                    if r is None: continue
                    if not r.results: R.bad('fourier-accepted', lab, f'the forward transform of {lab} is rejected', f, n, key='fourier-rejected'); continue
                    for v, s in r.results:
                        q = v.c[0] if v.k == 'tuple' and isinstance(v.c, tuple) and v.c else None
                        if q is None: R.undecided('fourier-inverse', lab, 'result is not a pair'); continue
                        r2 = tr(q, s, True, 'k2')
                        if r2 is None: continue
                        if not r2.results: R.bad('fourier-accepted', lab, f'the inverse transform of {lab} is rejected', f, n, key='fourier-inverse-rejected'); continue
                        for v2, s2 in r2.results:
                            q2 = v2.c[0] if v2.k == 'tuple' and isinstance(v2.c, tuple) and v2.c else None
                            e = same(ctx, s2, q2, forms[:N]) if q2 is not None else None
                            if e: R.ok('fourier-inverse', lab)
                            elif e is None: R.undecided('fourier-inverse', lab, 'inverse is not in closed form')
                            elif len(r.results) > 1 or len(r2.results) > 1: R.undecided('fourier-inverse', lab, 'path not decided')
                            else: R.bad('fourier-inverse', lab, f'the inverse transform of the forward transform of {lab} is not the signal: sample {bad(ctx, s2, q2, forms)}', f, n, key=f'fourier-inverse|{"odd" if N % 2 else "even"}')
    f, n = ctx.site('ComplexTransform', 'transform')
    h = math.sqrt(3.0) / 2.0; wide = ctx.limits(5, 66, 'ComplexTransform'); ctx.room(3 * max(wide, default=0))
    for neutral in (True, False):
        for rows_, N, two, kind in [(1, 1, False, 'c'), (1, 2, False, 'c'), (1, 3, False, 'c'), (1, 4, False, 'c'), (1, 2, True, 'c'), (1, 3, True, 'c'), (1, 2, False, 'f'), (3, 1, True, 'f'), (3, 2, True, 'f'), (3, 3, True, 'f'), (3, 4, True, 'f')] + [(1, q, False, 'c') for q in wide] + [(3, q, True, 'f') for q in wide]:
            if not ctx.mine(): continue
            lab = f'{"three-phase" if rows_ == 3 else "complex" if kind == "c" else "real"} signal of {N} samples{" as one row" if two and rows_ == 1 else ""}, {"neutral" if neutral else "line"} reference'
            a = [leaf('x', i) for i in range(N)]; b = [leaf('y', i) for i in range(N)]
            L = lambda i, p, q: poly.rebuild({k: c for k, c in {((a[i], 1),): p, ((b[i], 1),): q}.items() if c})
            if rows_ == 1: forms = [L(i, 1.0, 1j) if kind == 'c' else a[i] for i in range(N)]
            else: forms = [L(i, 1.0, 0) for i in range(N)] + [L(i, -0.5, h) for i in range(N)] + [L(i, -0.5, -h) for i in range(N)]
            st = blank(I); x = signal(st, 'x', rows_, N, kind, forms, two)
            r = apply(ctx, x, st, neutral, 'k1', lab)
            if r is None: continue
            if not r.results: R.bad('three-phase-accepted', lab, f'a {lab} is rejected', f, n, key='three-phase-rejected'); continue
            for v, s in r.results:
                r2 = apply(ctx, v, s, neutral, 'k2', lab)
                if r2 is None: continue
                if not r2.results: R.bad('three-phase-accepted', lab, f'the result for a {lab} is rejected', f, n, key='three-phase-rejected2'); continue
                for v2, s2 in r2.results:
                    e = same(ctx, s2, v2, forms)
                    if e: R.ok('three-phase-inverse', lab)
                    elif e is None: R.undecided('three-phase-inverse', lab, 'not in closed form')
                    elif len(r.results) > 1 or len(r2.results) > 1: R.undecided('three-phase-inverse', lab, 'path not decided')
                    else: R.bad('three-phase-inverse', lab, f'transforming a {lab} twice does not give it back: sample {bad(ctx, s2, v2, forms)}', f, n, key=f'three-phase-inverse|{rows_}|{neutral}')
def bad(ctx, st, v, forms):
    its = ctx.I.vitems(st, v)
    if len(its) != len(forms): return f'count {len(its)}'
    for i, (q, w) in enumerate(zip(its, forms)):
        p, r = poly.norm(q.t), poly.norm(w)
        if any(abs(p.get(m, 0) - r.get(m, 0)) > 1e-7 for m in set(p) | set(r)): return f'{i} becomes {poly.show({m: c for m, c in p.items() if abs(c) > 1e-9})}'
    return '?'
