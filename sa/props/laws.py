"""C15, C21, C23: linearity, result lengths, power spectral density."""
import math
from ..core import *
from . import tables
from .. import poly
from .. import interp as ip
from .tables import leaf, signal, same, bad as differs, DERIVATIVE, INTEGRAL
from .lines import forms, vec, add, sub, mul, num, build, only, C0
LINEAR = {'FirFilter', 'IirFilter', 'DerivativeFilter', 'IntegralFilter', 'GoertzelFilter', 'WindowFilter', 'PolynomialRateFilter', 'PolyphaseRateFilter', 'FourierTransform', 'ComplexTransform', 'WaveletTransform'}
def results(v):
    """The values an operation returns; of a pair, the second is the axis."""
    return v.c[:1] if v.k == 'tuple' and isinstance(v.c, tuple) and v.c else (v,)

# ------------------------------------------------------------------ C15
def degrees(ctx, st, v):
    """Linearity verdicts of the elements of a result."""
    I = ctx.I
    if v.k in ('num', 'bool'): return {v.lin}
    if v.shape and any(q is not None and q.const == 0 for q in v.shape): return {'Z'}
    out = set()
    for l in v.locs:
        c = I.cell(st, l)
        if c is None: out.add('U'); continue
        its = I.vitems(st, v) if v.k == 'arr' else I.items(st, v)
        if its is not None and all(isinstance(q, V) and q.k in ('num', 'bool') for q in its): out |= {q.lin for q in its}
        elif c.elem is not None: out.add(c.elem.lin)
        else: out.add('U')
    return out or {'U'}
def c15(ctx):
    poly.REAL.clear()
    R, I = ctx.R, ctx.I
    modes = [BASE.r(siglin='L', statelin='L', sig=k, cont=c) for k, c in (('f', 'arr'), ('c', 'arr'), ('f', 'list'))]
    for x in ctx.walk(modes, pairs='same', classes=LINEAR, designs=False):
        if x.phase != 'op' or x.op not in ('filter', 'transform'): continue
        site = ctx.site(x.cls, x.op)
        for v, s in x.step.results:
            for i, w in enumerate(results(v)):
                d = degrees(ctx, s, w)
                if d <= {'L', 'Z'}: R.ok('linear', x.label)
                elif any(q == 'N' or isinstance(q, tuple) for q in d) and not branched(ctx, x): R.bad('linear', x.label, f'{x.cls}.{x.op}: the result is not linear in the signal', *site, key=f'linear|{x.cls}|{x.op}')
                elif 'K' in d and d <= {'K', 'L', 'Z'}: R.undecided('linear', x.label, 'result does not depend on the signal')
                else: R.undecided('linear', x.label, 'path chosen by signal values' if branched(ctx, x) else 'degree not known')
    exact15(ctx)
def branched(ctx, x):
    return any(e.kind == 'branch' and e.truth is None and e.cond.lin not in ('K', 'Z') for e in x.events)
def lform(ctx, cls, lab, st, v, xs, kind, site, op, exempt=False):
    """Every element of the result is a form of degree one in the signal ( and complex-linear )."""
    R, I = ctx.R, ctx.I
    if v.k == 'num' and v.shape is None: its = [v]
    else: its = I.vitems(st, v) if v.k == 'arr' else None
    if its is None: R.undecided('form', lab, f'not known element by element'); return
    for q in its:
        if q.t is None: R.undecided('form', lab, 'not in closed form'); return
        try: p = poly.norm(q.t)
        except poly.NoForm: p = None
        if p is None or not all(isinstance(a, tuple) and a[0] == 'elt' for m, c in p.items() if abs(c) > 1e-12 for a, _ in m):
            if any(w.t is None for w in its): R.undecided('form', lab, 'not in closed form')
            else: scales(ctx, cls, lab, [(tuple(st.path or ()), [w.t for w in its])], xs, op)
            return
        p = {m: c for m, c in p.items() if abs(c) > 1e-12}
        for m, c in p.items():
            n = sum(e for a, e in m if a[1] in ('x', "x'"))
            if n != 1 or any(e < 0 for a, e in m if a[1] in ('x', "x'")):
                R.bad('form', lab, f'{lab}: the result {poly.show(p)} is not linear in the signal', *site, key=f'form|{cls}|{op}'); return
        if kind == 'c' and not exempt:
            for m in p:
                a = next(a for a, e in m if a[1] in ('x', "x'"))
                o = ('elt', 'x' if a[1] == "x'" else "x'", a[2])
                w = tuple(sorted(((o if z == a else z, e) for z, e in m), key=repr))
                if a[1] == 'x': good = abs(p.get(w, 0) - 1j * p[m]) <= 1e-9 * abs(p[m])
                else: good = abs(p[m] - 1j * p.get(w, 0)) <= 1e-9 * abs(p[m])
                if not good: R.bad('complex-linear', lab, f'{lab}: the result {poly.show(p)} is not linear in the complex signal: real and imaginary parts are treated differently', *site, key=f'complex|{cls}|{op}'); return
        R.ok('form', lab)
def exact15(ctx):
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    def filt(cls, lab, st, kw, kind, n, bank=False):
        if bank and smallbank(ctx, st) is None: ctx.R.undecided('form', lab, 'size of the bank not known'); return
        r = build(ctx, cls, lab, st, **kw)
        if r is None: return
        o, st = r
        xs = forms('x', n, kind)
        q = ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'filter', [vec(st, 'x', xs, kind)], {}, st, op='k1'))
        outcome(ctx, cls, lab, q, xs, kind, 'filter')
    for kind in 'fc':
        K = 'complex' if kind == 'c' else 'real'
        for n in range(1, 4):
            for ck in 'fc':
                if not ctx.mine(): continue
                st = blank(I); filt('FirFilter', f'FirFilter of {n} {"complex" if ck == "c" else "real"} coefficients, {K} signal', st, dict(b=vec(st, 'b', forms('b', n, ck), ck)), kind, 3)
                st = blank(I); filt('IirFilter', f'IirFilter of {n} coefficients, {K} signal', st, dict(a=vec(st, 'a', ([C0] + forms('a', n, ck)[1:]), ck), b=vec(st, 'b', forms('b', n, 'f'))), kind, 2)
        for cls, args in [('DerivativeFilter', dict(derivative=d, order=q)) for d in DERIVATIVE for q in DERIVATIVE[d]] + [('IntegralFilter', dict(order=q)) for q in INTEGRAL]:
            if not ctx.mine(): continue
            filt(cls, f'{cls}( {", ".join(map(str, args.values()))} ), {K} signal', blank(I), {k: vconst(v) for k, v in args.items()}, kind, 4)
        for style in FIRSTYLE:
            for order in (0, 1, 2, 3, 4):
                for normal in (True, False):
                    if (style, order, normal) == ('Hann', 1, True) or not ctx.mine(): continue  # no sample inside the window
                    filt('WindowFilter', f'WindowFilter( {style}, {order}, {normal} ), {K} signal', blank(I), dict(style=vconst(style), order=vconst(order), normal=vconst(normal)), kind, order + 1)
        for f in (-1.0, -0.5, 0.0, 0.25, 0.5, 1.0):
            for n in (1, 2, 3, 4):
                if not ctx.mine(): continue
                st = blank(I); filt('GoertzelFilter', f'GoertzelFilter of {n} at {f}, {K} signal', st, dict(b=vec(st, 'b', [('c', 0.5 + 0.25 * i) for i in range(n)]), frequency=vconst(f)), kind, 2 * n)
        for order in (1, 2, 3):
            for rate in (0.5, 0.75, 1.0, 1.5, 2.0):
                for n in (2, 3, 5):
                    if not ctx.mine(): continue
                    filt('PolynomialRateFilter', f'PolynomialRateFilter( {rate}, {order} ), {n} {K} samples', blank(I), dict(rate=vconst(rate), order=vconst(order)), kind, n)
        for rate in (0.0, 0.5, 1.0, 1.5, 2.0, 3.0):
            if not ctx.mine(): continue
            filt('PolyphaseRateFilter', f'PolyphaseRateFilter( {rate} ), {K} signal', blank(I), dict(rate=vconst(rate)), kind, 4, True)
        for N in range(1, 7):
            for inverse in (False, True):
                if not ctx.mine(): continue
                st = blank(I); lab = f'FourierTransform of {N} {K} samples{", inverse" if inverse else ""}'
                w = [0.5 + ((i * 7 + 3) % 11) / 7.0 for i in range(N)]; xs = forms('x', N, kind)
                r = ctx.guard('analysis', lab, lambda: ctx.D.static('FourierTransform', 'transform', [], dict(x=vec(st, 'x', xs, kind), b=vec(st, 'b', [('c', c) for c in w]), inverse=vconst(inverse)), st, op='k1'))
                outcome(ctx, 'FourierTransform', lab, r, xs, kind, 'transform')
        for style, order in WAVELET:
            for n, count in ((2, 1), (4, 1), (4, 2), (8, 1)):
                for inverse in (False, True):
                    for cont in ('arr', 'list'):
                        if cont == 'list' and n > 2: continue
                        if not ctx.mine(): continue
                        lab = f'WaveletTransform( {style}, {order} ) of {n} {K} samples, count {count}{", inverse" if inverse else ""}'
                        st = blank(I)
                        r = build(ctx, 'WaveletTransform', lab, st, style=vconst(style), order=vconst(order))
                        if r is None: continue
                        o, st = r; xs = forms('x', n, kind)
                        q = ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'transform', [], dict(x=vec(st, 'x', xs, kind, cont), count=vconst(count), inverse=vconst(inverse)), st, op='k1'))
                        outcome(ctx, 'WaveletTransform', lab, q, xs, kind, 'transform')
    for neutral in (True, False):
        for kind, rows_ in (('f', 3), ('c', 1)):
            for N in (1, 2, 3):
                if not ctx.mine(): continue
                lab = f'ComplexTransform of {"three-phase" if rows_ == 3 else "complex"} signal of {N} samples, {"neutral" if neutral else "line"} reference'
                st = blank(I); xs = forms('x', rows_ * N, kind)
                r = ctx.guard('analysis', lab, lambda: ctx.D.static('ComplexTransform', 'transform', [], dict(x=signal(st, 'x', rows_, N, kind, xs), neutral=vconst(neutral)), st, op='k1'))
                outcome(ctx, 'ComplexTransform', lab, r, xs, kind, 'transform', True)
def outcome(ctx, cls, lab, r, xs, kind, op, exempt=False):
    if r is None: return
    site = ctx.site(cls, op)
    if len(r.results) == 1:
        v, s = r.results[0]
        for w in results(v): lform(ctx, cls, lab, s, w, xs, kind, site, op, exempt)
        return
    if not r.results: ctx.R.undecided('form', lab, 'rejected'); return
    # paths chosen by signal values: refuted by two points of which one is the multiple of the other
    ts = []
    for v, s in r.results:
        w = results(v)[0]
        its = ctx.I.vitems(s, w) if w.k == 'arr' else None
        if its is None or any(q.t is None for q in its) or not s.path: ctx.R.undecided('form', lab, 'path not decided'); return
        ts.append((s.path, [q.t for q in its]))
    scales(ctx, cls, lab, ts, xs, op)
SCALES = (-1.0, 3.0, 1e-3, 1e3, 0.0, 1e-7, 1e-10, 1e-14, 1e-20, 1e-31, 1e-80, 1e-301, 1e7, 1e12, 1e40, 1e200)
def scales(ctx, cls, lab, ts, xs, op):
    """Results at points against those at their multiples."""
    names = sorted({a for p, its in ts for t in list(its) + [c for c, _ in p] for a in poly.leaves(t)} | set(a for t in xs for a in poly.leaves(t)), key=repr)
    def at(env):
        out = []
        for p, its in ts:
            if all(bool(poly.evaluate(c, env)) == b for c, b in p): out.append([complex(poly.evaluate(t, env)) for t in its])
        return out[0] if len(out) == 1 else None
    try:
        for k in range(6):
            e = {a: math.sin(1.7 * i + k) * (1.0, 0.01, 3.0, 1e3, 1e-6, 0.3)[k] if a[1] in ('x', "x'") else 0.5 + 0.25 * math.cos(i) for i, a in enumerate(names)}
            y = at(e)
            for c in SCALES:
                z = at({a: v * c if a[1] in ('x', "x'") else v for a, v in e.items()})
                if y is None or z is None: ctx.R.undecided('form', lab, 'path not decided'); return
                s = max([abs(c * q) for q in y] + [abs(q) for q in z] + [1e-304])
                if len(y) != len(z) or any(abs(c * p - q) > 1e-8 * s for p, q in zip(y, z)):
                    ctx.R.bad('path', lab, f'{lab}: the result does not scale with the signal: at {c:g} times a signal it is not {c:g} times the result', *ctx.site(cls, op), key=f'path|{cls}|{op}'); return
    except (poly.NoForm, OverflowError): ctx.R.undecided('form', lab, 'path not decided'); return
    ctx.R.undecided('form', lab, 'not a linear form, results at multiples agree')
def literals(ctx, ci):
    """Integer constants of the module of a class apart from the class-level array itself and documentation."""
    import ast
    t = ctx.I.modules.get(ci.mod)
    if t is None: return set()
    out = set()
    def go(n):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call): skip.add(id(n.value)) if id(n) in top else None
        if id(n) in skip: return
        if isinstance(n, ast.Constant) and type(n.value) in (int, float): out.add(n.value)
        for c in ast.iter_child_nodes(n): go(c)
    skip, top = set(), set()
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef): top |= {id(q) for q in n.body}
    go(t)
    return out
def smallbank(ctx, st, rr=4, cc=3, norm=True):
    """Published polyphase bank of small size with formal numbers of known value."""
    rows_ = [[1.0 + 0.5 * math.sin(1.0 + i * 1.3 + j * 2.1) for j in range(cc)] for i in range(rr)]
    if norm: rows_ = [[c / sum(r) for c in r] for r in rows_]
    its = tuple(vconst(c) for r in rows_ for c in r)
    ci = ctx.I.classes.get('PolyphaseRateFilter')
    c = ctx.I.cell(st, ci.loc) if ci is not None else None
    if c is None: return None
    at = dict(c.attrs or {})
    dims = {d.const for v in at.values() if v.k == 'arr' and v.shape is not None and len(v.shape) == 2 for d in v.shape if d is not None}
    if literals(ctx, ci) & dims: return None  # the size is written down elsewhere: a bank of another size would not be consistent
    for n, v in list(at.items()):
        if v.k == 'arr' and v.shape is not None and len(v.shape) == 2:
            e = its[0]
            for q in its[1:]: e = ip.vjoin(e, q)
            st.heap['tab:PolyphaseRateFilter.bank'] = Cell('arr', elem=e, items=its)
            at[n] = v.r(shape=(Dim(rr), Dim(cc)), locs=frozenset(['tab:PolyphaseRateFilter.bank']), c=NOC)
    ctx.I.setcell(st, ci.loc, c.r(attrs=at))
    return rows_

# ------------------------------------------------------------------ C23
def point(t, k, extra=()):
    """Fixed values of the formal values in terms."""
    names = sorted({a for q in t for a in poly.leaves(q)} | set(extra), key=repr)
    return {a: (1.3 * math.sin(2.1 * i + 0.7 * k + 0.3) + 0.2 * k) for i, a in enumerate(names)}
def agree(ctx, rule, lab, st, v, want, site, msg, key, tol=1e-9, shape=None, scales=(1.0, 1.0), floor=0.0, path=None):
    """Exact items of a result against wanted forms, decided at fixed points of the formal values."""
    R, I = ctx.R, ctx.I
    its = (I.vitems(st, v) if v.k == 'arr' else I.items(st, v)) if v is not None and v.k != 'num' else None
    if its is None: R.undecided(rule, lab, 'not known element by element'); return None
    if len(its) != len(want): R.bad(rule, lab, f'{msg}: {len(its)} values instead of {len(want)}', *site, key=key); return False
    if shape is not None and v.shape is not None and all(d is not None and d.const is not None for d in v.shape) and tuple(d.const for d in v.shape) != tuple(shape): R.bad(rule, lab, f'{msg}: shape {tuple(d.const for d in v.shape)} instead of {tuple(shape)}', *site, key=key); return False
    ts = [q.t if q.t is not None else ('c', q.c) if q.c is not NOC and not isinstance(q.c, str) else None for q in its]
    if any(t is None for t in ts): R.undecided(rule, lab, 'not in closed form'); return None
    got = 0
    try:
        for k, f in enumerate(scales):
            env = {a: f * v for a, v in point(list(ts) + list(want), k).items()}
            if path is not None:
                if any(t is None for t, _ in path): raise poly.NoForm('condition')
                for q in {q for t, _ in path for q in poly.leaves(t)} - set(env): env[q] = f * 0.77
                if any(bool(poly.evaluate(t, env)) != w for t, w in path): continue
            got += 1
            a = [complex(poly.evaluate(t, env)) for t in ts]; b = [complex(poly.evaluate(t, env)) for t in want]
            s = max([abs(z) for z in b] + [1e-290] + [floor * abs(z) for z in env.values()])
            if not all(map(finite, b)): R.undecided(rule, lab, 'degenerate point'); return None
            if tables.CONC is not None: s = max(s, 30.0 * tables.SCALE[tables.CONC], 1e-6)
            for i, (p, q) in enumerate(zip(a, b)):
                if not finite(p) or abs(p - q) > tol * s:
                    R.bad(rule, lab, f'{msg} (value {i}: {show(p)} instead of {show(q)} at a point)', *site, key=key); return False
    except (poly.NoForm, OverflowError, ZeroDivisionError, TypeError): R.undecided(rule, lab, 'not in closed form'); return None
    if not got: R.undecided(rule, lab, 'no point decided'); return None
    R.ok(rule, lab); return True
def finite(z): return abs(z) < 1e300 and z == z
def show(z): return f'{z.real:.6g}' if abs(z.imag) <= 1e-12 * (1 + abs(z.real)) else f'{z:.6g}'
def window(N, k=0): return [(0.5 + ((i * 7 + 3 + k) % 11) / 7.0) * (1.0, -1.0)[k == 2 and i % 2] for i in range(N)]
def dft(xs, N, k):
    r = C0
    for n, t in enumerate(xs):
        w = complex(math.cos(2 * math.pi * k * n / N), -math.sin(2 * math.pi * k * n / N)) / N
        r = add(r, mul(('c', w), t))
    return r
def c23(ctx):
    poly.REAL.clear(); poly.REAL.update(("x", "x'"))
    R, I = ctx.R, ctx.I
    site = ctx.site('PsdTransform', 'transform')
    # every length: kind, sign and degree
    for m in (BASE.r(siglin='L', sig='f'), BASE.r(siglin='L', sig='c'), BASE.r(siglin='L', sig='i'), BASE.r(siglin='L', sig='f', cont='list'), BASE.r(siglin='L', sig='c', cont='list')):
        for x in ctx.walk([m], classes={'PsdTransform'}):
            for v, s in x.step.results:
                y = results(v)[0]
                c = [I.cell(s, l) for l in y.locs]
                es = [q.elem for q in c if q is not None and q.elem is not None]
                if not es or len(es) != len(c): R.undecided('density', x.label, 'elements not known'); continue
                for e in es:
                    if e.dt and e.dt <= frozenset('c'): R.bad('real', x.label, 'the density has complex values', *site, key='real')
                    elif e.dt and 'c' not in e.dt: R.ok('real', x.label)
                    else: R.undecided('real', x.label, 'kind not known')
                    if e.iv is not None and e.iv[0] >= 0: R.ok('non-negative', x.label)
                    else: R.undecided('non-negative', x.label, 'sign not known')
                    if e.lin in ('Z',) or e.lin == ('A', 2): R.ok('quadratic', x.label)
                    elif (e.lin in ('L', 'K') or isinstance(e.lin, tuple)) and not branched(ctx, x): R.bad('quadratic', x.label, f'the density is of degree {dict(L=1, K=0).get(e.lin, e.lin[-1]) if not isinstance(e.lin, tuple) else e.lin[1]} in the signal, not 2', *site, key='quadratic')
                    else: R.undecided('quadratic', x.label, 'degree not known')
    # bounded lengths: exactly the mean of squared magnitudes
    deep = ctx.tier != 'quick'
    for kind in 'fc':
        K = 'complex' if kind == 'c' else 'real'
        more = ctx.limits(9, 40, 'PsdTransform'); ctx.room(2 * max(more, default=0) + 2)
        for N in sorted({*range(2, 9 if not deep else 13), *more}):
            for L in sorted({N, N + 1, N + 3, 2 * N, 2 * N + 1, 3 * N}):
                if L > (20 if kind == 'f' else 18) and not deep and (N < 9 or L > N + 1 or kind == 'c'): continue
                for hop in sorted({1, 2, N // 2 or 1, N, N + 1}):
                    for cont in (('arr', 'list') if N == 4 else ('arr',)):
                        if not ctx.mine(): continue
                        w = window(N, L % 3); xs = forms('x', L, kind)
                        seg = [[dft([mul(('c', w[n]), xs[i + n]) for n in range(N)], N, k) for k in range(N // 2)] for i in range(0, L - N + 1, hop)]
                        sq = [[('square', ('abs', q)) for q in r] for r in seg]
                        mean = [('mul', ('c', 1.0 / len(sq)), ('add',) + tuple(r[k] for r in sq)) for k in range(N // 2)]
                        for sp in (False, True):
                            lab = f'PsdTransform of {L} {K} samples, window of {N}, hop {hop}{", list" if cont == "list" else ""}{", spectrogram" if sp else ""}'
                            st = blank(I)
                            r = ctx.guard('analysis', lab, lambda: ctx.D.static('PsdTransform', 'transform', [], dict(x=vec(st, 'x', xs, kind, cont), b=vec(st, 'b', [('c', c) for c in w]), index=vconst(hop), spectrogram=vconst(sp)), st, op='k1'))
                            q = only(ctx, 'density', lab, r, 'PsdTransform', 'transform', 'a signal')
                            if q is None: continue
                            v, s = q
                            y = results(v)[0]
                            want = [t for r_ in sq for t in r_] if sp else mean
                            agree(ctx, 'density', lab, s, y, want, site, f'{lab}: the result is not the {"squared magnitude of the transform of each segment" if sp else "mean over segments of the squared magnitudes"}', 'spectrogram' if sp else 'density', scales=(1.0, 1e-7, 1e5), shape=(len(sq), N // 2) if sp else (N // 2,))
