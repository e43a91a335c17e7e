"""C36, C37: reported frequency response, group delay and roots of filters; frequency axes of spectra."""
import cmath, math
from ..core import *
from .. import poly
from .lines import forms, vec, add, mul, build, only, C0
from .laws import agree, results, window, dft
from .tables import consts_of
SETS = (([0.0], [0.75]), ([0.0, 0.5], [0.25, 0.5]), ([0.0, 0.5, -0.25], [0.25, 0.5, 0.25]), ([0.0, 1.2, -0.72, 0.1], [1.0, 0.4, 0.3, -0.2]), ([0.0, 0.3, -0.1, 0.05, 0.02], [0.5, -1.0, 0.5, 0.1, 0.7]), ([0.0, 0.5, 0.25], [0.5, 0.0, 0.0]), ([0.0, 0.4, 0.0], [1.0, -0.5, 0.0]), ([0.0, 0.5, -0.25], [3e-12, -1e-12, 2e-12]), ([0.0, 0.5, -0.25], [3e12, -1e12, 2e12]))
def z_(f, k): return cmath.exp(-1j * math.pi * f * k)
def poly_at(c, f, w=None):
    r = C0
    for k, t in enumerate(c): r = add(r, mul(('c', z_(f, k) * (1 if w is None else w[k])), t))
    return r
def response(b, a, f, count):
    """Response of y = sum b x + sum a y at a frequency normalised to Nyquist, cascaded."""
    d = [('c', 1.0)] + [mul(('c', -1.0), t) for t in a[1:]]
    h = ('div', poly_at(b, f), poly_at(d, f))
    return ('mul',) + (h,) * count
def delay(b, a, f, count):
    d = [('c', 1.0)] + [mul(('c', -1.0), t) for t in a[1:]]
    w = range(max(len(b), len(d)))
    g = [('real', ('div', poly_at(c, f, w), poly_at(c, f))) for c in (b, d)]
    return ('mul', ('c', float(count)), ('sub', g[0], g[1]))
def axis(ctx, rule, lab, st, v, n, site, key):
    """Constant frequencies of an axis of n points."""
    c = consts_of(ctx, st, v) if v is not None else None
    if c is None: ctx.R.undecided(rule, lab, 'axis not constant'); return None
    if len(c) != n: ctx.R.bad(rule, lab, f'{lab}: {len(c)} frequencies instead of {n}', *site, key=key); return None
    if any(isinstance(x, complex) and x.imag for x in c): return None
    return [complex(x).real for x in c]
def limited(b, a, fs):
    try: y = [abs(poly.evaluate(delay(b, a, f, 1), {})) for f in fs]
    except poly.NoForm: return True
    return max(y) > min(y) * 9.9
def report(ctx, cls, lab, o, st, b, a, n, count, what, kw, fixed=False):
    site = ctx.site(cls, what)
    r = ctx.guard('analysis', lab, lambda: ctx.D.method(o, what, [], dict(kw), st.copy(), op='k1'))
    if r is None: return
    if not r.results: ctx.R.bad(what, lab, f'{lab} is rejected', *site, key=f'{what}|{cls}|rejected'); return
    for v, s in r.results:
        if v.k != 'tuple' or not isinstance(v.c, tuple) or len(v.c) != 2: ctx.R.undecided(what, lab, 'result not a pair'); continue
        y, f = v.c
        fs = axis(ctx, what, lab, s, f, n, site, f'{what}-axis|{cls}')
        if fs is None: continue
        its = ctx.I.vitems(s, y) if y.k == 'arr' else None
        if its is not None and len(its) != n: ctx.R.bad(what, lab, f'{lab}: {len(its)} values instead of {n}', *site, key=f'{what}-length|{cls}'); continue
        idx = list(range(n))
        if what == 'delay':
            if cls == 'FirFilter' and n > 2: idx = idx[1:]  # the first point, Nyquist, is extrapolated
            if cls == 'IirFilter' and n > 6:  # limited at both ends of the axis
                lo, hi = (limited(b, a, [fs[i] for i in q]) for q in (idx[:6], idx[-6:])) if fixed else (True, True)
                if lo and hi or lo != hi and n < 12: idx = idx[6:-6]
                elif lo: idx = idx[6:]
                elif hi: idx = idx[:-6]
        if not idx: continue
        if its is None: ctx.R.undecided(what, lab, 'not known element by element'); continue
        fn = response if what == 'response' else delay
        want = [fn(b, a, fs[i], count) for i in idx]
        agree(ctx, what, lab, s, tup([its[i] for i in idx]), want, site, f'{lab}: the reported {"response" if what == "response" else "group delay"} is not that of the filter at the reported frequency', f'{what}|{cls}', tol=1e-6)
def tup(its): return V('tuple', c=tuple(its))
def c36(ctx):
    poly.REAL.clear(); poly.REAL.update(('a', "a'", 'b', "b'", 'c', "c'"))
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    for cls in ('FirFilter', 'IirFilter'):
        more = ctx.limits(17, 66, cls); ctx.room(max(more, default=0) + 2); longer = [q for q in ctx.limits(5, 20, cls) if q in (5, 8) or q > 11]
        counts = ctx.limits(4, 70, cls)
        for m in [1, 2, 3, 4] + longer:
            for ck in 'fc':
                if cls == 'IirFilter' and m == 1 and ck == 'c': continue
                b = forms('b', m, ck); a = [C0] + (forms('a', m, ck)[1:] if cls == 'IirFilter' else [])
                base = f'{cls} of {m} {"complex" if ck == "c" else "real"} coefficients'
                for what in ('response', 'delay'):
                    for n in (1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, *more):
                        if m > 2 and n in (1, 2, 7, 13, 15) and not deep: continue
                        if (m > 4 or n > 16) and (ck == 'c' or n not in (5, *more) or m not in (2, *longer)): continue
                        for count in (1, 2, 3, *(counts if m == 2 and n == 4 and ck == 'f' else ())):
                            if count == 3 and (n > 5 or m > 2) and not deep: continue
                            if not ctx.mine(): continue
                            st = blank(I); kw = dict(b=vec(st, 'b', b, ck))
                            if cls == 'IirFilter': kw['a'] = vec(st, 'a', a, ck)
                            r = build(ctx, cls, base, st, **kw)
                            if r is None: continue
                            report(ctx, cls, f'{base}: {what}( {n}, {count} )', r[0], r[1], b, a, n, count, what, dict(length=vconst(n), count=vconst(count)))
                # after assignment of other coefficients
                if not ctx.mine(): continue
                st = blank(I); kw = dict(b=vec(st, 'b', b, ck))
                if cls == 'IirFilter': kw['a'] = vec(st, 'a', a, ck)
                r = build(ctx, cls, base, st, **kw)
                if r is None: continue
                c = forms('c', m, ck)
                q = ctx.guard('analysis', base, lambda: ctx.D.set(r[0], 'b', vec(r[1], 'c', c, ck), r[1], op='k0'))
                if q is None or len(q.results) != 1: continue
                for what in ('response', 'delay'): report(ctx, cls, f'{base} after assignment of b: {what}( 4, 1 )', r[0], q.results[0][1], c, a, 4, 1, what, dict(length=vconst(4)))
    # constants: every point whose delay is not limited
    for a, b in SETS:
        for cls in ('FirFilter', 'IirFilter'):
            for n in (8, 9, 16, 21):
                if not ctx.mine(): continue
                lab = f'{cls}( b = {b}{f", a = {a}" if cls == "IirFilter" else ""} )'
                st = blank(I); bt = [('c', x) for x in b]; at = [('c', x) for x in a] if cls == 'IirFilter' else [C0]; kw = dict(b=vec(st, 'b', bt))
                if cls == 'IirFilter': kw['a'] = vec(st, 'a', at)
                r = build(ctx, cls, lab, st, **kw)
                if r is None: continue
                for what in ('response', 'delay'):
                    for count in (1, 2): report(ctx, cls, f'{lab}.{what}( {n}, {count} )', r[0], r[1], bt, at, n, count, what, dict(length=vconst(n), count=vconst(count)), True)
    # constants: roots
    for i, (a, b) in enumerate(SETS):
        for cls in ('FirFilter', 'IirFilter'):
            for count in (1, 2, 3, *(ctx.limits(4, 70, cls) if i == 1 else ())):
                if not ctx.mine(): continue
                lab = f'{cls}( b = {b}{f", a = {a}" if cls == "IirFilter" else ""} ).roots( {count} )'
                st = blank(I); kw = dict(b=vec(st, 'b', [('c', x) for x in b]))
                if cls == 'IirFilter': kw['a'] = vec(st, 'a', [('c', x) for x in a])
                r = build(ctx, cls, lab, st, **kw)
                if r is None: continue
                q = only(ctx, 'roots', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(r[0], 'roots', [], dict(count=vconst(count)), r[1], op='k1')), cls, 'roots', lab)
                if q is None: continue
                v, s = q
                if v.k != 'tuple' or not isinstance(v.c, tuple) or len(v.c) != 2: R.undecided('roots', lab, 'result not a pair'); continue
                site = ctx.site(cls, 'roots')
                den = [1.0] + [-x for x in a[1:]] if cls == 'IirFilter' else [1.0] + [0.0] * (len(b) - 1)
                for w, p, nm in ((v.c[0], den, 'poles'), (v.c[1], b, 'zeros')):
                    c = [] if w.shape and w.shape[0] is not None and w.shape[0].const == 0 else consts_of(ctx, s, w)
                    if c is None: R.undecided('roots', f'{lab} {nm}', 'not constant'); continue
                    k = len(p) - 1
                    if len(c) != k * count: R.bad('roots', lab, f'{lab}: {len(c)} {nm} instead of {k * count}', *site, key=f'roots|{cls}|{nm}'); continue
                    bad = None
                    got = {}
                    for z in c:
                        for g in got:
                            if abs(g - z) < 1e-5: got[g] += 1; break
                        else: got[z] = 1
                    want = {}
                    from ..ext import zeros_of
                    for z in zeros_of(p):
                        for g in want:
                            if abs(g - z) < 1e-5: want[g] += count; break
                        else: want[z] = count
                    for z, m in want.items():
                        if not any(abs(g - z) < 1e-4 and got[g] == m for g in got): bad = f'{z:.6g} is a root of multiplicity {m} of the filter but is not reported'
                    if bad is None and any(abs(x) > abs(y) * (1 + 1e-6) + 1e-9 for x, y in zip(c, c[1:])): bad = 'they are not in the order of their magnitude'
                    if bad: R.bad('roots', f'{lab} {nm}', f'{lab}: {nm}: {bad}', *site, key=f'roots|{cls}|{nm}')
                    else: R.ok('roots', f'{lab} {nm}')

# ------------------------------------------------------------------ C37
def kernel(xs, f):
    n = len(xs); r = C0
    for k, t in enumerate(xs): r = add(r, mul(('c', z_(f, k) / n), t))
    return r
def c37(ctx):
    poly.REAL.clear(); poly.REAL.update(("x", "x'"))
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    more = ctx.limits(13, 66, 'FourierTransform', 'PsdTransform'); ctx.room(max(more, default=0) + 2)
    for N in sorted({*range(1, 13 if not deep else 25), *more}):
        for kind in 'fc':
            K = 'complex' if kind == 'c' else 'real'
            w = window(N, N % 3); xs = forms('x', N + N % 2, kind)
            wx = [mul(('c', w[i]), xs[i]) for i in range(N)]
            if ctx.mine():
                lab = f'FourierTransform of {N} {K} samples'; site = ctx.site('FourierTransform', 'transform')
                st = blank(I)
                q = only(ctx, 'axis', lab, ctx.guard('analysis', lab, lambda: ctx.D.static('FourierTransform', 'transform', [], dict(x=vec(st, 'x', xs, kind), b=vec(st, 'b', [('c', c) for c in w])), st, op='k1')), 'FourierTransform', 'transform', 'a signal')
                if q is not None: spectrum(ctx, lab, q, wx, N, -1.0, site, 'fourier')
                lab = f'inverse FourierTransform of {N} {K} values'
                st = blank(I)
                q = only(ctx, 'axis', lab, ctx.guard('analysis', lab, lambda: ctx.D.static('FourierTransform', 'transform', [], dict(x=vec(st, 'x', xs, kind), b=vec(st, 'b', [('c', 1.0)] * N), inverse=vconst(True)), st, op='k1')), 'FourierTransform', 'transform', 'a spectrum')
                if q is not None: inverse(ctx, lab, q, xs[:N], N, site)
            if N > 1 and ctx.mine():
                lab = f'PsdTransform of {N} {K} samples'; site = ctx.site('PsdTransform', 'transform')
                for sp in (False, True):
                    st = blank(I)
                    q = only(ctx, 'axis', lab, ctx.guard('analysis', lab, lambda: ctx.D.static('PsdTransform', 'transform', [], dict(x=vec(st, 'x', xs, kind), b=vec(st, 'b', [('c', c) for c in w]), index=vconst(N), spectrogram=vconst(sp)), st, op='k1')), 'PsdTransform', 'transform', 'a signal')
                    if q is not None: spectrum(ctx, lab + (', spectrogram' if sp else ''), q, wx, N // 2, 0.0, site, 'psd')
def spectrum(ctx, lab, q, wx, n, lo, site, key):
    v, s = q
    if v.k != 'tuple' or not isinstance(v.c, tuple) or len(v.c) != 2: ctx.R.undecided('axis', lab, 'result not a pair'); return
    fs = axis(ctx, 'axis', lab, s, v.c[1], n, site, f'{key}-length')
    if fs is None: return
    R = ctx.R
    if any(not lo - 1e-12 <= f < 1.0 - 1e-12 for f in fs): R.bad('domain', lab, f'{lab}: the axis leaves [{lo}, 1.0): {[round(f, 4) for f in fs]}', *site, key=f'{key}-domain')
    elif any(b - a <= 0 for a, b in zip(fs, fs[1:])) or any(abs((b - a) - (fs[1] - fs[0])) > 1e-9 for a, b in zip(fs, fs[1:])): R.bad('domain', lab, f'{lab}: the axis is not increasing in equal steps: {[round(f, 4) for f in fs]}', *site, key=f'{key}-steps')
    else: R.ok('domain', lab)
    want = [kernel(wx, f) for f in fs]
    if key == 'psd': want = [('square', ('abs', t)) for t in want]
    agree(ctx, 'axis', lab, s, v.c[0], want, site, f'{lab}: a value is not the transform of the windowed signal at the frequency of the axis', f'{key}-axis')
def inverse(ctx, lab, q, ys, n, site):
    """Values given at the frequencies of the forward axis are those of the signal sum y exp( j pi f n )."""
    v, s = q
    fs = [2.0 * (k - n // 2) / n for k in range(n)]
    want = []
    for i in range(n):
        r = C0
        for f, t in zip(fs, ys): r = add(r, mul(('c', cmath.exp(1j * math.pi * f * i)), t))
        want.append(r)
    agree(ctx, 'inverse', lab, s, results(v)[0], want, site, f'{lab}: the result is not the signal with the given spectrum', 'inverse')
