"""C30: designed filters."""
import cmath, math, random
from ..core import *
from .. import poly, interp as ip
H2 = 2.0 ** -0.5
def response(v, f):
    x = cmath.exp(1j * math.pi * f); r = 0.0
    for c in v: r = r * x + c
    return r
def binom(n): return [math.comb(n, k) for k in range(n + 1)]
class Candidates:
    """Assumed results of the library ( window method, z transform ): formal coefficients, the frequency of each request is recorded."""
    def __init__(s, ctx): s.ctx = ctx
    def next(s, st, t):
        k = sum(1 for q in st.trace if isinstance(q, tuple) and q and q[0] == 'cand')
        st.trace = st.trace + (('cand', k, t),)
        return k
    def array(s, st, node, ts, deps, tag=''):
        its = tuple(V('num', dt=DF, deps=deps, t=t, lin='K') if t[0] != 'c' else vconst(t[1]) for t in ts)
        e = V('num', dt=DF, deps=deps, lin='K')
        return s.ctx.I.arr(st, node, e, (Dim(len(its)),), items=its, tag='cand' + tag)
    def firwin(s, I, name, args, kw, st, node):
        if name != 'scipy.signal.firwin': return None
        a = dict(zip(('numtaps', 'cutoff'), args)); a.update(kw)
        n = a['numtaps'].d.const if a['numtaps'].d is not None else None
        if n is None or n < 1: raise Unsupported('design order')
        z = a.get('pass_zero'); sc = a.get('scale'); fs = a.get('fs')
        if z is not None and z.c is not True or sc is not None and sc.c is not True: raise Unsupported('design of another kind')
        t = a['cutoff'].t
        if fs is not None and fs.k != 'none':
            if fs.c is NOC or not fs.c: raise Unsupported('sampling frequency')
            t = poly.fold('mul', t, ('c', 2.0 / fs.c)) if t is not None else None
        k = s.next(st, t)
        return [(s.array(st, node, [('elt', f'h{k}', min(i, n - 1 - i)) for i in range(n)], a['cutoff'].deps), st)]
    def ztransform(s, I, f, args, kw, st, node):
        a = dict(zip(('u', 'v', 'frequency', 'bilinear'), args)); a.update(kw)
        its = I.items(st, a['u']) if a['u'].k in ('arr', 'list') else None
        if its is None: raise Unsupported('prototype')
        n = len(its); k = s.next(st, a['frequency'].t)
        x = s.array(st, node, [('c', 0.0)] + [('elt', f'a{k}', i) for i in range(1, n)], a['frequency'].deps, 'a')
        y = s.array(st, node, [('elt', f'b{k}', i) for i in range(n)], a['frequency'].deps, 'b')
        return [(V('tuple', c=(x, y)), st)]
def points(cls, order, depth, seed, count):
    """Assignment of numbers to the formal values and the coefficients of the candidates."""
    r = random.Random(seed)
    f = r.uniform(0.15, 0.85); g = r.choice((1.0, -0.5, 2.5))
    env = {('par', 'frequency'): f, ('par', 'gain'): g}; cand = []
    for k in range(depth + 1):
        if cls == 'FirFilter':
            n = order + 1
            h = [r.uniform(0.05, 1.0) + (1.0 if 2 * i in (n - 2, n - 1) else 0.0) for i in range((n + 1) // 2)]
            h = [h[min(i, n - 1 - i)] for i in range(n)]; z = sum(h); h = [x / z for x in h]
            for i in range((n + 1) // 2): env[('elt', f'h{k}', i)] = h[i]
            cand.append(([1.0], h))
        else:
            a = [0.0] + [r.uniform(-0.8, 0.8) / order for _ in range(order)]
            q = (1.0 - sum(a)) / 2.0 ** order
            for i in range(order + 1): env[('elt', f'a{k}', i)] = a[i]; env[('elt', f'b{k}', i)] = r.uniform(-1.0, 1.0)
            cand.append(([1.0] + [-x for x in a[1:]], [q * x for x in binom(order)]))
    return env, cand, f, g
def c30(ctx):
    poly.REAL.clear(); poly.REAL.update(['frequency', 'gain'])
    ip.BOUND, ip.TERMSIZE = 3, 40000
    R, I = ctx.R, ctx.I
    for cls, styles in (('FirFilter', FIRSTYLE), ('IirFilter', IIRSTYLE)):
        site = ctx.site(cls, '__init__'); c = Candidates(ctx)
        for style in styles:
            for order in ((1, 2, 3, 6) if ctx.tier == 'quick' else (1, 2, 3, 4, 5, 6, 8)):
                for count in (1, 2, 3):
                    for complement in (False, True):
                        if ctx.tier == 'quick' and (styles.index(style) + order + count) % 2: continue
                        if not ctx.mine(): continue
                        lab = f'{cls}( {style}, order {order}, count {count}{", complement" if complement else ""} )'
                        kw = dict(style=vconst(style), frequency=fnum('frequency', (0.0, False, 1.0, False)), order=vconst(order), count=vconst(count), complement=vconst(complement), gain=fnum('gain'))
                        I.ext_hook = c.firwin; I.fstubs[('ZTransform', 'transform')] = c.ztransform
                        try: q = ctx.guard('design', lab, lambda: ctx.D.construct(cls, kw=kw, st=blank(I), op='k0'))
                        finally: I.ext_hook = None; I.fstubs.clear()
                        if q is None: continue
                        if not q.results and not q.raises: R.undecided('design', lab, 'never returns'); continue
                        if not q.results: R.bad('rejected', lab, f'{lab} is rejected: {sorted({str(excname(o)) for o in q.raises})}', *site, key=f'{cls}|rejected'); continue
                        judge(ctx, cls, lab, q, order, count, complement, site)
def judge(ctx, cls, lab, q, order, count, complement, site):
    R, I = ctx.R, ctx.I
    bads = {}
    def fault(rule, msg): bads.setdefault(rule, msg)
    done = 0; why = 'no path of the point'
    for seed in range(24):
        env, cand, f, g = points(cls, order, 3, f'{cls}{order}{count}{complement}{seed}', count)
        d = 1.0 - f if complement else f
        paths = []
        for o, st in q.results:
            try: ok = all(bool(poly.evaluate(t, env)) == w for t, w in st.path)
            except poly.NoForm as e: ok = None; why = f'condition: {e}'
            paths.append((ok, o, st))
        if any(ok is None for ok, _, _ in paths): continue
        out = []
        for o in q.raises:
            try:
                if all(bool(poly.evaluate(t, env)) == w for t, w in o.st.path): out.append(o)
            except poly.NoForm: out.append(o)
        if out and not any(ok for ok, _, _ in paths): fault('rejected', f'{lab}: rejected with {excname(out[0])} (frequency {f:.3g})'); done += 1; continue
        if out: why = 'may be rejected'; continue
        hit = [(o, st) for ok, o, st in paths if ok]
        if len(hit) != 1: why = f'{len(hit)} paths at one point'; continue
        o, st = hit[0]
        try:
            def num(name):
                r = ctx.guard('design', lab, lambda: ctx.D.get(o, name, st.copy(), op='g'))
                v, s2 = r.results[0]; its = I.vitems(s2, v) if v.k == 'arr' else None
                if its is None: raise poly.NoForm(f'{name} is not known element by element')
                return [poly.evaluate(x.t if x.t is not None else ('c', x.c) if x.c is not NOC else None, env) for x in its]
            b = num('b'); a = num('a') if cls == 'IirFilter' else [0.0] * len(b)
            req = [poly.evaluate(t[2], env) for t in st.trace if isinstance(t, tuple) and t and t[0] == 'cand']
        except (poly.NoForm, IndexError, AttributeError, TypeError) as e: why = str(e); continue
        if not req or len(req) > len(cand): why = 'no candidate is requested'; continue
        done += 1
        if len(b) != order + 1 or len(a) != order + 1: fault('order', f'{lab}: the filter has {len(b)} coefficients instead of {order + 1}'); continue
        alt = [(-1.0) ** i for i in range(order + 1)]
        end, far = (alt, [1.0] * (order + 1)) if complement else ([1.0] * (order + 1), alt)
        A = [1.0] + [-x for x in a[1:]]
        dot = lambda x, y: sum(p * r for p, r in zip(x, y))
        near = lambda x, y, t=1e-7: abs(x - y) <= t * max(1.0, abs(x), abs(y))
        where = 'Nyquist' if complement else 'zero'
        if not near(a[0], 0.0): fault('leading', f'{lab}: the leading recursive coefficient is not zero')
        den = dot(A, end)
        if abs(den) > 1e-9 and not near(dot(b, end) / den, g): fault('gain', f'{lab}: the response at {where} is {complex(dot(b, end) / den).real:.4g} times instead of the gain {g} (frequency {f:.3g})')
        if cls == 'IirFilter' and abs(dot(b, far)) > 1e-7 * max(map(abs, b)): fault('opposite', f'{lab}: the response at the opposite end of the band is not zero')
        # the first request is for the requested frequency
        errs = [H2 - abs(response(B, d) / response(A_, d)) ** count for A_, B in cand[:len(req)]]
        if not near(req[0], d, 1e-6): fault('request', f'{lab}: the search starts at the frequency {complex(req[0]).real:.4g} for the frequency {d:.4g} of the low-pass design')
        # the search moves against the error
        for k in range(1, len(req)):
            if abs(errs[k - 1]) > 1e-3 and (req[k] - req[k - 1]) * errs[k - 1] <= 0.0 and not near(req[k - 1], 1.0, 1e-6): fault('direction', f'{lab}: a design which is {"below" if errs[k - 1] > 0 else "above"} half power at the frequency is followed by one of frequency {complex(req[k]).real:.4g} after {complex(req[k - 1]).real:.4g}'); break
        if len(req) < 3 and min(map(abs, errs)) > 1e-6: fault('stop', f'{lab}: the search stops at a half-power error of {min(map(abs, errs)):.3g}')
        # the best candidate is kept
        match = []
        for k in range(len(req)):
            A_, B = cand[k]
            aw = [p * r for p, r in zip(alt, A_)] if complement and cls == 'IirFilter' else A_
            bw = [g * (p * r if complement else r) for p, r in zip(alt, B)]
            if all(near(x, y) for x, y in zip(b, bw)) and (cls == 'FirFilter' or all(near(x, y) for x, y in zip(A, aw))): match.append(k)
        best = min(range(len(req)), key=lambda k: abs(errs[k]))
        if not match: fault('mirror' if complement else 'kept', f'{lab}: the filter is not {"the mirror image of " if complement else ""}a design of the search scaled by the gain')
        elif abs(abs(errs[match[0]]) - abs(errs[best])) > 1e-6: fault('kept', f'{lab}: the search keeps a design with the half-power error {abs(errs[match[0]]):.3g} (over {count} instances) although one with {abs(errs[best]):.3g} was examined')
    if bads:
        for r, m in bads.items(): R.bad(r, lab, m, *site, key=f'{cls}|{r}')
    elif done >= 8: R.ok('designed', lab, n=1)
    else: R.undecided('designed', lab, why)

# ------------------------------------------------------------------ C42
def butterworth(n): return [cmath.exp(1j * math.pi * (2 * k + n - 1) / (2 * n)) for k in range(1, n + 1)]
def chebyshev(n, ripple=0.125):
    v = math.asinh(1.0 / math.sqrt(10.0 ** (0.1 * ripple) - 1.0)) / n
    return [-math.sinh(v) * math.sin(math.pi * (2 * k - 1) / (2 * n)) + 1j * math.cosh(v) * math.cos(math.pi * (2 * k - 1) / (2 * n)) for k in range(1, n + 1)]
def expand(roots):
    r = [1.0 + 0j]
    for z in roots: r = [a - z * b for a, b in zip(r + [0.0], [0.0] + r)]
    return [x.real for x in r]
def bessel(n): return [math.factorial(2 * n - k) / (2 ** (n - k) * math.factorial(k) * math.factorial(n - k)) for k in range(n, -1, -1)]
PROTOTYPE = {'Butterworth': lambda n: expand(butterworth(n)), 'Chebyshev': lambda n: expand(chebyshev(n)), 'Bessel': bessel}
def similar(u, want):
    """Whether two monic polynomials have the same roots up to a common positive scale."""
    n = len(want) - 1
    if len(u) != n + 1 or abs(u[0]) < 1e-300: return False
    u = [x / u[0] for x in u]; w = [x / want[0] for x in want]
    if n == 0: return True
    q = u[n] / w[n]
    if isinstance(q, complex) and abs(q.imag) > 1e-9 * abs(q): return False
    q = complex(q).real
    if q <= 0.0: return False
    s = q ** (1.0 / n)
    return all(abs(a - b * s ** k) <= 1e-7 * (abs(a) + abs(b) * s ** k) + 1e-9 * s ** k for k, (a, b) in enumerate(zip(u, w)))
class Prototypes(Candidates):
    def ztransform(s, I, f, args, kw, st, node):
        from .tables import consts_of
        a = dict(zip(('u', 'v', 'frequency', 'bilinear'), args)); a.update(kw)
        u, v = consts_of(s.ctx, st, a['u']), consts_of(s.ctx, st, a['v'])
        z = a.get('bilinear')
        k = sum(1 for q in st.trace if isinstance(q, tuple) and q and q[0] == 'proto')
        st.trace = st.trace + (('proto', k, u and tuple(u), v and tuple(v), True if z is None else z.c),)
        return super().ztransform(I, f, args, kw, st, node)
    def firwin(s, I, name, args, kw, st, node):
        if name == 'scipy.signal.firwin':
            a = dict(zip(('numtaps', 'cutoff'), args)); a.update(kw); w = a.get('window')
            c = None
            if w is not None and w.k == 'tuple' and isinstance(w.c, tuple): c = tuple(x.c for x in w.c)
            elif w is not None and w.k == 'str': c = w.c
            st.trace = st.trace + (('window', 0, c),)
        return super().firwin(I, name, args, kw, st, node)
WINDOWS = {'Blackman': ('blackman',), 'Hamming': ('hamming',), 'Hann': ('hann', 'hanning', 'han'), 'Kaiser': (('kaiser', 7.0),)}
def c42(ctx):
    poly.REAL.clear(); poly.REAL.update(['frequency', 'gain'])
    ip.BOUND, ip.TERMSIZE = 2, 40000
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    for cls, styles in (('IirFilter', IIRSTYLE), ('FirFilter', FIRSTYLE)):
        site = ctx.site(cls, '__init__'); c = Prototypes(ctx)
        more = ctx.limits(13, 20, cls)
        for style in styles:
            for order in [*range(1, 13), *more]:
                if cls == 'FirFilter' and order not in (1, 2, 5, 8) + tuple(more): continue
                for count, complement in ((1, False), (2, True)) if order < 9 else ((1, False),):
                    for how in ('formal',) if order > 3 else ('formal', 'upper', 'lower'):
                        if not ctx.mine(): continue
                        name = dict(formal=style, upper=style.upper(), lower=style.lower())[how]
                        lab = f'{cls}( {name}, order {order}, count {count}{", complement" if complement else ""} )'
                        kw = dict(style=vconst(name), frequency=fnum('frequency', (0.0, False, 1.0, False)), order=vconst(order), count=vconst(count), complement=vconst(complement), gain=fnum('gain'))
                        I.ext_hook = c.firwin; I.fstubs[('ZTransform', 'transform')] = c.ztransform
                        try: q = ctx.guard('prototype', lab, lambda: ctx.D.construct(cls, kw=kw, st=blank(I), op='k0'))
                        finally: I.ext_hook = None; I.fstubs.clear()
                        if q is None: continue
                        seen = 0
                        for o, st in q.results:
                            ps = [t for t in st.trace if isinstance(t, tuple) and t and t[0] == ('proto' if cls == 'IirFilter' else 'window')]
                            if not ps: R.undecided('prototype', lab, 'no design found'); break
                            for p in ps:
                                if cls == 'FirFilter':
                                    if p[2] is None or p[2] is NOC: R.undecided('window', lab, 'window not constant'); continue
                                    if p[2] in WINDOWS[style]: R.ok('window', lab)
                                    else: R.bad('window', lab, f'{lab}: the window of the design is {p[2]!r}', *site, key=f'{cls}|window')
                                    continue
                                _, k, u, v, bil = p
                                if u is None or v is None or bil is NOC: R.undecided('prototype', lab, 'prototype not constant'); continue
                                u = list(u); v = list(v)
                                while len(u) > 1 and u[0] == 0: u = u[1:]
                                while len(v) > 1 and v[0] == 0: v = v[1:]
                                e = None
                                if len(u) != order + 1: e = f'the prototype has {len(u) - 1} poles'
                                elif len(v) != 1: e = f'the prototype has {len(v) - 1} zeros'
                                elif not similar(u, PROTOTYPE[style](order)): e = f'the poles of the prototype are not those of a {style} low-pass filter of order {order}'
                                elif bool(bil) != (style != 'Bessel'): e = f'the prototype is mapped by the {"bilinear" if bil else "impulse invariant"} transform'
                                if e: R.bad('prototype', lab, f'{lab}: {e}', *ctx.site(cls, '__init__'), key=f'{cls}|{style}')
                                else: R.ok('prototype', lab)
