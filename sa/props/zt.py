"""C39, C40: window filters and the z transform in closed form."""
import cmath, math, random
from ..core import *
from .. import poly, interp as ip
from .lines import forms, vec, only
from .adaptive import value, items, near
# ------------------------------------------------------------------ windows
def reference(style, n):
    """Symmetric window of n points."""
    if n == 1: return [1.0]
    m = n - 1; cs = lambda *a: [sum((-1) ** k * c * math.cos(2.0 * math.pi * k * i / m) for k, c in enumerate(a)) for i in range(n)]
    if style == 'Hann': return cs(0.5, 0.5)
    if style == 'Hamming': return cs(0.54, 0.46)
    if style == 'Blackman': return cs(0.42, 0.5, 0.08)
    i0 = lambda x: sum(((x / 2.0) ** k / math.factorial(k)) ** 2 for k in range(60))
    return [i0(7.0 * math.sqrt(max(0.0, 1.0 - (2.0 * i / m - 1.0) ** 2))) / i0(7.0) for i in range(n)]
def c39(ctx):
    R, I = ctx.R, ctx.I
    poly.REAL.clear(); poly.REAL.update(['x', 'y'])
    more = ctx.limits(15, 600, 'WindowFilter'); ctx.room(max(more, default=0) + 2)
    cls = 'WindowFilter'; site = ctx.site(cls, 'filter'); made = ctx.site(cls, '__init__')
    for style in FIRSTYLE:
        for order in sorted({0, 1, 2, 3, 4, 7, 8, 15, *more} if ctx.tier == 'quick' else {*range(0, 17), 20, 31, *more}):
            for normal in (None, True, False):
                if style == 'Hann' and order == 1 and normal is not False: continue  # both points of this window are zero: it has no normalised form
                if not ctx.mine(): continue
                lab = f'{cls}( {style}, order {order}{"" if normal is None else f", normal {normal}"} )'
                kw = dict(style=vconst(style), order=vconst(order))
                if normal is not None: kw['normal'] = vconst(normal)
                r = only(ctx, 'window', lab, ctx.guard('window', lab, lambda: ctx.D.construct(cls, kw=kw, st=blank(I), op='k0')), cls, '__init__', lab)
                if r is None: continue
                o, st = r
                w = reference(style, order + 1)
                if normal is not False: g = (order + 1) / sum(map(abs, w)); w = [q * g for q in w]
                q = ctx.guard('window', lab, lambda: ctx.D.get(o, 'b', st.copy(), op='g'))
                try:
                    v, s2 = q.results[0]; b = items(ctx, s2, v, {})
                except (poly.NoForm, IndexError, AttributeError) as e: R.undecided('window', lab, str(e)); continue
                if len(b) != len(w): R.bad('length', lab, f'{lab}: {len(b)} coefficients instead of {len(w)}', *made, key=f'length|{style}'); continue
                if not all(near(x, y) for x, y in zip(b, w)):
                    i = next(i for i, (x, y) in enumerate(zip(b, w)) if not near(x, y))
                    R.bad('window', lab, f'{lab}: coefficient {i} is {complex(b[i]).real:.5g} instead of {w[i]:.5g} of the symmetric {"" if normal is False else "normalised "}window', *made, key=f'window|{style}|{normal}'); continue
                R.ok('window', lab)
                for kind in 'fc':
                    for cont in ('arr', 'list'):
                        if cont == 'list' and order > 3: continue
                        st1 = st.copy(); xs = forms('x', order + 1, kind, 'y'); x = vec(st1, 'x', xs, kind, cont)
                        l2 = f'{lab}: {"complex" if kind == "c" else "real"} samples{", a list" if cont == "list" else ""}'
                        r = only(ctx, 'product', l2, ctx.guard('product', l2, lambda: ctx.D.method(o, 'filter', [x], {}, st1, op='k1')), cls, 'filter', 'a signal of the length of the window')
                        if r is None: continue
                        v, s2 = r; rr = random.Random(l2)
                        env = {(e, n, i): rr.uniform(-2, 2) for e in ('elt',) for n in 'xy' for i in range(order + 1)}
                        try: got = items(ctx, s2, v, env); want = [a * poly.evaluate(t, env) for a, t in zip(w, xs)]
                        except poly.NoForm as e: R.undecided('product', l2, str(e)); continue
                        k = next((i for i, (p, q) in enumerate(zip(got, want)) if not near(p, q)), None)
                        if len(got) != len(want): R.bad('product', l2, f'{l2}: {len(got)} values for {len(want)} samples', *site, key='count')
                        elif k is not None: R.bad('product', l2, f'{l2}: value {k} is {complex(got[k]):.4g} instead of the product {complex(want[k]):.4g} of sample and coefficient', *site, key=f'product|{kind}')
                        else: R.ok('product', l2)
                        # a later call starts afresh
                        st3 = s2.copy(); x3 = vec(st3, 'z', forms('x', order + 1, kind, 'y'), kind)
                        r = only(ctx, 'again', l2, ctx.guard('again', l2, lambda: ctx.D.method(o, 'filter', [x3], {}, st3, op='k2')), cls, 'filter', 'a second signal')
                        if r is None: continue
                        try: again = items(ctx, r[1], r[0], env)
                        except poly.NoForm as e: R.undecided('again', l2, str(e)); continue
                        if len(again) != len(want) or not all(near(p, q) for p, q in zip(again, want)): R.bad('again', l2, f'{l2}: the same signal gives another result in a second call', *site, key='again')
                        else: R.ok('again', l2)
# ------------------------------------------------------------------ z transform
def expand(zs, lead=1.0):
    c = [lead]
    for z in zs: c = [x - z * y for x, y in zip(c + [0.0], [0.0] + c)]
    return c
def placed(r, n, lo, hi):
    """n distinct points, closed under conjugation."""
    out = []
    while len(out) < n:
        if n - len(out) >= 2 and r.random() < 0.7:
            z = complex(r.uniform(lo, hi), r.uniform(0.2, 1.2)); new = [z, z.conjugate()]
        else: new = [complex(r.uniform(lo, hi))]
        if all(abs(a - b) > 0.15 for a in new for b in out): out += new
    return out
def c40(ctx):
    R, I = ctx.R, ctx.I
    poly.REAL.clear(); poly.REAL.update(['u', 'v', 'frequency'])
    ip.TERMSIZE = 60000
    cls = 'ZTransform'; site = ctx.site(cls, 'transform')
    lead = (0.1, True, 8.0, True)
    for n in (1, 2, 3) if ctx.tier == 'quick' else (1, 2, 3, 4):
        for m in range(0, n + 1):
            for bilinear in (None, True, False):
                if bilinear is False and m == n: continue  # not strictly proper
                for cont in ('arr', 'list'):
                    for pad in ((0, 0), (1, 0), (0, 2)):
                        if cont == 'list' and pad != (0, 0): continue
                        if not ctx.mine(): continue
                        lab = f'{cls}: {n} poles, {m} zeros, {"bilinear" if bilinear else "by default" if bilinear is None else "impulse invariant"}{", lists" if cont == "list" else ""}{f", {pad} leading coefficients zero" if any(pad) else ""}'
                        st = blank(I); args = []
                        for name, k, z in (('u', n, pad[0]), ('v', m, pad[1])):
                            fs = [('c', 0.0)] * z + forms(name, k + 1, 'f')
                            a = vec(st, name, fs, 'f', cont)
                            c = st.heap['arg:' + name]
                            st.heap['arg:' + name] = c.r(items=tuple(q.r(iv=lead) if i == z else q.r(iv=lead) if i == len(fs) - 1 and q.c is NOC else q for i, q in enumerate(c.items)))
                            args.append(a)
                        kw = {} if bilinear is None else dict(bilinear=vconst(bilinear))
                        q = ctx.guard('mapping', lab, lambda: ctx.D.static(cls, 'transform', args + [fnum('frequency', (0.0, False, INF, False))], kw, st, op='k1'))
                        if q is None: continue
                        judge(ctx, cls, lab, q, n, m, bilinear, site)
    # constants, poles on either side of the imaginary axis
    for k, (ps, zs) in enumerate((([-0.5], []), ([0.4], []), ([-0.3, -1.1], [-0.7]), ([0.3, -1.1], [0.2]), ([-0.4 + 0.9j, -0.4 - 0.9j], [-1.2]), ([0.4 + 0.9j, 0.4 - 0.9j], [0.6]), ([-0.5, -0.5 + 0.3j, -0.5 - 0.3j], [-2.0, 0.7]), ([0.2, 0.5 + 0.3j, 0.5 - 0.3j], [-0.3 + 1.0j, -0.3 - 1.0j]), ([-4.0, -25.0], [-9.0]), ([-1e-3, -2e-3], []))):
        for bilinear in (True, False):
            for f in (0.05, 0.3, 1.0, 2.5):
                for cu, cv in ((1.0, 1.0), (2.0, 0.5), (1e-9, 1e-9), (1e6, 1e-6)):
                    if not ctx.mine(): continue
                    n, m = len(ps), len(zs)
                    if any(abs(abs(x * math.pi * f / 2.0) - 1.0) < 1e-6 for x in ps + zs) or max(abs(x) for x in ps) * f > 20: continue
                    u, v = [complex(x).real for x in expand(ps, cu + 0j)], [complex(x).real for x in expand(zs, cv + 0j)]
                    lab = f'{cls}: poles {ps}, zeros {zs}, leading coefficients ( {cu:g}, {cv:g} ), frequency {f}, {"bilinear" if bilinear else "impulse invariant"}'
                    st = blank(I)
                    q = ctx.guard('mapping', lab, lambda: ctx.D.static(cls, 'transform', [vec(st, 'u', [('c', x) for x in u]), vec(st, 'v', [('c', x) for x in v]), vconst(f)], dict(bilinear=vconst(bilinear)), st, op='k1'))
                    if q is None: continue
                    judge(ctx, cls, lab, q, n, m, bilinear, site, [(f, ps, zs, u, v)])
def judge(ctx, cls, lab, q, n, m, bilinear, site, given=None):
    R = ctx.R
    seen = set(); good = 0; why = 'no point decided'
    def fault(rule, msg):
        if rule not in seen: seen.add(rule); R.bad(rule, lab, f'{lab}: {msg}', *site, key=f'{rule}|{bilinear is False}')
    for seed in range(6) if not given else range(len(given)):
        if given: f, p, z, u, v = given[seed]
        else:
            r = random.Random(f'{lab}{seed}')
            f = r.choice((0.1, 0.35, 0.8, 1.7)) * r.uniform(0.8, 1.2)
            p, z = placed(r, n, -1.5, -0.2), placed(r, m, -2.5, -0.3)
            # leading and trailing coefficients are positive
            u, v = [x.real for x in expand(p, r.uniform(0.5, 2.0) + 0j)], [x.real for x in expand(z, r.uniform(0.5, 2.0) + 0j)]
        env = {('par', 'frequency'): f}
        for name, c in (('u', u), ('v', v)):
            for i, x in enumerate(c): env[('elt', name, i)] = x
        try:
            hit = [(x, None) for x in q.results if all(bool(poly.evaluate(t, env)) == w for t, w in x[1].path)] + [(None, x) for x in q.raises if all(bool(poly.evaluate(t, env)) == w for t, w in x.st.path)]
            if len(hit) != 1: why = f'{len(hit)} paths at one point'; continue
            if hit[0][0] is None: fault('rejected', f'rejected with {excname(hit[0][1])}'); continue
            v_, st = hit[0][0]
            if v_.k != 'tuple' or len(v_.c) != 2: why = 'not a pair'; continue
            a, b = (items(ctx, st, x, env) for x in v_.c)
        except (poly.NoForm, KeyError, TypeError) as e: why = str(e); continue
        good += 1
        if bilinear is False:
            P = [cmath.exp(math.pi * f * x) for x in p]; A = expand(P)
            den = lambda k: math.prod([p[k] - x for i, x in enumerate(p) if i != k])
            B = [0.0] * n
            for k in range(n):
                res = sum(c * p[k] ** (m - i) for i, c in enumerate(v)) / den(k)
                B = [x + res * y for x, y in zip(B, expand([x for i, x in enumerate(P) if i != k]))]
            B = B + [0.0]
        else:
            T = lambda x: (1.0 + x * math.pi * f / 2.0) / (1.0 - x * math.pi * f / 2.0)
            A = expand([T(x) for x in p]); B = expand([T(x) for x in z] + [0.0] * (n - m))
        want = [0.0] + [-complex(x).real for x in A[1:]]
        g = (1.0 - sum(want)) / sum(complex(x).real for x in B); B = [g * complex(x).real for x in B]
        if len(a) != n + 1 or len(b) != n + 1: fault('length', f'{len(a)} recursive and {len(b)} forward coefficients instead of {n + 1}'); continue
        if not near(a[0], 0.0): fault('leading', f'the leading recursive coefficient is {complex(a[0]).real:.4g} instead of zero')
        if not near(sum(b), 1.0 - sum(a)): fault('gain', f'the gain at zero frequency is {complex(sum(b) / (1.0 - sum(a))).real:.4g} instead of 1')
        if not all(near(x, y) for x, y in zip(a[1:], want[1:])): fault('poles', f'the poles are not those of the continuous filter mapped by {"exp( pi f p )" if bilinear is False else "( 1 + p pi f / 2 ) / ( 1 - p pi f / 2 )"} (frequency {f:.3g}, recursive coefficients {[round(complex(x).real, 4) for x in a]} instead of {[round(x, 4) for x in want]})')
        elif not all(near(x, y) for x, y in zip(b, B)): fault('zeros', f'the forward coefficients {[round(complex(x).real, 4) for x in b]} are not {[round(x, 4) for x in B]} of {"the same partial fractions" if bilinear is False else "the mapped zeros"} (frequency {f:.3g})')
    if seen: return
    if good >= 4 or given and good: R.ok('mapping', lab)
    else: R.undecided('mapping', lab, why)
