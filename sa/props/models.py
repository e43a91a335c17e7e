"""C19, C35: learning and classification by the Gaussian models."""
import math
from ..core import *
from .. import poly, ext
from ..ext import gmmleaf, gmmkey, gmmparams, inverse
from .lines import forms, vec, build, only, leaf, attr
from .resample import matrix
from .laws import point, finite

def labels(st, ys, name='y'):
    its = tuple(vconst(k).r(deps=frozenset(['arg:' + name]), mv=frozenset([name])) for k in ys)
    st.heap['arg:' + name] = Cell('arr', elem=V('num', dt=KD('i'), deps=frozenset(['arg:' + name]), mv=frozenset([name]), iv=(min(ys), True, max(ys), True)), items=its)
    return V('arr', dt=KD('i'), shape=(Dim(len(ys)),), locs=frozenset(['arg:' + name]))
def table(st, name, fs, rows, cols):
    v = vec(st, name, fs, 'f')
    return v.r(shape=(Dim(rows), Dim(cols)))
def value(t, env): return complex(poly.evaluate(t, env)).real
def quad(x, u, inv):
    n = len(x); d = [a - b for a, b in zip(x, u)]
    return sum(d[i] * inv[i * n + j] * d[j] for i in range(n) for j in range(n))
def gauss(rows, reg):
    """Mean and inverse of the regularised maximum likelihood covariance."""
    n = len(rows[0]); m = len(rows)
    u = [sum(r[j] for r in rows) / m for j in range(n)]
    c = [sum((r[i] - u[i]) * (r[j] - u[j]) for r in rows) / m + (reg if i == j else 0.0) for i in range(n) for j in range(n)]
    return u, inverse(c, n)
DATA = [((1., 2.), (3., 5.), (2., 1.), (-1., 0.), (.5, .25), (4., 1.), (2.5, -1.), (0., -2.)),
        ((.1,), (.7,), (-.4,), (1.5,), (2.,), (-1.1,), (.3,), (.9,)),
        ((1., 0., 2.), (.5, 1., -1.), (2., -1., .25), (0., .5, 1.), (-1., 2., .5), (1.5, 1., 1.), (.2, -.6, 2.), (3., 0., -.5))]
YS = [(5, 2, 5, 2, 5, 5, 2, 5), (0, 1, 2, 0, 1, 2, 1, 1), (7, -1, 7, 7, 7, 3, 3, -1), (4, 4, 4, 4, 4, 4, 1, 1), (9, 9, 3, 9, 9, 3, 9, 9)]
def verdict(ctx, lab, st, v, rows, score, site, key, envs, names):
    """Result rows are the labels in order of increasing score, at fixed points of the formal values."""
    R, I = ctx.R, ctx.I
    its = I.vitems(st, v) if v.k == 'arr' else None
    n = len(names)
    if v.k == 'arr' and v.shape is not None and len(v.shape) == 2 and all(d is not None and d.const is not None for d in v.shape) and (v.shape[0].const, v.shape[1].const) != (rows, n):
        R.bad('ranking', lab, f'{lab}: the result has shape {(v.shape[0].const, v.shape[1].const)} instead of {(rows, n)}', *site, key=key); return
    if its is None or len(its) != rows * n: R.undecided('ranking', lab, 'not known element by element'); return
    ts = [q.t if q.t is not None else ('c', q.c) if q.c is not NOC else None for q in its]
    if any(t is None for t in ts): R.undecided('ranking', lab, 'not in closed form'); return
    got = 0
    try:
        for env in envs(ts):
            for i in range(rows):
                sc = [score(env, i, c) for c in names]
                o = sorted(range(n), key=lambda k: sc[k])
                if any(abs(sc[a] - sc[b]) <= 1e-6 * (abs(sc[a]) + abs(sc[b]) + 1e-30) for a, b in zip(o, o[1:])): continue
                want = [names[k] for k in o]
                have = [int(round(value(t, env))) for t in ts[i * n:(i + 1) * n]]
                got += 1
                if have != want: R.bad('ranking', lab, f'{lab}: labels are ranked {have} where the order is {want}', *site, key=key); return
    except (poly.NoForm, OverflowError, ZeroDivisionError, TypeError, ValueError, IndexError): R.undecided('ranking', lab, 'not in closed form'); return
    if got: R.ok('ranking', lab)
    else: R.undecided('ranking', lab, 'degenerate points')
def mixture(g, order, index, reg, zs, n):
    """Score of a class under the fitted components, and points for samples and fitted parameters."""
    p = gmmparams([('covariance_type', vconst('full')), ('max_iter', vconst(index)), ('n_components', vconst(order)), ('reg_covar', vconst(reg))])
    keys = {c: gmmkey([tuple(('c', v) for v in r) for r in rs]) for c, rs in g.items()}
    def val(a, c, i): return gmmleaf(a, keys[c], p, i)
    def envs(ts):
        out = []; ls = sorted({t for q in ts for t in poly.leaves(q)} | {val(a, c, i) for c in g for a, w in (('weights_', order), ('means_', order * n), ('precisions_', order * n * n)) for i in range(w)}, key=repr)
        for k in range(16):
            env = {}
            for j, t in enumerate(ls):
                u = math.sin(2.1 * j + 1.7 * k + 0.4)
                if str(t[1]).startswith('weights_'): u = 0.6 + 0.5 * u
                elif str(t[1]).startswith('precisions_'): i = t[2] % (n * n); u = (1.2 + u * 0.4 if i % (n + 1) == 0 else 0.2)
                env[t] = u
            for j, t in enumerate(zs): env[t] = math.cos(1.3 * j + k)
            out.append(env)
        return out
    def score(env, i, c):
        s = 0.0
        for k in range(order): s += env[val('weights_', c, k)] * math.exp(-0.5 * max(quad([env[t] for t in zs], [env[val('means_', c, k * n + j)] for j in range(n)], [env[val('precisions_', c, k * n * n + j)] for j in range(n * n)]), 0.0))
        return -s
    return score, envs
def c35(ctx):
    poly.REAL.clear(); poly.REAL.update('xyz')
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    def learn(cls, lab, st, kw, x, y, change=None):
        r = build(ctx, cls, lab, st, **kw)
        if r is None: return None
        o, st = r
        for n, v in (change or {}).items():
            q = only(ctx, 'fit', lab, ctx.guard('analysis', lab, lambda: ctx.D.set(o, n, v, st, op='k0')), cls, n, 'a parameter')
            if q is None: return None
            st = q[1]
        q = only(ctx, 'fit', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'fit', [], dict(x=x, y=y), st, op='k1')), cls, 'fit', 'training data')
        return None if q is None else (o, q[1])
    def classify(cls, lab, o, st, z, op='k2'):
        return only(ctx, 'ranking', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'predict', [], dict(x=z), st, op=op)), cls, 'predict', 'a sample')
    def groups(data, ys): return {c: [r for r, k in zip(data, ys) if k == c] for c in sorted(set(ys))}
    # constant training data, formal samples
    cls = 'GaussianModel'; site = ctx.site(cls, 'predict')
    for di, data in enumerate(DATA):
        n = len(data[0])
        for ys in YS:
            for reg, change in ((0.1, None), (1.0, None), (0.5, 2.0), (4.0, 0.25)):
                for rows in (1, 2):
                    if rows == 2 and reg != 0.1 or not ctx.mine(): continue
                    lab = f'{cls}( {reg} ){f", regularize = {change}" if change else ""} trained with labels {ys} and samples of {n} features'
                    st = blank(I)
                    g = groups(data, ys); eff = change or reg
                    x = table(st, 'x', [('c', v) for r in data for v in r], len(data), n); y = labels(st, ys)
                    q = learn(cls, lab, st, dict(regularize=vconst(reg)), x, y, dict(regularize=vconst(change)) if change else None)
                    if q is None: continue
                    zs = forms('z', rows * n, 'f')
                    o, st = q
                    q = classify(cls, lab, o, st, table(st, 'z', zs, rows, n))
                    if q is None: continue
                    par = {c: gauss(r, eff) for c, r in g.items()}
                    if any(p[1] is None for p in par.values()): continue
                    def score(env, i, c): return quad([env[t] for t in zs[i * n:(i + 1) * n]], *par[c])
                    def envs(ts): return [{t: (1 + k % 3) * math.sin(2.1 * j + 1.7 * k + 0.4) + 0.7 * (k % 2) for j, t in enumerate(zs)} for k in range(24)]
                    verdict(ctx, lab, q[1], q[0], rows, score, site, 'gaussian', envs, list(g))
    # large classes, and features of small and large magnitude
    def class_of(n, c): return [[2.0 * math.sin(1.7 * i + 0.9 * j + 2.1 * c) + 1.5 * c * (-1) ** j for j in range(2)] for i in range(n)]
    ctx.room(2 * max(ctx.limits(6, 80, cls), default=30) + 20)
    plans = [((q, 4), 1.0, 0.1) for q in sorted({12, 25, *ctx.limits(6, 80, cls)})] + [((4, 5), 1e-5, 1e-10), ((5, 4, 3), 1e-4, 1e-9), ((4, 5), 1e-6, 0.1), ((4, 5), 1e-7, 1.0), ((4, 5), 1e5, 0.5)]
    for sizes, m, reg in plans:
        if not ctx.mine(): continue
        lab = f'{cls}( {reg} ) trained with {" + ".join(map(str, sizes))} samples of 2 features of magnitude {m}'
        st = blank(I); g = {c: [[m * v for v in r] for r in class_of(w, c)] for c, w in enumerate(sizes)}
        data = [r for c in g for r in g[c]]; ys = [c for c in g for r in g[c]]
        x = table(st, 'x', [('c', v) for r in data for v in r], len(data), 2); y = labels(st, ys)
        q = learn(cls, lab, st, dict(regularize=vconst(reg)), x, y)
        if q is None: continue
        o, st = q; zs = forms('z', 2, 'f')
        q = classify(cls, lab, o, st, table(st, 'z', zs, 1, 2))
        if q is None: continue
        par = {c: gauss(r, reg) for c, r in g.items()}
        def score(env, i, c): return quad([env[t] for t in zs], *par[c])
        def near():
            # points on either side of where two classes are equally close
            for k in range(12):
                a, b = ({t: m * 6.0 * math.sin(2.1 * j + 1.7 * k + w) for j, t in enumerate(zs)} for w in (0.4, 2.5))
                f = lambda u: {t: a[t] + u * (b[t] - a[t]) for t in zs}
                d = lambda u: score(f(u), 0, 0) - score(f(u), 0, 1)
                yield a; yield b
                if d(0.0) * d(1.0) < 0:
                    lo, hi = 0.0, 1.0
                    for _ in range(30):
                        h = (lo + hi) / 2
                        if d(lo) * d(h) <= 0: hi = h
                        else: lo = h
                    for e in (1e-2, 1e-4): yield f(lo - e); yield f(hi + e)
        verdict(ctx, lab, q[1], q[0], 1, score, site, 'gaussian', lambda ts: list(near()), list(g))
    # samples given more than once
    for ys, data in (((0, 0, 0, 1, 1), ([1., 2.], [1., 2.], [3., 1.], [-2., .5], [0., 0.])), ((2, 2, 2, 2, 7, 7, 7), ([1.], [1.], [1.], [4.], [2.], [9.], [9.])), ((0, 0, 1, 1, 1), ([1., 1.], [1., 1.], [2., 0.], [2., 0.], [2., 5.]))):
        if not ctx.mine(): continue
        n = len(data[0]); lab = f'{cls}( 0.1 ) trained with labels {ys} and samples of {n} features, some of them equal'
        st = blank(I); x = table(st, 'x', [('c', v) for r in data for v in r], len(data), n); y = labels(st, ys)
        q = learn(cls, lab, st, dict(regularize=vconst(0.1)), x, y)
        if q is None: continue
        o, st = q; zs = forms('z', n, 'f'); g = groups(data, ys)
        q = classify(cls, lab, o, st, table(st, 'z', zs, 1, n))
        if q is None: continue
        par = {c: gauss(r, 0.1) for c, r in g.items()}
        def score(env, i, c): return quad([env[t] for t in zs], *par[c])
        def envs(ts): return [{t: (1 + k % 3) * math.sin(2.1 * j + 1.7 * k + 0.4) + 0.7 * (k % 2) + 1.5 for j, t in enumerate(zs)} for k in range(48)]
        verdict(ctx, lab, q[1], q[0], 1, score, site, 'gaussian', envs, list(g))
    # formal training data of one feature
    for ys in ((5, 2, 2), (0, 1, 1), (3, 3, 1), (3, 1)):
        if not ctx.mine(): continue
        lab = f'{cls}( 0.5 ) trained with labels {ys} and formal samples of one feature'
        st = blank(I); xs = forms('x', len(ys), 'f'); zs = forms('z', 1, 'f')
        x = table(st, 'x', xs, len(ys), 1); y = labels(st, ys)
        q = learn(cls, lab, st, dict(regularize=vconst(0.5)), x, y)
        if q is None: continue
        o, st = q
        q = classify(cls, lab, o, st, table(st, 'z', zs, 1, 1))
        if q is None: continue
        def score(env, i, c): return quad([env[zs[0]]], *gauss([[env[t]] for t, k in zip(xs, ys) if k == c], 0.5))
        def envs(ts): return [{t: 2.3 * math.sin(2.1 * j + 1.7 * k + 0.4) for j, t in enumerate(xs + zs)} for k in range(24)]
        verdict(ctx, lab, q[1], q[0], 1, score, site, 'gaussian-formal', envs, sorted(set(ys)))
    # mixtures: parameters of each component are those the library finds for the samples of the label
    cls = 'GaussianMixtureModel'; site = ctx.site(cls, 'predict')
    for data in DATA[:2]:
        n = len(data[0])
        for ys in YS[:4]:
            for order in (1, 2, 3):
                for index, reg, change in ((50, 0.1, {}), (100, 0.25, dict(index=7)), (20, 0.5, dict(regularize=1.5)), (5000, 0.1, {})) + tuple((q, 0.1, {}) for q in ctx.limits(101, 99999, 'GaussianMixtureModel') if data is DATA[0] and ys is YS[0]):
                    if order * n * n > 8 or not ctx.mine(): continue
                    lab = f'{cls}( {order}, {index}, {reg} ){"".join(f", {k} = {v}" for k, v in change.items())} trained with labels {ys} and samples of {n} features'
                    st = blank(I); g = groups(data, ys)
                    x = table(st, 'x', [('c', v) for r in data for v in r], len(data), n); y = labels(st, ys)
                    q = learn(cls, lab, st, dict(order=vconst(order), index=vconst(index), regularize=vconst(reg)), x, y, {k: vconst(v) for k, v in change.items()})
                    if q is None: continue
                    o, st = q; zs = forms('z', n, 'f')
                    q = classify(cls, lab, o, st, table(st, 'z', zs, 1, n))
                    if q is None: continue
                    score, envs = mixture(g, order, change.get('index', index), change.get('regularize', reg), zs, n)
                    verdict(ctx, lab, q[1], q[0], 1, score, site, 'mixture', envs, list(g))
    for order in sorted({5, 10, 14, *ctx.limits(4, 24, cls)}):
        if not ctx.mine(): continue
        lab = f'{cls}( {order}, 30, 0.1 ) trained with samples of one feature'
        g = {c: [[2.0 * math.sin(1.7 * i + 2.1 * c) + c] for i in range(order + 2)] for c in (0, 1)}
        data = [r for c in g for r in g[c]]; ys = [c for c in g for r in g[c]]; st = blank(I)
        x = table(st, 'x', [('c', v) for r in data for v in r], len(data), 1); y = labels(st, ys)
        q = learn(cls, lab, st, dict(order=vconst(order), index=vconst(30), regularize=vconst(0.1)), x, y)
        if q is None: continue
        o, st = q; zs = forms('z', 1, 'f')
        q = classify(cls, lab, o, st, table(st, 'z', zs, 1, 1))
        if q is None: continue
        score, envs = mixture({c: [tuple(r) for r in g[c]] for c in g}, order, 30, 0.1, zs, 1)
        verdict(ctx, lab, q[1], q[0], 1, score, site, 'mixture', envs, list(g))

# ------------------------------------------------------------------ diversity: C28 and the clearing of C19
DIST = {'Chebyshev': lambda x, y: max(abs(a - b) for a, b in zip(x, y)),
        'Euclidean': lambda x, y: sum((a - b) ** 2 for a, b in zip(x, y)) ** 0.5,
        'Geometric': lambda x, y: math.prod(abs(a - b) for a, b in zip(x, y)) ** (1.0 / len(x)),
        'Manhattan': lambda x, y: sum(abs(a - b) for a, b in zip(x, y))}
BIG = 1e300
class Path:
    """One path of a history: conditions, reported values of each fit, kept set."""
    def __init__(s, path, st, ys): s.path, s.st, s.ys, s.kept = path, st, ys, None
def history(ctx, lab, style, order, cols, plan, cont='arr'):
    """Paths of a history of fits of formal samples, clears and assignments; None where not interpreted."""
    st = blank(ctx.I)
    r = build(ctx, 'DiversityModel', lab, st, style=vconst(style), order=vconst(order))
    if r is None: return None
    o, st = r; ps = [Path((), st, [])]; data = []; n0 = ctx.I.stmts
    for ci, rows in enumerate(plan):
        nx = []
        fixed = None
        if isinstance(rows, list): fixed, w = rows, len(rows[0])
        elif isinstance(rows, tuple): rows, w = rows
        else: w = cols
        if fixed: rows = len(fixed); fs = [('c', v) for r in fixed for v in r]; data.append([tuple(fs[i * w:(i + 1) * w]) for i in range(rows)])
        elif rows: fs = [leaf(f'x{ci}', i) for i in range(rows * w)]; data.append([tuple(fs[i * w:(i + 1) * w]) for i in range(rows)])
        else: data.append(None)
        for p in ps:
            if rows:
                s = p.st.copy(); x = table(s, f'x{ci}', fs, rows, w)
                q = ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'fit', [], dict(x=x), s, op=f'k{ci + 1}'))
            else: q = ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'clear', [], {}, p.st.copy(), op=f'k{ci + 1}'))
            if ctx.I.stmts - n0 > 600_000: ctx.R.undecided('diversity', lab, 'too many paths'); return None
            if q is None: return None
            if not q.results: return ('rejected', ci, sorted({str(excname(z)) for z in q.raises}))
            for v, s in q.results:
                ys = p.ys
                if rows:
                    its = ctx.I.vitems(s, v) if v.k == 'arr' else None
                    if its is None or len(its) != rows or any(z.t is None and z.c is NOC for z in its): ctx.R.undecided('diversity', lab, 'reported values not known'); return None
                    ys = ys + [[z.t if z.t is not None else ('c', z.c) for z in its]]
                nx.append(Path(s.path, s, ys))
        ps = nx
        if len(ps) > 600: ctx.R.undecided('diversity', lab, 'too many paths'); return None
    for p in ps:
        w, s = attr(ctx, o, 's', p.st)
        its = ctx.I.vitems(s, w) if w is not None and w.k == 'arr' else None
        if its is not None and all(z.t is not None or z.c is not NOC for z in its): p.kept = ([z.t if z.t is not None else ('c', z.c) for z in its], tuple(d.const for d in w.shape))
        elif w is not None and w.k == 'arr' and w.shape is not None and all(d is not None and d.const is not None for d in w.shape) and 0 in [d.const for d in w.shape]: p.kept = ([], tuple(d.const for d in w.shape))
    return ps, data
def holds(p, env):
    """Whether the conditions of a path hold at a point."""
    for t, b in p.path:
        if t is None: raise poly.NoForm('condition')
        if bool(poly.evaluate(t, env)) != b: return False
    return True
def greedy(style, order, seq):
    """Reported values and kept set: every observation takes the place which leaves the largest smallest distance, if larger than before."""
    d = DIST[style]; kept, div, out = [], 0.0, []
    for rows in seq:
        if rows is None: kept, div = [], 0.0; continue
        ys = []
        for x in rows:
            if len(kept) <= order: kept.append(x)
            else:
                best, at = div, None
                for k in range(len(kept)):
                    s = kept[:k] + [x] + kept[k + 1:]
                    u = min((d(s[a], s[b]) for a in range(len(s)) for b in range(a + 1, len(s))), default=INF)
                    if u > best: best, at = u, k
                if at is not None: div = best; kept[at] = x
            ys.append(div)
        out.append(ys)
    return out, kept
def spread(data, k):
    fs = [t for rows in data if rows for r in rows for t in r if t[0] != 'c']
    return {t: 3.0 * math.sin(2.1 * j * j + 1.7 * k + 0.4) + (0.37 * j if k % 2 else 0.0) for j, t in enumerate(fs)}
def members(ctx, lab, order, cols, plan, h, site):
    """On every path, every place of the kept set is unused or an observation since the last clear."""
    R = ctx.R; ps, data = h; ok = True
    live = data[max([i for i, r in enumerate(plan) if r is None] + [-1]) + 1:]
    rowset = {r for rows in live if rows for r in rows}
    for p in ps:
        if p.kept is None: ok = None; continue
        its, sh = p.kept
        if len(sh) != 2 or sh[0] != order + 1 or its and sh[1] != cols: R.bad('places', lab, f'{lab}: the kept set has shape {sh} instead of {(order + 1, cols)}', *site, key='places'); ok = False; break
        for i in range(sh[0]) if its else ():
            row = tuple(its[i * cols:(i + 1) * cols])
            if row in rowset or all(t[0] == 'c' and not isinstance(t[1], complex) and t[1] >= BIG for t in row): continue
            if all(t[0] in ('c', 'elt', 'poly') for t in row): R.bad('members', lab, f'{lab}: place {i} of the kept set is neither unused nor an observation', *site, key='members'); ok = False; break
            ok = None
        if ok is False: break
    if ok: R.ok('members', lab)
    elif ok is None: R.undecided('members', lab, 'kept set not known')
def reported(ctx, lab, style, order, cols, plan, h, site):
    """Reported values and kept set against the greedy replacement, at fixed points of the formal observations."""
    R = ctx.R; ps, data = h; got = 0; msg = None
    try:
        for k in range(20):
            env = spread(data, k)
            top = 1e-12 * max((abs(v) for rows in data if rows for r in rows for v in (t[1] if t[0] == 'c' else env[t] for t in r)), default=0.0)
            def off(a, b): return abs(a - b) > 1e-9 * abs(b) + top and not a == b
            want, kept = greedy(style, order, [rows and [tuple(t[1] if t[0] == 'c' else env[t] for t in r) for r in rows] for rows in data])
            at = [p for p in ps if holds(p, env)]
            if not at: raise poly.NoForm('no path')
            for p in at:
                have = [[value(t, env) for t in ys] for ys in p.ys]; flat = []
                cut = 0
                for rows in data:
                    if rows is None: flat.append(None)
                    else: flat += have[cut]; cut += 1
                for a, b in zip(flat, flat[1:]):
                    if a is not None and b is not None and b < a - 1e-9 * abs(a): msg = ('monotone', f'the reported diversity decreases from {a:.6g} to {b:.6g}')
                if msg is None and any(off(a, b) for ys, ws in zip(have, want) for a, b in zip(ys, ws)):
                    a, b = next((a, b) for ys, ws in zip(have, want) for a, b in zip(ys, ws) if off(a, b))
                    msg = ('reported', f'the reported diversity is {a:.6g} where the largest smallest distance is {b:.6g}')
                if msg is None and p.kept is not None and p.kept[0] and have and have[-1] and have[-1][-1] > 0.0 and order > 0:
                    m = [tuple(value(t, env) for t in p.kept[0][i * cols:(i + 1) * cols]) for i in range(order + 1)]
                    u = min(DIST[style](m[a], m[b]) for a in range(len(m)) for b in range(a + 1, len(m)))
                    if off(have[-1][-1], u): msg = ('kept', f'the reported diversity is {have[-1][-1]:.6g} where the smallest distance in the kept set is {u:.6g}')
                got += 1
            if msg: break
    except (poly.NoForm, OverflowError, ZeroDivisionError, TypeError, ValueError, IndexError): R.undecided('diversity', lab, 'not in closed form'); return
    if msg: R.bad(msg[0], lab, f'{lab}: {msg[1]}', *site, key=f'{msg[0]}')
    elif got: R.ok('diversity', lab)
def diversity(ctx, plans, site):
    for style in DIST:
        for order, cols, plan in plans:
            if not ctx.mine(): continue
            lab = f'DiversityModel( {style}, {order} ), {cols} features, {" + ".join("clear" if r is None else f"{len(r)} given" if isinstance(r, list) else str(r) for r in plan)} observations'
            h = history(ctx, lab, style, order, cols, plan)
            if h is None: continue
            if h[0] == 'rejected': ctx.R.bad('diversity', lab, f'{lab}: rejected with {", ".join(h[2])}', *site, key='rejected'); continue
            members(ctx, lab, order, cols, plan, h, site)
            reported(ctx, lab, style, order, cols, plan, h, site)
def given(n, w, k=0): return [[4.0 * math.sin(2.3 * i * i + 1.1 * j + 0.7 * k) + 0.05 * i * (-1) ** (i + j) for j in range(w)] for i in range(n)]
def close(n, p):
    """Observations of which the one at a place is close to another, and one which belongs into its place."""
    r = [10.0 * i for i in range(n)]; r[p] = r[2] + 1.0 if p == 1 and n > 3 else r[p - 1] - 1.0
    return [[v] for v in r + [10.0 * n + 7.0]]
def c28(ctx):
    poly.REAL.clear(); poly.REAL.update(f'x{i}' for i in range(8))
    plans = [(0, 1, (3,)), (0, 2, (1, 2)), (1, 1, (1,)), (1, 1, (4,)), (1, 2, (4,)), (1, 3, (3,)), (1, 1, (1, 3)), (1, 1, (3, 1)), (1, 2, (2, 1, 1)), (2, 1, (2, 1)), (2, 1, (4,)), (2, 2, (4,)), (2, 1, (3, 1)), (3, 1, (2, 2)), (1, 1, (5,)), (1, 2, (3, 2)), (1, 1, (3, None, 3)), (1, 1, (3, None, 1)), (2, 2, (1, None, 2))]
    if ctx.tier != 'quick': plans += [(1, 2, (5,)), (1, 1, (2, 2, 1)), (1, 1, (6,)), (2, 3, (4,))]
    more = ctx.limits(5, 12, 'DiversityModel'); ctx.room(400)
    # given observations: histories too long for formal ones
    plans += [(2, 1, (given(3, 1), 1)), (2, 2, (given(40, 2),)), (3, 1, (given(9, 1), given(9, 1, 5))), (4, 2, (given(16, 2),)), (6, 3, (given(12, 3),)), (5, 1, (given(20, 1, 2), None, given(9, 1, 3))), (8, 2, (given(13, 2),)), (9, 1, (given(14, 1, 1),)), (1, 20, (given(6, 20),)), (0, 3, (given(5, 3),)), (3, 1, ([[-1e3], [1e-3], [0.0], [2.0], [-1e3], [1e6], [1e-3], [5.0]],)), (2, 2, ([[1.0, 1.0]] * 4 + [[1.0, 2.0], [3.0, 1.0], [1.0, 1.0], [-1.0, -5.0]],)), (2, 1, (given(7, 1, 4), given(1, 1, 9), given(1, 1, 12), given(2, 1, 13)))]
    plans += [(q, 1, tuple(x for p in range(q + 1) for x in (close(q + 1, p), None))[:-1]) for q in (1, 3, 5, 8)] + [(q, 1, (close(q + 1, q), None, close(q + 1, 0))) for q in more if q > 8] + [(1, 1, (given(q + 2, 1),)) for q in ctx.limits(12, 250, 'DiversityModel')] + [(1, q, (given(5, q),)) for q in ctx.limits(12, 60, 'DiversityModel')]
    plans += [(1, 1, (given(3, 1), given(q + 1, 1))) for q in ctx.limits(12, 250, 'DiversityModel')]
    plans += [(q, 2, ([[10.0 * i + (q == i) * -9.0, 10.0 * ((5 * i - 5 * (q == i)) % (q + 1))] for i in range(q + 1)] + [[10.0 * q + 27.0, 4.0]],)) for q in ctx.limits(12, 15, 'DiversityModel') if q < 16]
    # large magnitudes
    plans += [(2, 1, ([[v * m] for v in (1.0, 5.0, 2.0, 9.0, -3.0)], given(4, 1))) for m in (1e9, 1e13, 1e100, 1e-9)] + [(2, 2, ([[v * 1e15, v] for v in (1.0, 5.0, 2.0, 9.0, -3.0)],))]
    plans += [(1, 1, (q,)) for q in more if q < 7] + [(q, 1, (q,)) for q in more] + [(1, q, (3,)) for q in more]
    diversity(ctx, plans, ctx.site('DiversityModel', 'fit'))

# ------------------------------------------------------------------ life cycle: C19
PAIR = [((1., 2.), (3., 5.), (2., 1.), (-1., 0.), (.5, .25), (4., 1.)), ((.1,), (.7,), (-.4,), (1.5,), (2.,), (-1.1,)), ((1., 0., 2.), (.5, 1., -1.), (2., -1., .25), (0., .5, 1.), (-1., 2., .5), (1.5, 1., 1.))]
def mahalanobis(data, ys, reg, zs, n):
    par = {c: gauss([r for r, k in zip(data, ys) if k == c], reg) for c in sorted(set(ys))}
    return lambda env, i, c: quad([env[t] for t in zs[i * n:(i + 1) * n]], *par[c])
def c19(ctx):
    poly.REAL.clear(); poly.REAL.update('xyzuv'); poly.REAL.update(f'x{i}' for i in range(8))
    R, I = ctx.R, ctx.I
    def samples(st, name, rows, n): return table(st, name, [('c', 0.5 * math.sin(1.3 * i)) for i in range(rows * n)], rows, n)
    def plain(st, name, dims):
        st.heap['arg:' + name] = Cell('arr', elem=V('num', dt=KD('f'), deps=frozenset(['arg:' + name]), mv=frozenset([name])))
        return V('arr', dt=KD('f'), shape=tuple(Dim(d) for d in dims), locs=frozenset(['arg:' + name]))
    def fit(cls, lab, o, st, data, ys, op, name='x'):
        x = table(st, name, [('c', v) for r in data for v in r], len(data), len(data[0])); y = labels(st, ys, name + 'y')
        q = only(ctx, 'fit', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'fit', [], dict(x=x, y=y), st, op=op)), cls, 'fit', 'training data')
        return None if q is None else q[1]
    def refused(cls, rule, lab, o, st, x, op):
        """No path of a prediction returns."""
        q = ctx.guard(rule, lab, lambda: ctx.D.method(o, 'predict', [], dict(x=x), st.copy(), op=op))
        if q is None: return
        if q.results: R.bad(rule, lab, f'{lab}: predict returns instead of raising an exception', *ctx.site(cls, 'predict'), key=f'{cls}|{rule}')
        elif q.raises: R.ok(rule, lab)
        else: R.undecided(rule, lab, 'no outcome')
    for cls in ('GaussianModel', 'GaussianMixtureModel'):
        # untrained
        kws = [dict(regularize=vconst(0.5))] if cls == 'GaussianModel' else [dict(order=vconst(2), index=vconst(10), regularize=vconst(0.5)), dict(order=vconst(1))]
        for kw in kws:
            for pre in ('', 'regularize', 'index', 'mismatch', 'real', 'empty', 'flat'):
                if pre == 'index' and cls == 'GaussianModel' or not ctx.mine(): continue
                st = blank(I); lab = f'{cls} constructed{f", {pre} assigned" if pre in ("regularize", "index") else f", then a rejected training ( {pre} )" if pre else ""}'
                r = build(ctx, cls, lab, st, **kw)
                if r is None: continue
                o, st = r; sts = [st]
                if pre in ('regularize', 'index'):
                    q = ctx.guard('analysis', lab, lambda: ctx.D.set(o, pre, vconst(0.25 if pre == 'regularize' else 5), st, op='k1'))
                    if q is None: continue
                    sts = [s for v, s in q.results]
                elif pre:
                    x = samples(st, 'x', 4, 2); y = labels(st, (0, 1, 1) if pre == 'mismatch' else (0, 1, 1, 0))
                    if pre == 'real': y = plain(st, 'y', (4,))
                    if pre == 'empty': x = plain(st, 'x', (0, 2)); y = plain(st, 'y', (0,)).r(dt=KD('i'))
                    if pre == 'flat': x = plain(st, 'x', (4,))
                    q = ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'fit', [], dict(x=x, y=y), st, op='k1'))
                    if q is None: continue
                    if q.results: R.undecided('untrained', lab, 'training is not rejected'); continue
                    sts = [z.st for z in q.raises]
                for s in sts:
                    for rows, n in ((1, 2), (3, 1), (2, 3)): refused(cls, 'untrained', f'{lab}, predict of {rows} samples of {n} features', o, s, plain(s, 'z', (rows, n)), 'k2')
                    s2 = s.copy(); refused(cls, 'untrained', f'{lab}, predict of any samples', o, s2, plain(s2, 'z', (1, 2)).r(shape=(atom('z.M', 1), atom('z.N', 1))), 'k2')
                    refused(cls, 'untrained', f'{lab}, predict of any samples', o, s2, plain(s2, 'z', (1, 2)).r(shape=(Dim.sym('z.M'), Dim.sym('z.N'))) if hasattr(Dim, 'sym') else plain(s2, 'z', (4, 2)), 'k2')
        kw = kws[0]; reg = 0.5
        # another width
        for data in PAIR:
            n = len(data[0])
            for ys in ((0, 1, 0, 1, 0, 1), (4, 4, 4, -2, -2, 9)):
                if not ctx.mine(): continue
                lab = f'{cls} trained with samples of {n} features'
                st = blank(I); r = build(ctx, cls, lab, st, **(kw if cls == 'GaussianModel' else kws[1]))
                if r is None: continue
                st = fit(cls, lab, r[0], r[1], data, ys, 'k1')
                if st is None: continue
                for dims in [(rows, w) for rows in (1, 2, n) for w in (1, 2, 3, 4, 6) if w != n] + [(n,), (2 * n,), (1, 1, n)]: refused(cls, 'width', f'{lab}, predict of shape {dims}', r[0], st, plain(st, 'z', dims), 'k2')
        # training again
        for d1 in PAIR:
            for d2 in PAIR:
                for y1, y2 in (((0, 1, 0, 1, 2, 2), (7, 7, 3, 3, 7, 3)), ((5, 5, 2, 2, 5, 2), (1, 0, 1, 0, 2, 2)), ((4, 4, 4, 4, 4, 4), (1, 2, 1, 2, 1, 2)), ((1, 2, 1, 2, 1, 2), (4, 4, 4, 4, 4, 4)), ((3, 1, 3, 1, 3, 1), (1, 3, 1, 3, 3, 1)), ((0, 1, 0, 1, 0, 1), (-3, 2, -3, 0, 2, 0))):
                    if not ctx.mine(): continue
                    n1, n = len(d1[0]), len(d2[0])
                    d2r = tuple(reversed(d2)); order = 1
                    lab = f'{cls} trained with labels {y1} and {n1} features, then with labels {y2} and {n} features'
                    st = blank(I); r = build(ctx, cls, lab, st, **(kw if cls == 'GaussianModel' else dict(order=vconst(1), index=vconst(9), regularize=vconst(0.5))))
                    if r is None: continue
                    st = fit(cls, lab, r[0], r[1], d1, y1, 'k1')
                    if st is None: continue
                    st = fit(cls, lab, r[0], st, d2r, y2, 'k2', 'u')
                    if st is None: continue
                    if n1 != n: refused(cls, 'width', f'{lab}, predict of {n1} features', r[0], st, plain(st, 'w', (2, n1)), 'k3')
                    zs = forms('z', n, 'f'); z = table(st, 'z', zs, 1, n)
                    q = only(ctx, 'retrained', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(r[0], 'predict', [], dict(x=z), st, op='k3')), cls, 'predict', 'a sample')
                    if q is None: continue
                    names = sorted(set(y2))
                    if cls == 'GaussianModel':
                        score = mahalanobis(d2r, y2, reg, zs, n)
                        def envs(ts): return [{t: (1 + k % 3) * math.sin(2.1 * j + 1.7 * k + 0.4) + 0.7 * (k % 2) for j, t in enumerate(zs)} for k in range(24)]
                    else:
                        score, envs = mixture({c: [x for x, k in zip(d2r, y2) if k == c] for c in names}, 1, 9, 0.5, zs, n)
                    verdict(ctx, lab, q[1], q[0], 1, score, ctx.site(cls, 'predict'), f'{cls}|retrained', envs, names)
    # clearing
    plans = [(1, 1, (None, 3)), (1, 1, (2, None, 3)), (1, 1, (4, None, 3)), (1, 2, ((3, 1), None, 3)), (1, 1, ((3, 2), None, None, 3)), (2, 1, (4, None, 3)), (0, 1, (2, None, 1)), (2, 2, ((2, 3), None, 1, None, 2)), (1, 1, (3, None, 1, 2))]
    plans += [(2, q, (given(5, q), None, given(5, q, 3))) for q in sorted({8, 20, *ctx.limits(4, 60, 'DiversityModel')})] + [(q, 2, (given(q + 3, 2), None, given(q + 3, 2, 3))) for q in sorted({0, 5, 9, *ctx.limits(4, 12, 'DiversityModel')})] + [(1, 1, (given(q, 1), None, given(4, 1, 3))) for q in sorted({30, *ctx.limits(4, 250, 'DiversityModel')})]
    plans += [(2, 2, (given(5, 3), None, given(5, 2, 3))), (2, 3, (given(5, 2), None, given(6, 3, 3))), (1, 1, (given(4, 9), None, None, given(4, 1, 3)))]
    ctx.room(400)
    diversity(ctx, plans, ctx.site('DiversityModel', 'clear'))
