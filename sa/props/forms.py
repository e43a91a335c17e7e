"""C20: exact forms of the distances."""
from ..core import *
from .. import interp as ip
from .. import poly
from .tables import signal, leaf, same
import math
def canon(t):
    """Canonical term: polynomials over canonical atoms, arguments of symmetric functions sorted."""
    if not isinstance(t, tuple) or not t: return t
    h = t[0]
    if h in ('c', 'elt', 'par'): return t
    if h == 'poly':
        r = {}
        for m, c in t[1]:
            q = poly.const(c)
            for a, e in m:
                a = canon(a)
                if a[0] in ('abs', 'absolute') and e % 2 == 0 and real(a[1]): q = poly.pmul(q, poly.ppow(poly.shallow(a[1]), e))
                else: q = poly.pmul(q, poly.ppow(poly.shallow(a), e))
            r = poly.padd(r, q)
        return rounded(r)
    a = tuple(canon(x) for x in t[1:])
    if h in ('abs', 'absolute', 'fabs') and len(a) == 1:
        p = poly.shallow(a[0]); c = poly.pconst(p)
        if c is not None: return ('c', abs(c))
        k = sorted(p.items(), key=repr)[0][1]
        if len(p) == 1 and all(nonneg(x) for x in poly.atoms(p)): return rounded({m: abs(v) for m, v in p.items()})
        if isinstance(k, (int, float)) and k < 0: p = poly.padd({}, p, -1)
        return ('abs', rounded(p))
    if h in ('max', 'maximum', 'min', 'minimum'):
        n = h[:3]; out = []
        for x in a: out += list(x[1:]) if isinstance(x, tuple) and x and x[0] == n else [x]
        out = sorted(set(out), key=repr)
        return out[0] if len(out) == 1 else (n, *out)
    if h == 'sqrt' and len(a) == 1: return ('pow', a[0], ('c', 0.5))
    if h in ('pow', 'power', 'float_power') and len(a) == 2:
        if a[1] == ('c', 0.5) or a[1][0] == 'c': return ('pow', *a)
    return (h, *a)
def rounded(p): return poly.rebuild({m: (poly._rnd(c)) for m, c in p.items() if abs(c) > 1e-15})
def nonneg(a): return isinstance(a, tuple) and a[0] in ('abs', 'hypot')
def real(t): return not any(isinstance(a, tuple) and a[0] == 'c' and isinstance(a[1], complex) for a in [t]) and all(x[1] in poly.REAL for x in poly.leaves(t)) and not any(isinstance(c, complex) for c in (dict(t[1]).values() if t[0] == 'poly' else ()))
def subst(t, m):
    if not isinstance(t, tuple) or not t: return t
    if t in m: return m[t]
    if t[0] == 'c': return t
    if t[0] == 'poly':
        r = {}
        for mono, c in t[1]:
            q = poly.const(c)
            for a, e in mono: q = poly.pmul(q, poly.ppow(poly.shallow(subst(a, m)), e))
            r = poly.padd(r, q)
        return poly.rebuild(r)
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
POINTS = [[0.25, -1.75, 2.875, 0.75, -0.5, 1.25, 5.125, -2.25], [-3.125, 0.25, 0.25, -0.875, 4.5, -1.125, 0.625, 7.75], [1.0, 2.0, -3.0, 4.0, 10.0, -20.0, 30.0, 0.5], [-6.0, -5.0, -4.0, -3.5, 2.5, 2.25, -0.125, 9.0]]  # dyadic: sums and products are exact
def env(n, k, swap=False, scale=1.0, perm=None, equal=False):
    p = POINTS[k]; idx = perm or range(n); e = {}
    for i, j in enumerate(idx):
        x, y = (p[j % 4] + 8 * (j // 4) * (-1) ** j) * scale, p[4 + j % 4] * scale
        if equal: y = x
        if swap: x, y = y, x
        e[('elt', 'x', i)], e[('elt', 'y', i)] = x, y
    return e
def values(t, *envs):
    out = []
    for e in envs:
        try: v = poly.evaluate(t, e)
        except poly.NoForm: return None
        out.append(v)
    return out
def differ(a, b): return abs(a - b) > 1e-9 * max(1.0, abs(a), abs(b))
def distances(ctx):
    """( style, length, term or None, inst ) of every distance of the table."""
    I = ctx.I
    poly.REAL.clear()
    st = blank(I); ci = ctx.D.cls('DiversityModel')
    r = ctx.guard('analysis', 'DISTANCE', lambda: ctx.D.get(V('cls', c=ci), 'DISTANCE', st))
    tab = None
    if r is not None and r.results and r.results[0][0].k == 'dict':
        v, st = r.results[0]
        its = I.cell(st, next(iter(v.locs))).items
        if isinstance(its, dict): tab = its
    if tab is None: ctx.R.undecided('distance', 'DiversityModel', 'no table of distances'); return
    for k in DISTANCE:
        f = tab.get(k)
        if f is None: ctx.R.undecided('distance', k, 'not in the table'); continue
        more = ctx.limits(5, 40, 'DiversityModel'); ctx.room(max(more, default=0) + 2)
        for n in [1, 2, 3, 4] + more:
            s = st.copy()
            x = signal(s, 'x', 1, n, 'f', [leaf('x', i) for i in range(n)]); y = signal(s, 'y', 1, n, 'f', [leaf('y', i) for i in range(n)])
            q = ctx.guard('distance', k, lambda: ctx.D.run('k2', lambda: I.call(f, [x, y], {}, s, NODE)))
            if q is None: continue
            if len(q.results) != 1: ctx.R.undecided('distance', k, 'result not decided'); continue
            w = q.results[0][0]
            yield k, n, w.t if w.k == 'num' else None, w
def table_line(ctx):
    f, n = ctx.site('DiversityModel', '__init__')
    try:
        import ast
        for s in ctx.I.classes['DiversityModel'].node.body:
            t = s.target if isinstance(s, ast.AnnAssign) else (s.targets[0] if isinstance(s, ast.Assign) else None)
            if t is not None and getattr(t, 'id', '') == 'DISTANCE': return f, s.lineno
    except Exception: pass
    return f, n
def c20(ctx):
    R = ctx.R
    f, ln = table_line(ctx)
    for k, n, t, w in distances(ctx):
        lab = f'{k} distance of {n} elements'
        def rule(name, proved, pairs, msg):
            """pairs: ( left, right ) values which must agree; proved: equality of canonical forms."""
            if t is None: R.undecided(name, lab, 'no closed form'); return
            if pairs is None: 
                if proved: R.ok(name, lab)
                else: R.undecided(name, lab, 'not evaluated')
                return
            if any(differ(a, b) for a, b in pairs): R.bad(name, lab, f'the {k} distance of vectors of {n} elements {msg}', f, ln, key=f'{name}|{k}')
            elif proved: R.ok(name, lab)
            else: R.undecided(name, lab, 'forms are not identical')
        if t is None:
            for name in ('symmetric', 'zero', 'homogeneous', 'order-free', 'non-negative'): R.undecided(name, lab, 'no closed form')
            continue
        try: c = canon(t)
        except (poly.NoForm, TypeError): c = None
        P = range(len(POINTS)); base = values(t, *[env(n, p) for p in P])
        def versus(g, *envs):
            v = values(t, *envs)
            return None if v is None or base is None else [(a, g(b)) for a, b in zip(v, base)]
        X, Y = [('elt', 'x', i) for i in range(n)], [('elt', 'y', i) for i in range(n)]
        eq = lambda m: c is not None and canon(subst(t, m)) == c
        rule('symmetric', eq({**dict(zip(X, Y)), **dict(zip(Y, X))}), versus(lambda b: b, *[env(n, p, swap=True) for p in P]), 'changes when the two vectors are exchanged')
        rule('zero', c is not None and canon(subst(t, dict(zip(Y, X)))) in (('c', 0), ('c', 0.0), ('pow', ('c', 0), ('c', 0.5))) or c is not None and zeroform(canon(subst(t, dict(zip(Y, X))))), (lambda v: None if v is None else [(a * 1e5, 0.0) for a in v])(values(t, *[env(n, p, equal=True) for p in P])), 'is not zero for equal vectors')
        double = versus(lambda b: 2.0 * b, *[env(n, p, scale=2.0) for p in P])
        for z in (2.0 ** 16, 2.0 ** -16, 2.0 ** 48, 2.0 ** -48):
            if n > 4 and not 1e-6 < z < 1e6: continue
            try: u, v = values(t, *[env(n, p, scale=z) for p in P]), values(t, *[env(n, p, scale=2.0 * z) for p in P])
            except OverflowError: continue
            if double is not None and u is not None and v is not None: double += [(a / (2.0 * z), b / z) for a, b in zip(v, u)]
        rule('homogeneous', w.lin == ('A', 1), double, 'does not double when all data are doubled')
        if n > 1:
            perm = list(range(1, n)) + [0]
            rule('order-free', eq({**{X[i]: X[j] for i, j in enumerate(perm)}, **{Y[i]: Y[j] for i, j in enumerate(perm)}}), versus(lambda b: b, *[env(n, p, perm=perm) for p in P]), 'depends on the order of the elements')
        if base is not None and any(isinstance(b, complex) or b < -1e-12 for b in base): R.bad('non-negative', lab, f'the {k} distance of vectors of {n} elements is negative or not real', f, ln, key=f'non-negative|{k}')
        elif w.iv is not None and w.iv[0] >= 0: R.ok('non-negative', lab)
        else: R.undecided('non-negative', lab, 'no bound')
def zeroform(c):
    if not isinstance(c, tuple) or not c: return False
    if c[0] == 'c': return c[1] == 0
    if c[0] == 'pow': return zeroform(c[1]) and c[2][0] == 'c' and c[2][1] > 0
    if c[0] in ('abs', 'max', 'min', 'sqrt'): return all(zeroform(x) for x in c[1:])
    return False
def expected(k, n, e):
    d = [abs(e[('elt', 'x', i)] - e[('elt', 'y', i)]) for i in range(n)]
    return {'Chebyshev': max(d), 'Euclidean': math.sqrt(sum(x * x for x in d)), 'Geometric': math.prod(d) ** (1.0 / n), 'Manhattan': sum(d)}[k]
def own_distance(ctx):
    """C18: each style computes the distance it is documented as."""
    R = ctx.R
    f, ln = table_line(ctx)
    for k, n, t, w in distances(ctx):
        lab = f'{k} distance of {n} elements'
        es = [env(n, p) for p in range(len(POINTS))]
        v = values(t, *es) if t is not None else None
        if v is None: R.undecided('style-design', lab, 'no closed form')
        elif any(differ(a, expected(k, n, e)) for a, e in zip(v, es)): R.bad('style-design', lab, f'the style {k} of DiversityModel does not compute the {k} distance', f, ln, key=f'DiversityModel|design|{k}')
        else: R.ok('style-design', lab)
