"""C22, C24, C25, C29, C33: delay lines and what the filters built on them compute, in exact forms over bounded lengths."""
import cmath, math, random
from ..core import *
from . import tables
from .. import poly
from .tables import signal, leaf, same, bad as differs
C0 = ('c', 0.0)
def add(a, b): return poly.fold('add', a, b)
def sub(a, b): return poly.fold('sub', a, b)
def mul(a, b): return poly.fold('mul', a, b)
def num(c): return poly.rebuild(poly.const(c))
def dot(a, b):
    r = C0
    for x, y in zip(a, b): r = add(r, mul(x, y))
    return r
def forms(label, n, kind, im=None):
    """Formal real or complex values."""
    a = [leaf(label, i) for i in range(n)]
    return a if kind == 'f' else [add(a[i], mul(('c', 1j), leaf(im or label + "'", i))) for i in range(n)]
def vec(st, label, fs, kind='f', cont='arr', const=False):
    """Argument vector of given forms; constants are constants."""
    its = [V('num', dt=KD(kind), deps=frozenset([f'arg:{label}']), lin='K', mv=frozenset([label]), t=t) if t[0] != 'c' else vconst(t[1]).r(deps=frozenset([f'arg:{label}'])) for t in fs]
    its = [x.r(dt=KD(kind)) for x in its]
    st.heap['arg:' + label] = Cell(cont, elem=None if cont == 'list' else joined(its, kind), items=tuple(its))
    if cont == 'list': return V('list', locs=frozenset(['arg:' + label]), shape=(Dim(len(fs)),))
    return V('arr', dt=KD(kind), shape=(Dim(len(fs)),), locs=frozenset(['arg:' + label]))
def joined(its, kind):
    if not its: return V('num', dt=KD(kind))
    r = its[0]
    for q in its[1:]: r = ip.vjoin(r, q) if hasattr(ip, 'vjoin') else r
    return r
from .. import interp as ip
def attr(ctx, o, name, st):
    r = ctx.guard('analysis', name, lambda: ctx.D.get(o, name, st.copy(), op='g'))
    return r.results[0] if r and len(r.results) == 1 else (None, st)
def only(ctx, rule, lab, r, cls, meth, what):
    """The single outcome of a step; a rejection on every path is a violation."""
    if r is None: return None
    if not r.results:
        f, n = ctx.site(cls, meth)
        ctx.R.bad(rule, lab, f'{what} is rejected ({", ".join(sorted({str(excname(o)) for o in r.raises}))})', f, n, key=f'{rule}|rejected|{cls}|{meth}'); return None
    if len(r.results) > 1: ctx.R.undecided(rule, lab, 'path not decided'); return None
    return r.results[0]
def check(ctx, rule, lab, st, v, want, site, msg, key):
    e = same(ctx, st, v, want) if v is not None else None
    if e: ctx.R.ok(rule, lab)
    elif e is None:
        if v is None or v.k != 'arr': ctx.R.undecided(rule, lab, 'not in closed form')
        else:
            from .laws import agree
            e = agree(ctx, rule, lab, st, v, want, site, msg, key, path=st.path)
    else: ctx.R.bad(rule, lab, f'{msg} ({differs(ctx, st, v, want)})', *site, key=key)
    return e
def fir(b, s, xs):
    s = list(s); y = []
    for x in xs:
        s = [x] + s[:-1]; y.append(dot(b, s))
    return y, s
def iir(a, b, s, xs):
    s = list(s); y = []
    c = [add(mul(p, b[0]), q) for p, q in zip(a, b)]
    for x in xs:
        w = add(s[0], dot(a, s))
        s = ([x, w] + s[1:])[:max(len(s), 1)]
        y.append(dot(c, s))
    return y, s

# ------------------------------------------------------------------ C29
SETS = (([0.0], [0.75]), ([0.0, 0.5], [0.25, 0.5]), ([0.0, 0.5], [1.0, 0.5]), ([0.0, 0.5, -0.25], [0.25, 0.5, 0.25]), ([0.0, -0.5, -0.25], [0.5, -1.0, 0.5]), ([0.0, 0.25, 0.125, -0.0625], [2.0, 1.0, 0.5, 3.0]), ([0.0, 0.75, -0.5, 0.125, -0.0625], [0.0, 1.0, -0.5, 0.25, 1.0]))
def run(ctx, cls, o, st, fs, kind, cont, op):
    v = vec(st, 'x' + op, fs, kind, cont)
    return ctx.guard('analysis', f'{cls}.filter', lambda: ctx.D.method(o, 'filter', [v], {}, st, op=op))
def line(ctx, cls, lab, o, st, model, s0, kinds, plan, cont='arr'):
    """Consecutive calls of filter compared with a model ( state, samples ) -> ( outputs, state )."""
    site = ctx.site(cls, 'filter')
    s = list(s0)
    for i, (n, k) in enumerate(plan):
        xs = forms(f'x{i}', n, k)
        r = only(ctx, 'filter', lab, run(ctx, cls, o, st, xs, k, cont, f'k{i + 1}'), cls, 'filter', 'a signal')
        if r is None: return
        v, st = r
        y, s = model(s, xs)
        w = f'{lab}, call {i + 1} with {n} sample{"s" if n > 1 else ""}'
        check(ctx, 'output', w, st, v, y, site, f'{w}: the output is not the convolution of coefficients and most recent samples', f'output|{cls}')
        q, st2 = attr(ctx, o, 's', st)
        if q is None: ctx.R.undecided('state', w, 'state not found'); return
        its = ctx.I.vitems(st2, q)
        if cls != 'FirFilter' and its and its[0].t is not None and len(s) > 1:
            # the first place may hold the input or the intermediate value of the newest sample; the others are the history
            check(ctx, 'state', w, st2, part(ctx, st2, q, its[1:]), s[1:], site, f'{w}: the state does not hold the most recent intermediate values, newest first', f'state|{cls}')
        else: check(ctx, 'state', w, st2, q, s, site, f'{w}: the state does not hold the most recent samples, newest first', f'state|{cls}')
def part(ctx, st, v, its):
    st.heap['arg:part'] = Cell('arr', elem=its[0] if its else None, items=tuple(its))
    return v.r(locs=frozenset(['arg:part']), shape=(Dim(len(its)),), cur=None)
def build(ctx, cls, lab, st, **kw):
    return only(ctx, 'construct', lab, ctx.guard('analysis', lab, lambda: ctx.D.construct(cls, kw=kw, st=st)), cls, '__init__', f'{lab}')
def c29(ctx):
    poly.REAL.clear()
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    more = ctx.limits(6, 140, 'FirFilter', 'IirFilter'); ctx.room(max(more, default=0) + 4)
    plans = [((1, 'f'), (2, 'f')), ((3, 'f'), (1, 'f')), ((2, 'c'), (2, 'f')), ((2, 'f'), (2, 'c')), ((5, 'f'), (1, 'c'))]
    for n in range(1, 5):
        for ck in 'fc':
            for given in (0, 1, 2):
                for pi, plan in enumerate(plans):
                    for cont in ('arr', 'list'):
                        if cont == 'list' and pi: continue
                        if not ctx.mine(): continue
                        st = blank(I); b = forms('b', n, ck); s = forms('s', n, 'c' if given == 2 else 'f') if given else [C0] * n
                        lab = f'FirFilter of {n} {"complex" if ck == "c" else "real"} coefficients{", state given" if given else ""}'
                        kw = dict(b=vec(st, 'b', b, ck, cont))
                        if given: kw['s'] = vec(st, 's', s, 'c' if given == 2 else 'f', cont)
                        r = build(ctx, 'FirFilter', lab, st, **kw)
                        if r: line(ctx, 'FirFilter', lab, r[0], r[1], lambda s, x: fir(b, s, x), s, None, plan, cont)
    for q in more:
        # lengths and orders next to the integers in the source
        for n, plan in ((2, ((q, 'f'), (2, 'f'))), (2, ((q, 'c'), (1, 'f'))), (q, ((3, 'f'), (2, 'c')))):
            if not ctx.mine(): continue
            st = blank(I); b = forms('b', n, 'f'); s = forms('s', n, 'f')
            lab = f'FirFilter of {n} real coefficients, state given'
            r = build(ctx, 'FirFilter', lab, st, b=vec(st, 'b', b), s=vec(st, 's', s))
            if r: line(ctx, 'FirFilter', lab, r[0], r[1], lambda s, x: fir(b, s, x), s, None, plan)
            if n == q and q > 40 or plan[0][1] == 'c': continue
            st = blank(I); ca = [0.0, 0.5] + [0.0] * (n - 3) + [-0.25] * (n > 2); cb = [1.0 / (i + 1) for i in range(n)]; a = [('c', x) for x in ca]; b = [('c', x) for x in cb]; s = forms('s', n, 'f')
            lab = f'IirFilter of {n} coefficients, state given'
            r = build(ctx, 'IirFilter', lab, st, a=vec(st, 'a', a), b=vec(st, 'b', b), s=vec(st, 's', s))
            if r: line(ctx, 'IirFilter', lab, r[0], r[1], lambda s, x: iir(a, b, s, x), s, None, plan)
    for n in range(1, 4):
        for ck in 'fc':
            for given in (0, 1):
                for plan in (((1, 'f'), (2, 'f')), ((2, 'f'), (1, 'c')), ((2, 'c'), (1, 'f')), ((3, 'f'),)):
                    if ck == 'c' and n > 2 and plan[0][0] > 1: continue
                    if not ctx.mine(): continue
                    st = blank(I); a = [C0] + forms('a', n, ck)[1:]; b = forms('b', n, 'f'); s = forms('s', n, 'f') if given else [C0] * n
                    lab = f'IirFilter of {n} {"complex" if ck == "c" else "real"} coefficients{", state given" if given else ""}'
                    kw = dict(a=vec(st, 'a', a, ck), b=vec(st, 'b', b))
                    if given: kw['s'] = vec(st, 's', s)
                    r = build(ctx, 'IirFilter', lab, st, **kw)
                    if r: line(ctx, 'IirFilter', lab, r[0], r[1], lambda s, x: iir(a, b, s, x), s, None, plan)
    for ca, cb in SETS:
        for given in (0, 1):
            for plan in plans:
                if not ctx.mine(): continue
                n = len(ca); st = blank(I); a = [('c', x) for x in ca]; b = [('c', x) for x in cb]; s = forms('s', n, 'f') if given else [C0] * n
                lab = f'IirFilter( a = {ca}, b = {cb} ){", state given" if given else ""}'
                kw = dict(a=vec(st, 'a', a), b=vec(st, 'b', b))
                if given: kw['s'] = vec(st, 's', s)
                r = build(ctx, 'IirFilter', lab, st, **kw)
                if r: line(ctx, 'IirFilter', lab, r[0], r[1], lambda s, x: iir(a, b, s, x), s, None, plan)
    # kernels chosen by name
    from .tables import DERIVATIVE, INTEGRAL
    for cls, args in [('DerivativeFilter', dict(derivative=d, order=q)) for d in DERIVATIVE for q in DERIVATIVE[d]] + [('IntegralFilter', dict(order=q)) for q in INTEGRAL]:
        if not ctx.mine(): continue
        lab = f'{cls}( {", ".join(map(str, args.values()))} )'
        r = build(ctx, cls, lab, blank(I), **{k: vconst(v) for k, v in args.items()})
        if not r: continue
        o, st = r
        b, _ = attr(ctx, o, 'b', st); a, _ = attr(ctx, o, 'a', st) if cls == 'IntegralFilter' else (None, None)
        cs = lambda v: [q.t for q in (I.vitems(st, v) or ())] if v is not None else []
        b, a = cs(b), cs(a)
        if not b or any(t is None for t in b + a): R.undecided('kernel', lab, 'kernel not constant'); continue
        line(ctx, cls if cls == 'IntegralFilter' else 'FirFilter', lab, o, st, (lambda s, x: iir(a, b, s, x)) if a else (lambda s, x: fir(b, s, x)), [C0] * len(b), None, ((3, 'f'), (2, 'f')))
    # reset
    for kind in 'fc':
        for n in range(1, 5):
            for cls in ('FirFilter', 'RankFilter', 'DerivativeFilter'):
                if not ctx.mine(): continue
                st = blank(I); b = forms('b', n, 'f')
                lab = f'{cls} with {n} places'
                if cls == 'FirFilter': r = build(ctx, cls, lab, st, b=vec(st, 'b', b), s=vec(st, 's', forms('s', n, 'f')))
                elif cls == 'RankFilter': r = build(ctx, cls, lab, st, index=vconst(0), order=vconst(n - 1))
                else:
                    if n not in (1, 2): continue
                    r = build(ctx, cls, lab, st, derivative=vconst(n), order=vconst(4))
                if r: reset(ctx, cls, lab, *r, kind, None)
        for ca, cb in (*SETS, *NEAR):
            for given in (0, 1):
                if not ctx.mine(): continue
                st = blank(I); lab = f'IirFilter( a = {ca}, b = {cb} )'
                kw = dict(a=vec(st, 'a', [('c', x) for x in ca]), b=vec(st, 'b', [('c', x) for x in cb]))
                if given: kw['s'] = vec(st, 's', forms('s', len(ca), 'f'))
                r = build(ctx, 'IirFilter', lab, st, **kw)
                if r: reset(ctx, 'IirFilter', lab, *r, kind, (ca, cb))
    # given values
    for x in (0.0, 1.0, -3.5, 1e-9, 40.0, 0.5 - 2.0j) if tables.CONC is None else ():
        for n in (1, 2, 3):
            if not ctx.mine(): continue
            st = blank(I); lab = f'FirFilter with {n} places'
            r = build(ctx, 'FirFilter', lab, st, b=vec(st, 'b', forms('b', n, 'f')), s=vec(st, 's', forms('s', n, 'f')))
            if r: reset(ctx, 'FirFilter', lab, *r, 'c' if isinstance(x, complex) else 'f', None, x)
        for ca, cb in (*SETS, *NEAR):
            if not ctx.mine(): continue
            st = blank(I); lab = f'IirFilter( a = {ca}, b = {cb} )'
            r = build(ctx, 'IirFilter', lab, st, a=vec(st, 'a', [('c', z) for z in ca]), b=vec(st, 'b', [('c', z) for z in cb]), s=vec(st, 's', forms('s', len(ca), 'f')))
            if r: reset(ctx, 'IirFilter', lab, *r, 'c' if isinstance(x, complex) else 'f', (ca, cb), x)
# recursive coefficients with a pole close to, and beyond, zero frequency
NEAR = [([0.0, 0.96875], [0.5, 0.25]), ([0.0, 0.5, 0.499], [0.5, 0.25, 0.125]), ([0.0, 1.5, -0.50001], [0.25, 0.5, 0.25]), ([0.0, 0.75, 0.5], [0.5, 0.25, 0.125]), ([0.0, 2.0], [0.5, 0.25]), ([0.0, -0.5, 0.25], [0.0, 0.5, 0.25])]
def reset(ctx, cls, lab, o, st, kind, ab, given=None):
    site = ctx.site(cls, 'reset')
    if given is None:
        x = forms('x', 1, kind)[0]
        v = V('num', dt=KD(kind), deps=frozenset(['arg:x']), lin='L', mv=frozenset(['x']), t=x)
    else: x, v, lab = ('c', given), vconst(given), f'{lab}, reset to {given}'
    r = only(ctx, 'reset', lab, ctx.guard('analysis', f'{cls}.reset', lambda: ctx.D.method(o, 'reset', [v], {}, st, op='k1')), cls, 'reset', f'{lab}: a reset')
    if r is None: return
    st = r[1]
    q, s0 = attr(ctx, o, 's', st)
    if q is None: return
    n = len(ctx.I.vitems(s0, q) or ())
    if ab is None: want = [x] * n
    else:
        w = 1.0 / (1.0 - sum(ab[0]))
        want = [mul(num(w), x)] * n
    if ab is None or n == 1: check(ctx, 'reset', lab, s0, q, [x] * n, site, f'{lab}: a reset does not put every place to the steady state of a constant input', f'reset|{cls}')
    else: check(ctx, 'reset', lab, s0, part(ctx, s0, q, ctx.I.vitems(s0, q)[1:]), want[1:], site, f'{lab}: a reset does not put every place to the steady state of a constant input', f'reset|{cls}')
    if cls == 'RankFilter': return
    r = only(ctx, 'reset', lab, run(ctx, cls, o, st, [x] * 3, kind, 'arr', 'k2'), cls, 'filter', 'a signal')
    if r is None: return
    b, s1 = attr(ctx, o, 'b', r[1])
    bs = [t.t for t in ctx.I.vitems(s1, b) or ()]
    if not bs or None in bs: return
    y = C0
    for t in bs: y = add(y, mul(t, want[-1] if ab else x))
    check(ctx, 'reset-output', lab, r[1], r[0], [y] * 3, site, f'{lab}: a constant input after reset to the same value gives a transient', f'transient|{cls}')

# ------------------------------------------------------------------ C22
def c22(ctx):
    poly.REAL.clear()
    R, I = ctx.R, ctx.I
    def one(cls, na, nb, ns, kinds, cont, fixed=()):
        st = blank(I); kw = {}; given = {}
        ka, kb, ks = kinds
        for k, w in zip('abs', fixed):
            if w is not None: given[k] = [('c', float(v)) for v in w]; kw[k] = vec(st, k, given[k], 'f', cont)
        if na is not None: given['a'] = ([C0] + forms('a', na, ka)[1:])[:na]; kw['a'] = vec(st, 'a', given['a'], ka, cont)
        if nb: given['b'] = forms('b', nb, kb); kw['b'] = vec(st, 'b', given['b'], kb, cont)
        if ns is not None: given['s'] = forms('s', ns, ks); kw['s'] = vec(st, 's', given['s'], ks, cont)
        lab = f'{cls}( ' + ', '.join(f'{k} {[t[1] for t in w]}' if fixed else f'{k} of {len(w)}' for k, w in given.items()) + f' ) from {"lists" if cont == "list" else "arrays"}'
        site = ctx.site(cls, '__init__')
        r = only(ctx, 'construct', lab, ctx.guard('analysis', lab, lambda: ctx.D.construct(cls, kw=kw, st=st)), cls, '__init__', lab)
        if r is None: return
        o, st = r
        top = max(len(w) for w in given.values())
        for k in ('b', 's') + (('a',) if cls == 'IirFilter' else ()):
            q, s2 = attr(ctx, o, k, st)
            its = I.vitems(s2, q) if q is not None and q.k == 'arr' else None
            if its is None: R.undecided('length', lab, f'{k} is not known element by element'); continue
            if len(its) == top: R.ok('length', f'{lab}: {k}')
            else: R.bad('length', lab, f'{lab}: {k} has {len(its)} elements, the longest vector given has {top}', *site, key=f'length|{cls}|{k}'); continue
            check(ctx, 'content', f'{lab}: {k}', s2, q, (given.get(k, []) + [C0] * top)[:top], site, f'{lab}: {k} is not the vector given followed by zeros', f'content|{cls}|{k}')
    more = ctx.limits(6, 140, 'FirFilter', 'IirFilter'); ctx.room(max(more, default=0) + 4)
    for q in more:
        for na, nb, ns in ((None, q, None), (None, 2, q), (None, q, 2)):
            if ctx.mine(): one('FirFilter', na, nb, ns, '-ff', 'arr')
        for na, nb, ns in ((q, 2, None), (2, q, None), (2, 2, q)):
            if ctx.mine(): one('IirFilter', na, nb, ns, 'fff', 'arr')
    # given vectors with zeros
    Z = ([1, 0.5, 0], [0, 0, 1], [0.5], [0, 1e-12, 0, 0], [1e-300, 1], [-1, 0, 0, 0, 2])
    for b in Z:
        for z in (None, [0], [0, 0, 0], [1, 0, 0], [0, 0, 0, 0, 0, 0], [2, 0, 1, 0, 0, 0, 0]):
            for cont in ('arr', 'list'):
                if ctx.mine(): one('FirFilter', None, None, None, '-ff', cont, (None, b, z))
                for a in (None, [0], [0, 0.25, 0], [0, 0, 0, 1e-12], [0, 0, 0, 0, 0.5, 0, 0, 0]):
                    if ctx.mine(): one('IirFilter', None, None, None, 'fff', cont, (a, b, z))
    for nb in range(1, 5):
        for ns in (None, 0, 1, 2, 3, 4, 5):
            for kinds in ('ff', 'cf', 'fc', 'if', 'fi'):
                for cont in ('arr', 'list'):
                    if cont == 'list' and kinds not in ('ff', 'if'): continue
                    if ctx.mine(): one('FirFilter', None, nb, ns, '-' + kinds, cont)
    for na in (None, 0, 1, 2, 3, 4):
        for nb in range(0, 5):
            if not na and not nb: continue
            for ns in (None, 0, 1, 2, 3, 4, 5):
                for kinds in ('fff', 'cff', 'fcf', 'ffc') if ctx.tier != 'quick' or (na or 0) * nb <= 6 else ('fff',):
                    for cont in ('arr', 'list'):
                        if cont == 'list' and (kinds != 'fff' or nb > 3): continue
                        if ctx.mine(): one('IirFilter', na, nb, ns, kinds, cont)

# ------------------------------------------------------------------ C24
def c24(ctx):
    poly.REAL.clear()
    R, I = ctx.R, ctx.I
    site = ctx.site('RankFilter', 'filter')
    top = 4 if ctx.tier == 'quick' else 6
    more = ctx.limits(top, 300, 'RankFilter'); ctx.room(max(more, default=0) + 4)
    for order in sorted({*range(top), *(q for q in more if q < 15)}):
        for index in range(order + 1) if order < top else (0, order // 2, order):
            for kind in 'fc' if order < top else 'f':
                for mode in ('new', 'set', 'state', 'reset'):
                    if mode == 'set' and not order: continue
                    if not ctx.mine(): continue
                    lab = f'RankFilter( {index}, {order} ), {"complex" if kind == "c" else "real"} samples' + {'new': '', 'set': ', index assigned', 'state': ', state assigned', 'reset': ', after reset'}[mode]
                    st = blank(I)
                    r = build(ctx, 'RankFilter', lab, st, index=vconst(index if mode != 'set' else (index + 1) % (order + 1)), order=vconst(order))
                    if r is None: continue
                    o, st = r
                    hist = [C0] * (order + 1)
                    if mode == 'set':
                        r = only(ctx, 'assign', lab, ctx.guard('analysis', lab, lambda: ctx.D.set(o, 'index', vconst(index), st, op='s')), 'RankFilter', 'index', lab)
                        if r is None: continue
                        st = r[1]
                    if mode == 'state':
                        hist = forms('s', order + 1, kind)
                        r = only(ctx, 'assign', lab, ctx.guard('analysis', lab, lambda: ctx.D.set(o, 's', vec(st, 's', hist, kind), st, op='s')), 'RankFilter', 's', lab)
                        if r is None: continue
                        st = r[1]
                        # a state assigned holds the newest sample twice after a call, once before
                        hist = [None] + hist[1:]
                    if mode == 'reset':
                        x = forms('r', 1, kind)[0]
                        r = only(ctx, 'assign', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'reset', [V('num', dt=KD(kind), deps=frozenset(['arg:r']), lin='L', mv=frozenset(['r']), t=x)], {}, st, op='s')), 'RankFilter', 'reset', lab)
                        if r is None: continue
                        st = r[1]; hist = [x] * (order + 1)
                    hist = hist[1:] if mode == 'state' else hist[:-1] if order else []
                    for i, n in enumerate((order + 2, 2) if order != 1 or index or mode != 'new' else (order + 2, 2, *more)):
                        xs = forms(f'x{i}', n, kind)
                        r = only(ctx, 'filter', lab, run(ctx, 'RankFilter', o, st, xs, kind, 'arr', f'k{i + 1}'), 'RankFilter', 'filter', 'a signal')
                        if r is None: break
                        v, st = r
                        its = I.vitems(st, v) if v.k == 'arr' else None
                        if its is None: R.undecided('select', lab, 'outputs are not known element by element'); break
                        if len(its) != n: R.bad('select', lab, f'{lab}: {len(its)} outputs for {n} samples', *site, key='count'); break
                        for q, x in zip(its, xs):
                            win = [x] + hist; hist = win[:-1] if order else []
                            select(ctx, lab, q, win, index, site, kind)
def select(ctx, lab, q, win, index, site, kind):
    R = ctx.R
    t = q.t
    if t is None: R.undecided('select', lab, f'output is not in closed form'); return
    if len(win) == 1 and t == win[0]: R.ok('select', lab); return
    if t[0] == 'pick' and len(t) == 3:
        (_, k, keys), vals = t[1], t[2]
        if any(w not in win for w in vals) or len(vals) != len(keys): R.bad('window', lab, f'{lab}: a value outside the most recent {len(win)} samples takes part in the selection', *site, key='window'); return
        if win[0] not in vals: R.bad('window', lab, f'{lab}: the newest sample does not take part in the selection', *site, key='newest'); return
        if sorted(map(repr, vals)) != sorted(map(repr, win)): R.bad('window', lab, f'{lab}: {len(vals)} values take part in the selection, which are not the most recent {len(win)} samples', *site, key='window'); return
        want = [magnitude(w) for w in vals]
        if any(w is None for w in want): R.undecided('select', lab, 'magnitude'); return
        if list(keys) != want:
            if all(k in vals or k in want for k in keys): R.bad('order', lab, f'{lab}: the samples are ordered by value instead of magnitude', *site, key='order')
            else:
                d = reorders(list(keys), want, kind)
                if d is None: R.undecided('select', lab, 'ordering key not recognised')
                elif d: R.bad('order', lab, f'{lab}: the ordering of the samples differs from that of their magnitudes ( {d} )', *site, key='order')
                elif k % len(vals) != index: R.bad('index', lab, f'{lab}: position {k} of the ordering is selected', *site, key='index')
                else: R.ok('select', lab)
            return
        if k % len(vals) != index: R.bad('index', lab, f'{lab}: position {k} of the ordering is selected', *site, key='index'); return
        R.ok('select', lab); return
    try: p = poly.norm(t, leaf=lambda z: poly.mono(z) if isinstance(z, tuple) and z and z[0] == 'pick' else None)
    except poly.NoForm: R.undecided('select', lab, 'output is not in closed form'); return
    if not all(isinstance(a, tuple) and a and a[0] in ('elt', 'pick', 'par', 'abs') for a in poly.atoms(p)): R.undecided('select', lab, 'output is not in closed form'); return
    if len(p) == 1 and list(p.values())[0] == 1 and len(next(iter(p))) == 1: R.bad('select', lab, f'{lab}: the output {poly.show(p)} is not selected by the ordering', *site, key='unordered'); return
    if all(isinstance(a, tuple) and a and a[0] in ('elt', 'pick', 'par', 'abs') for a in poly.atoms(p)): R.bad('arithmetic', lab, f'{lab}: the output is computed ({poly.show(p)}), not selected', *site, key='arithmetic'); return
    R.undecided('select', lab, 'output is not in closed form')
def reorders(keys, want, kind):
    """Where the keys order samples otherwise than their magnitudes, at points; empty if nowhere and None if not known."""
    ls = sorted({a for t in keys + want for a in poly.leaves(t)}, key=repr)
    for seed in range(60):
        r = random.Random(seed); size, base = (((1.0, 0.0),) * 48 + ((1e-7, 0.0), (1e-12, 0.0), (1e9, 0.0), (1e-9, 1.0)) * 3)[seed]  # of any size, and close to each other
        e = {a: base * (-1) ** i + size * complex(r.uniform(-3, 3), r.uniform(-3, 3) if kind == 'c' else 0.0) for i, a in enumerate(ls)}
        try: ks, ws = ([poly.evaluate(t, e) for t in ts] for ts in (keys, want))
        except (poly.NoForm, KeyError, TypeError): return None
        if any(isinstance(z, complex) for z in ks): return None
        order = lambda zs: sorted(range(len(zs)), key=lambda i: zs[i])
        if order(ks) != order(ws): return f'{[round(abs(z), 3) for z in ws]} is ordered as {[round(z, 3) for z in ks]}'
    return ''
def magnitude(t):
    if t[0] == 'c': return ('c', float(abs(t[1])))
    return ('abs', t)

# ------------------------------------------------------------------ C25
def c25(ctx):
    poly.REAL.clear()
    R, I = ctx.R, ctx.I
    site = ctx.site('PidFilter', 'filter')
    L = ('par', 'limit')
    for kind in 'fc':
        for limit in ('default', 'assigned', 'lowered after the first call'):
            for plan in [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (1, 1, 1)] + [(q,) for q in ctx.limits(4, 9, 'PidFilter')]:
                if limit[0] == 'l' and len(plan) < 2: continue
                if not ctx.mine(): continue
                lab = f'PidFilter, {"complex" if kind == "c" else "real"} samples in calls of {plan}, limit {limit}'
                st = blank(I); b = forms('b', 3, 'f')
                r = build(ctx, 'PidFilter', lab, st, b=vec(st, 'b', b))
                if r is None: continue
                o, st = r
                if limit == 'assigned':
                    poly.REAL.add('limit')
                    r = only(ctx, 'assign', lab, ctx.guard('analysis', lab, lambda: ctx.D.set(o, 'limit', fnum('limit', (0.0, False, INF, False)), st, op='s')), 'PidFilter', 'limit', lab)
                    if r is None: continue
                    st = r[1]
                cur = [([], [], st)]; xs = []
                for i, n in enumerate(plan):
                    new = forms(f'x{i}', n, kind); nxt = []
                    if i == 1 and limit[0] == 'l':
                        low = []; poly.REAL.add('limit')
                        for ys, _, s in cur:
                            r = only(ctx, 'assign', lab, ctx.guard('analysis', lab, lambda: ctx.D.set(o, 'limit', fnum('limit', (0.0, False, INF, False)), s, op='s')), 'PidFilter', 'limit', lab)
                            if r is not None: low.append((ys, None, r[1]))
                        cur = low
                    for ys, _, s in cur:
                        r = run(ctx, 'PidFilter', o, s.copy(), new, kind, 'arr', f'k{i + 1}')
                        if r is None: nxt = None; break
                        if not r.results: R.bad('filter', lab, f'{lab}: a signal is rejected', *site, key='rejected')
                        for v, s2 in r.results:
                            its = I.vitems(s2, v) if v.k == 'arr' else None
                            if its is None: R.undecided('terms', lab, 'outputs are not known element by element'); continue
                            if len(its) != n: R.bad('count', lab, f'{lab}: {len(its)} outputs for {n} samples', *site, key='count'); continue
                            nxt.append((ys + [q.t for q in its], None, s2))
                    if nxt is None: cur = []; break
                    cur = nxt; xs += new
                if limit[0] != 'l':
                    for ys, _, s in cur: pid(ctx, lab, ys, xs, s.path, limit == 'assigned', L, site, kind == 'c')
                if cur: points(ctx, lab, [(ys, s.path) for ys, _, s in cur], plan, kind == 'c', limit != 'default', site, plan[0] if limit[0] == 'l' else 0)
def points(ctx, lab, paths, plan, cplx, limited, site, free=0):
    """At fixed points: the path whose conditions hold gives the outputs of the controller."""
    import random
    R = ctx.R; good, why = 0, 'no point decided'
    for seed in range(24):
        rng = random.Random(f'{seed}'); e = {('elt', 'b', i): rng.uniform(-1, 1) for i in range(3)}
        limit = rng.uniform(0.2, 1.6) if limited else math.inf
        e[('par', 'limit')] = limit; xs = []
        for i, n in enumerate(plan):
            for j in range(n):
                re, im = rng.uniform(-1, 1), rng.uniform(-1, 1)
                e[('elt', f'x{i}', j)] = re; e[('elt', f"x{i}'", j)] = im
        try:
            for i, n in enumerate(plan): xs += [poly.evaluate(t, e) for t in forms(f'x{i}', n, 'c' if cplx else 'f')]
            want, prev, total, close = [], 0, 0, False
            b = [e[('elt', 'b', i)] for i in range(3)]
            for j, x in enumerate(xs):
                close = close or limited and abs(abs(total + x) - limit) < 1e-6
                if j < free or abs(total + x) < limit: total = total + x
                want.append(b[0] * x + b[1] * total + b[2] * (x - prev)); prev = x
            if close: continue
            hit = [ys for ys, path in paths if all(bool(poly.evaluate(t, e)) == w for t, w in path)]
            if len(hit) != 1: why = f'{len(hit)} paths at one point'; continue
            got = [poly.evaluate(y, e) for y in hit[0]]
        except (poly.NoForm, KeyError, TypeError, OverflowError) as err: why = str(err); continue
        good += 1
        for i, (g, w) in enumerate(zip(got, want)):
            if abs(g - w) > 1e-9 * (1 + abs(w)): R.bad('recursion', lab, f'{lab}: output {i} at a point is {complex(g):.4g} instead of {complex(w):.4g} (limit {limit:.4g})', *site, key='recursion'); return
    if good >= 3: R.ok('recursion', lab)
    else: R.undecided('recursion', lab, why)
def pid(ctx, lab, ys, xs, path, limited, L, site, cplx):
    """One path: terms of the controller, and the guard of every change of the integral."""
    R = ctx.R
    cases = [[]]
    try:
        for c, v in path: cases = [x + y for x in cases for y in guard(c, v, L)][:64]
    except poly.NoForm: cases = None
    prev, total = C0, C0
    for y, x in zip(ys, xs):
        if y is None: R.undecided('terms', lab, 'output is not in closed form'); return
        d = split(y)
        if d is None: R.undecided('terms', lab, 'output is not a combination of the coefficients'); return
        e, i, dd, rest = d
        inst = lab
        for name, got, want in (('proportional', e, x), ('derivative', dd, sub(x, prev))):
            if poly.equal(got, poly.norm(want)): R.ok('term', f'{inst}: {name}')
            else: R.bad('term', inst, f'{lab}: the {name} term is {poly.show(got)}', *site, key=f'term|{name}'); return
        if rest: R.bad('term', inst, f'{lab}: the output has a part without coefficient, {poly.show(rest)}', *site, key='term|rest'); return
        prev = x
        up = add(total, x); P = poly.norm(up)
        if poly.equal(i, P):
            if not limited: R.ok('integral', inst)
            elif cases is None: R.undecided('integral', inst, 'condition of a path not recognised')
            else:
                hi = [reach(f, P, cplx)[0] for f in cases]
                if all(h is False for h in hi): R.ok('integral', inst)
                elif any(hi): R.bad('integral', inst, f'{lab}: the integral grows to {poly.show(P)} without its magnitude being within the limit', *site, key='unguarded')
                else: R.undecided('integral', inst, 'guard not recognised')
            total = up
        elif poly.equal(i, poly.norm(total)):
            if not limited and path: R.undecided('integral', inst, 'condition not recognised'); return
            if not limited: R.bad('integral', inst, f'{lab}: a sample is not added to the integral although there is no limit', *site, key='skipped'); return
            if cases is None: R.undecided('integral', inst, 'condition of a path not recognised')
            else:
                lo = [reach(f, P, cplx)[1] for f in cases]
                if all(h is False for h in lo): R.ok('integral', inst)
                elif any(lo): R.bad('integral', inst, f'{lab}: the sample is not added to the integral although the sum may be within the limit', *site, key='held')
                else: R.undecided('integral', inst, 'guard not recognised')
        else:
            if all(isinstance(a, tuple) and a[0] in ('elt', 'par') for a in poly.atoms(i)): R.bad('integral', inst, f'{lab}: the integral becomes {poly.show(i)}, neither the previous value nor the sum', *site, key='form')
            else: R.undecided('integral', inst, 'integral is not in closed form')
            return
def split(y):
    """Coefficients of b0, b1, b2 and the rest; None when not linear in b."""
    p = poly.norm(y); out = [{}, {}, {}, {}]
    for m, c in p.items():
        k = [a for a, e in m if a[:2] == ('elt', 'b')]
        if len(k) > 1 or any(e != 1 for a, e in m if a in k): return None
        if k: out[k[0][2]][tuple(x for x in m if x[0] != k[0])] = c
        elif any(not (isinstance(a, tuple) and a[0] == 'elt') for a, _ in m): return None
        else: out[3][m] = c
    return out
def guard(c, val, L):
    """Disjunction of conjunctions of facts: ( 'in', Q ) magnitude of Q is within the limit, ( 'out', Q ) it is not below, ( 'up', Q ) Q is at most the limit, ( 'over', Q ) Q is at least the limit.
    NoForm if the condition is not recognised."""
    if c is None: raise poly.NoForm('no term')
    if c[0] == 'c': return [[]]
    if c[0] == 'not': return guard(c[1], not val, L)
    if c[0] in ('and', 'or') and len(c) == 3:
        a, b = guard(c[1], val, L), guard(c[2], val, L)
        return [x + y for x in a for y in b] if (c[0] == 'and') == val else a + b
    if c[0] in ('Lt', 'LtE', 'Gt', 'GtE') and len(c) == 3:
        p = poly.padd(poly.norm(c[1], leaf=opaque), poly.norm(c[2], leaf=opaque), -1)
        if c[0] in ('Gt', 'GtE'): p = poly.padd({}, p, -1)
        if not val: p = poly.padd({}, p, -1)
        # p <= 0
        m = ((L, 1),); k = p.pop(m, 0)
        if isinstance(k, complex) or not k:
            sq = p.pop(((L, 2),), 0)
            if sq and not isinstance(sq, complex) and not any(L == a for q in p for a, _ in q): return [[('sqin' if sq < 0 else 'sqout', {q: v / abs(sq) for q, v in p.items()})]]
            raise poly.NoForm('comparison')
        p = {q: v / abs(k) for q, v in p.items()}
        if any(L == a for q in p for a, _ in q): raise poly.NoForm('comparison')
        if len(p) == 1:
            (q, v), = p.items()
            if len(q) == 1 and q[0][1] == 1 and q[0][0][0] in ('abs', 'absolute') and len(q[0][0]) == 2 and not isinstance(v, complex):
                inner = {a: w * abs(v) for a, w in poly.norm(q[0][0][1]).items()}
                if v > 0 and k < 0: return [[('in', inner)]]
                if v < 0 and k > 0: return [[('out', inner)]]
                raise poly.NoForm('comparison')
        if any(a[0] not in ('elt', 'par') for q in p for a, _ in q): raise poly.NoForm('comparison')
        return [[('up', p)]] if k < 0 else [[('over', poly.padd({}, p, -1))]]
    raise poly.NoForm('condition')
def opaque(t): return poly.mono(('abs', t[1])) if isinstance(t, tuple) and t and t[0] in ('abs', 'absolute') and len(t) == 2 and t[1][0] != 'c' else None
def parallel(P, Q):
    """c with Q = c P, or None."""
    if not P or set(P) != set(Q): return None
    k = next(iter(P)); c = Q[k] / P[k]
    return c if poly.equal({m: c * x for m, x in P.items()}, Q) else None
def reach(facts, P, cplx):
    """( may exceed, may stay below ) the limit for the magnitude of P under the facts, each True, False or None ( not known )."""
    facts = [(k, q) for k, q in facts if q]
    if not P: return False, True
    own = []
    for k, q in facts:
        if k in ('sqin', 'sqout'):
            c = parallel(poly.pmul(P, P), q if k == 'sqin' else {m: -x for m, x in q.items()})
            if c is None or isinstance(c, complex) or c <= 0: return None, None
            own.append(('in' if k == 'sqin' else 'out', math.sqrt(c)))
        elif (c := parallel(P, q)) is not None: own.append((k, c))
    if cplx and any(k in ('up', 'over') for k, _ in facts): return None, None
    a = candidates(own)
    hi, lo = any(abs(x) > 1.0 + 1e-9 for x in a), any(abs(x) < 1.0 - 1e-9 for x in a)
    if (not hi and not lo) or not hi and len(own) == len(facts) or not lo and len(own) == len(facts): return hi, lo
    if not hi: lo = None
    if not lo: hi = hi and None
    if not (hi and lo): return (False if hi is False else None), (False if lo is False else None)
    # several forms are constrained: independent forms take their values independently
    reps = []
    for k, q in facts:
        if k in ('sqin', 'sqout'): return None, None
        for r in reps:
            if (c := parallel(r[0], q)) is not None: r[1].append((k, c)); break
        else: reps.append((q, [(k, 1.0)]))
    qs = [r[0] for r in reps]
    if any(not independent(q, qs[:i]) for i, q in enumerate(qs)): return None, None
    if independent(P, qs): return True, True
    c = combine(P, qs)
    if c is None or len(qs) > 4: return None, None
    vals = [0.0]
    for x, r in zip(c, reps): vals = [v + abs(x) * y if cplx else v + x * y for v in vals for y in candidates(r[1])][:4096]
    return (True if any(abs(v) > 1.0 + 1e-9 for v in vals) else (None if cplx else False)), (True if any(abs(v) < 1.0 - 1e-9 for v in vals) else None)
def candidates(own):
    """Ends, interior and far points of the values a form may take, in units of the limit."""
    ends = sorted({s / abs(c) for _, c in own for s in (1.0, -1.0)} | {1.0, -1.0, 0.0})
    pts = ends + [(x + y) / 2.0 for x, y in zip(ends, ends[1:])] + [ends[-1] * 3.0, ends[0] * 3.0]
    def fits(x):
        for k, c in own:
            v = (c * x) if not isinstance(c, complex) else abs(c) * x
            if k == 'in' and abs(v) > 1.0 + 1e-12 or k == 'out' and abs(v) < 1.0 - 1e-12 or k == 'up' and v > 1.0 + 1e-12 or k == 'over' and v < 1.0 - 1e-12: return False
        return True
    return [x for x in pts if fits(x)]
def combine(P, qs):
    """Real coefficients of P in the basis qs, or None."""
    keys = sorted({m for p in [P] + qs for m in p}, key=repr); n = len(qs)
    M = [[complex(q.get(k, 0)) for q in qs] + [complex(P.get(k, 0))] for k in keys]
    r = 0
    for c in range(n):
        p = max(range(r, len(M)), key=lambda i: abs(M[i][c]))
        if abs(M[p][c]) < 1e-9: return None
        M[r], M[p] = M[p], M[r]
        M[r] = [x / M[r][c] for x in M[r]]
        for i in range(len(M)):
            if i != r:
                f = M[i][c]; M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
    if any(abs(row[n]) > 1e-9 for row in M[n:]) or any(abs(M[i][n].imag) > 1e-9 for i in range(n)): return None
    return [M[i][n].real for i in range(n)]
def independent(P, Q):
    """P is not in the linear span of Q ( checked for up to three forms )."""
    keys = sorted({m for p in [P] + Q for m in p}, key=repr)
    rows = [[complex(p.get(k, 0)) for k in keys] for p in Q]
    def rank(M):
        M = [r[:] for r in M]; r = 0
        for c in range(len(keys)):
            p = max(range(r, len(M)), key=lambda i: abs(M[i][c]), default=None)
            if p is None or abs(M[p][c]) < 1e-9: continue
            M[r], M[p] = M[p], M[r]
            for i in range(r + 1, len(M)):
                f = M[i][c] / M[r][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
            r += 1
            if r == len(M): break
        return r
    return rank(rows + [[complex(P.get(k, 0)) for k in keys]]) > rank(rows)

# ------------------------------------------------------------------ C33
def c33(ctx):
    poly.REAL.clear()
    R, I = ctx.R, ctx.I
    site = ctx.site('GoertzelFilter', 'filter')
    for fq in (0.0, 0.25, -0.3, 0.5, -0.5, 0.7, 1.0, -1.0, 0.123456789, -1e-7):
        more = [q for q in ctx.limits(6, 66, 'GoertzelFilter') if fq in (0.25, -0.3) and q not in (6, 7, 9, 10, 11)]; ctx.room(2 * max(more, default=0) + 2)
        for N in sorted({*range(1, 6 if ctx.tier == 'quick' else 9), *more}):
            for kind in 'fcr' if fq in (0.25, -0.3) else 'fc':  # r: complex samples without imaginary part
                for how in ('new', 'assigned'):
                    for wk in 'fc':
                        for plan in ((N,), (2 * N + 1,), (1, N - 1, N) if N > 1 else (1, 1), (N + 1, N - 1) if N > 1 else (2, 1)):
                            if wk == 'c' and (how == 'assigned' or len(plan) > 1): continue
                            if not ctx.mine(): continue
                            w = forms('b', N, wk); st = blank(I)
                            lab = f'GoertzelFilter( b of {N}{" complex" if wk == "c" else ""}, {fq} ), {dict(c="complex", f="real", r="complex ( of zero imaginary part )")[kind]} samples in calls of {plan}{", frequency assigned" if how == "assigned" else ""}'
                            r = build(ctx, 'GoertzelFilter', lab, st, b=vec(st, 'b', w, wk), frequency=vconst(0.125 if how == 'assigned' else fq))
                            if r is None: continue
                            o, st = r
                            if how == 'assigned':
                                r = only(ctx, 'assign', lab, ctx.guard('analysis', lab, lambda: ctx.D.set(o, 'frequency', vconst(fq), st, op='s')), 'GoertzelFilter', 'frequency', lab)
                                if r is None: continue
                                st = r[1]
                            seen = []
                            for i, n in enumerate(plan):
                                xs = forms(f'x{i}', n, 'f' if kind == 'r' else kind)
                                r = only(ctx, 'filter', lab, run(ctx, 'GoertzelFilter', o, st, xs, 'c' if kind == 'r' else kind, 'arr', f'k{i + 1}'), 'GoertzelFilter', 'filter', 'a signal')
                                if r is None: break
                                v, st = r
                                want = []
                                for x in xs:
                                    seen.append(x)
                                    if len(seen) % N == 0:
                                        blk = seen[-N:]; y = C0
                                        for m, (p, q) in enumerate(zip(w, blk)): y = add(y, mul(num((2.0 if kind == 'f' else 1.0) / N * cmath.exp(1j * math.pi * fq * (N - 1 - m))), mul(p, q)))
                                        want.append(y)
                                its = I.vitems(st, v) if v.k == 'arr' else None
                                if its is None: R.undecided('bin', lab, 'outputs are not known element by element'); break
                                if len(its) != len(want): R.bad('count', lab, f'{lab}: {len(its)} outputs for {len(want)} complete blocks', *site, key='count'); break
                                check(ctx, 'bin', lab, st, v, want, site, f'{lab}: the output is not the windowed discrete Fourier transform of the block', 'bin')
