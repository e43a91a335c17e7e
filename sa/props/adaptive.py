"""C31, C38: adaptive complex filters and the phase accumulator, against their recursions at points."""
import cmath, math, random
from ..core import *
from .. import poly, interp as ip
from .lines import forms, vec, only
def phasor(p): return cmath.exp(1j * math.pi * p)
def value(v, env): return poly.evaluate(v.t if v.t is not None else ('c', v.c) if v.c is not NOC else None, env)
def near(a, b, t=1e-6): return abs(a - b) <= t * max(1.0, abs(a), abs(b))
def wrap(a, b):
    """Phases equal up to whole turns."""
    d = (a - b) / 2.0
    if d != d: return False
    return abs(d - round(d)) < 1e-6
def leaves(kind, n, label, st, cont, zeros=(), iv=None):
    fs = [('c', 0.0 if kind == 'f' else 0j) if i in zeros else f for i, f in enumerate(forms(label, n, kind, label + 'i'))]
    v = vec(st, label, fs, kind, cont)
    if iv is not None:
        c = st.heap['arg:' + label]
        st.heap['arg:' + label] = c.r(items=tuple(q.r(iv=iv) if q.c is NOC else q for q in c.items), elem=c.elem.r(iv=iv) if c.elem is not None else None)
    return fs, v
def analytic(x):
    n = len(x); X = [sum(x[i] * phasor(-2.0 * q * i / n) for i in range(n)) for q in range(n)]
    h = [1.0 if 2 * q in (0, n) else 2.0 if 2 * q < n else 0.0 for q in range(n)]
    return [sum(h[q] * X[q] * phasor(2.0 * q * i / n) for q in range(n)) / n for i in range(n)]
class Runs:
    """States of a history kept apart by their path conditions."""
    def __init__(s, ctx, rule, lab): s.ctx, s.rule, s.lab, s.paths, s.lost = ctx, rule, lab, [], []
    def start(s, r):
        if r is None: return False
        s.paths = [(o, st, []) for o, st in r.results]; s.lost = [(x, x.st) for x in r.raises]
        return bool(s.paths)
    def step(s, f):
        """f( object, state ) -> Step; the value is appended to the history of each path."""
        new = []
        for o, st, vs in s.paths:
            r = s.ctx.guard(s.rule, s.lab, lambda: f(o, st))
            if r is None: return False
            for v, st2 in r.results: new.append((o, st2, vs + [(v, st2)]))
            s.lost += [(x, x.st) for x in r.raises]
        s.paths = new
        return True
    def at(s, env):
        """( history, state, None ) or ( None, None, exception ) of the path a point takes."""
        hit = []
        for o, st, vs in s.paths:
            if all(bool(poly.evaluate(t, env)) == w for t, w in st.path): hit.append((o, st, vs, None))
        for x, st in s.lost:
            if all(bool(poly.evaluate(t, env)) == w for t, w in st.path): hit.append((None, None, None, x))
        # an exception which the conditions of a path do not tell apart from a normal exit decides nothing
        if len(hit) != 1: raise poly.NoForm(f'{len(hit)} paths at one point')
        return hit[0]
def items(ctx, st, v, env):
    its = ctx.I.vitems(st, v) if v.k == 'arr' else None
    if its is None: raise poly.NoForm('not known element by element')
    return [value(x, env) for x in its]
# ------------------------------------------------------------------ recursions
def frequency(w, b, d, rate, s):
    """( outputs, coefficient, state ) of the frequency filter."""
    y, e, bs = [], [], []
    for q in d:
        x = q / (abs(q) if abs(q) > 1e-8 else 1.0)
        y.append(cmath.phase(b) / math.pi); e.append(x - b * s); bs.append(b)
        b = b + rate * e[-1] * s.conjugate(); s = complex(x)
    return y, e, bs, b, s
def bandpass(f, b, d, rate, p):
    y, e, bs = [], [], []
    for q in d:
        x = phasor(p)
        y.append(b * x); e.append(q - y[-1]); bs.append(b)
        b = b + rate * e[-1] * x.conjugate(); p += f
    return y, e, bs, b, p
NAMES = ('reference', 'error', 'coefficient')
def c31(ctx):
    R, I = ctx.R, ctx.I
    poly.REAL.clear(); poly.REAL.update(['frequency', 'rate', 'frequency2', 'rate2', 'd0', 'd0i', 'd1', 'd1i', 'r', 'ri'])
    ip.TERMSIZE = 60000; poly.DIVNAN = True
    par = lambda n: fnum(n, (-1.0, True, 1.0, True) if n.startswith('f') else (0.0, True, 1.0, True))
    plans = [((1,), ()), ((3,), ()), ((2, 1), ()), ((1, 2), ()), ((3,), (1,)), ((2, 2), (0, 3)), ((2, 2), (0, 1)), ((1, 2), (0,))]
    if ctx.tier != 'quick': plans += [((4,), ()), ((1, 1, 1), ()), ((4,), (0, 2))]
    for cls in ('ComplexFrequencyFilter', 'ComplexBandpassFilter'):
        site = ctx.site(cls, 'filter'); fq = cls == 'ComplexFrequencyFilter'
        for plan, zeros in plans + [((q,), ()) for q in ctx.limits(4, 9, cls)]:
            for kind in 'cf':
                for how in ('new', 'frequency', 'rate', 'reset'):
                    for cont in ('arr', 'list'):
                        if how != 'new' and (zeros or len(plan) < 2 or cont == 'list' or kind == 'f') or cont == 'list' and (zeros or plan != (3,)) or how == 'reset' and not fq: continue
                        if kind == 'f' and zeros: continue
                        if not ctx.mine(): continue
                        lab = f'{cls}: {"complex" if kind == "c" else "real"} samples in calls of {plan}{f", samples {zeros} zero" if zeros else ""}{", " + how + (" of the first sample" if how == "reset" else " assigned between the calls") if how != "new" else ""}{", a list" if cont == "list" else ""}'
                        judge(ctx, cls, site, fq, plan, zeros, kind, how, cont, lab, par)
def judge(ctx, cls, site, fq, plan, zeros, kind, how, cont, lab, par):
    R = ctx.R
    run = Runs(ctx, 'recursion', lab)
    if not run.start(ctx.guard('recursion', lab, lambda: ctx.D.construct(cls, kw=dict(frequency=par('frequency'), rate=par('rate')), st=blank(ctx.I), op='k0'))): R.undecided('recursion', lab, 'not constructed'); return
    pos = 0; calls = []
    for i, n in enumerate(plan):
        z = [k - pos for k in zeros if pos <= k < pos + n]; pos += n
        if how == 'reset' and i == 0:
            v = V('num', dt=DC, deps=frozenset(['arg:r']), lin='K', mv=frozenset(['r']), t=forms('r', 1, 'c', 'ri')[0])
            if not run.step(lambda o, st: ctx.D.method(o, 'reset', [v], {}, st, op='r')): return
        if how in ('frequency', 'rate') and i == 1:
            if not run.step(lambda o, st: ctx.D.set(o, how, par(how + '2'), st, op='s')): return
        box = []
        def f(o, st):
            fs, v = leaves(kind, n, f'd{i}', st, cont, z); box.append(fs)
            return ctx.D.method(o, 'filter', [v], {}, st, op=f'k{i + 1}')
        if not run.step(f): return
        if not box: R.undecided('recursion', lab, 'no normal exit'); return
        calls.append((len(run.paths[0][2]) - 1 if run.paths else -1, box[0]))
    good = 0; why = 'no point decided'; seen = set()
    for seed in range(6):
        r = random.Random(f'{cls}{plan}{kind}{how}{seed}')
        # half of the points are arbitrary signals, half stationary exponentials to which the filter converges
        tone = seed % 2 == 1 and kind == 'c' and not zeros
        env = {('par', 'frequency'): r.uniform(-0.95, 0.95), ('par', 'rate'): r.choice((0.05, 0.3, 0.8)), ('par', 'frequency2'): r.uniform(-0.95, 0.95), ('par', 'rate2'): r.choice((0.1, 0.5))}
        if seed > 3 and how in ('frequency', 'rate'): env[('par', 'frequency2')] = (0.0, 1.0)[seed % 2]; env[('par', 'rate2')] = (0.0, 1.0)[seed % 2]
        env[('elt', 'r', 0)], env[('elt', 'ri', 0)] = r.uniform(-2, 2), r.uniform(-2, 2)
        A = r.uniform(0.3, 3.0) * phasor(r.uniform(-1, 1)); tf = r.uniform(-0.9, 0.9) if fq else env[('par', 'frequency')]
        k = 0; scale = (1.0, 1.0, 1e-4, 1e-3, 1e3, 1e4)[seed]
        for i, n in enumerate(plan):
            for m in range(n):
                q = scale * (A * phasor(tf * k) if tone else complex(r.uniform(-2, 2), r.uniform(-2, 2))); k += 1
                env[('elt', f'd{i}', m)] = q.real; env[('elt', f'd{i}i', m)] = q.imag
        try: o, st, vs, x = run.at(env)
        except (poly.NoForm, KeyError, TypeError) as err: why = str(err); continue
        if x is not None:
            if 'rejected' not in seen: seen.add('rejected'); R.bad('rejected', lab, f'{lab}: the signal is rejected with {excname(x)}', *site, key=f'{cls}|rejected')
            continue
        f, rate = env[('par', 'frequency')], env[('par', 'rate')]
        b = phasor(f) if fq else complex(2.0 ** -52); s = 1.0 + 0j if fq else 0.0
        if how == 'reset':
            q = complex(env[('elt', 'r', 0)], env[('elt', 'ri', 0)]); s = q / abs(q)
        try:
            for c, (ix, fs) in enumerate(calls):
                if c == 1 and how == 'frequency':
                    f = env[('par', 'frequency2')]
                    if fq: b = phasor(f)
                if c == 1 and how == 'rate': rate = env[('par', 'rate2')]
                d = [poly.evaluate(t, env) for t in fs]
                if kind == 'f': d = analytic(d)
                *want, b, s = frequency(f, b, d, rate, s) if fq else bandpass(f, b, d, rate, s)
                v, st2 = vs[ix]
                if v.k != 'tuple' or len(v.c) != 3: R.undecided('recursion', lab, 'not three results'); return
                for name, w, g in zip(NAMES, want, v.c):
                    got = items(ctx, st2, g, env)
                    if len(got) != len(w):
                        if 'count' not in seen: seen.add('count'); R.bad('count', lab, f'{lab}: {len(got)} values of the {name} for {len(w)} samples', *site, key=f'{cls}|count|{name}')
                        continue
                    for i, (p, q) in enumerate(zip(got, w)):
                        ok = wrap(p, q) if fq and name == 'reference' else near(p, q)
                        if not ok and name not in seen:
                            seen.add(name)
                            R.bad('recursion', lab, f'{lab}: the {name} of sample {i} of call {c + 1} is {complex(p):.4g} instead of {complex(q):.4g}' + (f': for a stationary exponential the error of the coefficient does not shrink by 1 - rate ( {rate} ) per sample' if tone else ''), *site, key=f'{cls}|{name}')
            good += 1
        except poly.NoForm as err: why = str(err)
    if seen: return
    if good >= 4: R.ok('recursion', lab)
    else: R.undecided('recursion', lab, why)
# ------------------------------------------------------------------ phase accumulator
EDGES = [(w, t) for t in (1.0, -1.0, 0.999, -0.999, 1.001, -1.001, 2.0, -2.0, 3.0, -3.0, 1.9999, 0.0) for w in (0.0, 0.5 if t > 0 else -0.5)] + [(1.0, 1.0), (-1.0, -1.0), (1.0, 2.0)]
def c38(ctx):
    R, I = ctx.R, ctx.I
    cls = 'ComplexExponentialFilter'; site = ctx.site(cls, 'filter')
    poly.REAL.clear(); poly.REAL.update(['phase', 'phase2', 'd0', 'd1', 'd2'])
    ip.TERMSIZE = 60000
    plans = [(1,), (2,), (3,), (5,), (2, 1), (1, 3), (2, 2), (1, 1, 1)]
    if ctx.tier != 'quick': plans += [(7,), (3, 3), (2, 2, 2)]
    more = ctx.limits(6, 66, cls); ctx.room(max(more, default=0) + 2)
    for plan in plans + [(q,) for q in more] + [(q, 2) for q in more]:
        for how in ('new', 'default', 'assigned'):
            for cont in ('arr', 'list'):
                if not ctx.mine(): continue
                lab = f'{cls}: {"frequencies" if cont == "arr" else "a list of frequencies"} in calls of {plan}{", phase assigned" if how == "assigned" else ", phase zero" if how == "default" else ""}'
                run = Runs(ctx, 'phase', lab)
                kw = {} if how == 'default' else dict(phase=fnum('phase', (-1.0, True, 1.0, True)))
                if not run.start(ctx.guard('phase', lab, lambda: ctx.D.construct(cls, kw=kw, st=blank(I), op='k0'))): R.undecided('phase', lab, 'not constructed'); continue
                calls = []; ok = True
                for i, n in enumerate(plan):
                    if how == 'assigned' and i == (1 if len(plan) > 1 else 0):
                        if not run.step(lambda o, st: ctx.D.set(o, 'phase', fnum('phase2', (-1.0, True, 1.0, True)), st, op='s')): ok = False; break
                    box = []
                    def f(o, st):
                        fs, v = leaves('f', n, f'd{i}', st, cont, (), (-1.0, True, 1.0, True)); box.append(fs)
                        return ctx.D.method(o, 'filter', [v], {}, st, op=f'k{i + 1}')
                    if not run.step(f) or not box: ok = False; break
                    calls.append((len(run.paths[0][2]) - 1 if run.paths else -1, box[0]))
                if not ok: continue
                good = 0; why = 'no point decided'; seen = set()
                for seed in range(10 + len(EDGES)):
                    r = random.Random(f'{plan}{how}{seed}')
                    lo, hi = ((-1, 1), (0.5, 1.0), (-1.0, -0.5), (-0.2, 0.2), (1.0, 1.0))[seed % 5]
                    env = {('par', 'phase'): r.uniform(-1, 1), ('par', 'phase2'): r.uniform(-1, 1)}
                    for i, n in enumerate(plan):
                        for m in range(n): env[('elt', f'd{i}', m)] = r.uniform(lo, hi)
                    if seed >= 10:
                        # totals at and next to the ends of the range
                        w, tot = EDGES[seed - 10]; left = sum(plan)
                        env[('par', 'phase')] = env[('par', 'phase2')] = w
                        w = 0.0 if how == 'default' else w
                        # the samples before the last call of an assigned phase do not count
                        for i, n in enumerate(plan):
                            for m in range(n): env[('elt', f'd{i}', m)] = 0.25 * (-1) ** m
                            rest = sum(env[('elt', f'd{i}', m)] for m in range(n - 1)); d = tot - w - rest
                            if abs(d) <= 1.0: env[('elt', f'd{i}', n - 1)] = d
                            elif n > 1:
                                for m in range(n): env[('elt', f'd{i}', m)] = max(-1.0, min(1.0, (tot - w) / n))
                            if how != 'assigned': w = tot - 2.0 * round(tot / 2.0)
                    try: o, st, vs, x = run.at(env)
                    except (poly.NoForm, KeyError, TypeError) as err: why = str(err); continue
                    if x is not None:
                        if 'rejected' not in seen: seen.add('rejected'); R.bad('rejected', lab, f'{lab}: frequencies in [-1, 1] are rejected with {excname(x)} (phase {env[("par", "phase")]:.3g})', *site, key='rejected')
                        continue
                    p = 0.0 if how == 'default' else env[('par', 'phase')]
                    try:
                        for c, (ix, fs) in enumerate(calls):
                            if how == 'assigned' and c == (1 if len(plan) > 1 else 0): p = env[('par', 'phase2')]
                            v, st2 = vs[ix]
                            got = items(ctx, st2, v, env)
                            if len(got) != len(fs):
                                if 'count' not in seen: seen.add('count'); R.bad('count', lab, f'{lab}: {len(got)} values for {len(fs)} frequencies', *site, key='count')
                                continue
                            for i, t in enumerate(fs):
                                if not near(got[i], phasor(p)) and 'value' not in seen: seen.add('value'); R.bad('phase', lab, f'{lab}: value {i} of call {c + 1} is {complex(got[i]):.4g}, not the exponential of the phase {p:.4g} accumulated before it', *site, key='value')
                                p += env[t]
                        q = ctx.guard('phase', lab, lambda: ctx.D.get(o, 'phase', st.copy(), op='g'))
                        if q is None or len(q.results) != 1: why = 'phase is not read'; continue
                        g = value(q.results[0][0], env)
                        if not wrap(g, p) and 'carry' not in seen: seen.add('carry'); R.bad('carry', lab, f'{lab}: the phase {complex(g).real:.4g} is carried to the next call instead of {p:.4g} (up to whole turns)', *site, key='carry')
                        if abs(g) > 1.0 + 1e-9 and 'range' not in seen: seen.add('range'); R.bad('range', lab, f'{lab}: the phase {complex(g).real:.4g} is outside [-1, 1]', *site, key='range')
                        good += 1
                    except poly.NoForm as err: why = str(err)
                if seen: continue
                if good >= 6: R.ok('phase', lab)
                else: R.undecided('phase', lab, why)
    # long signals of given frequencies
    big = sorted({200, *ctx.limits(66, 5000, cls)}); ctx.room(max(big) + 2)
    for n in big:
        if not ctx.mine(): continue
        lab = f'{cls}: {n} given frequencies'; w = [0.9 * math.sin(1.7 * i) + 0.05 for i in range(n)]; w2 = [0.3, -0.7]
        run = Runs(ctx, 'phase', lab)
        if not run.start(ctx.guard('phase', lab, lambda: ctx.D.construct(cls, kw=dict(phase=vconst(0.3)), st=blank(I), op='k0'))): R.undecided('phase', lab, 'not constructed'); continue
        if not all(run.step(lambda o, st: ctx.D.method(o, 'filter', [vec(st, f'd{i}', [('c', x) for x in xs])], {}, st, op=f'k{i + 1}')) for i, xs in enumerate((w, w2))): continue
        try:
            o, st, vs, x = run.at({})
            if x is not None: R.bad('rejected', lab, f'{lab} are rejected with {excname(x)}', *site, key='rejected'); continue
            p = 0.3; bad = None
            for c, xs in enumerate((w, w2)):
                got = items(ctx, vs[c][1], vs[c][0], {})
                if len(got) != len(xs): bad = ('count', f'{len(got)} values'); break
                for i, q in enumerate(xs):
                    if not near(got[i], phasor(p), 1e-9): bad = bad or ('value', f'value {i} of call {c + 1} is {complex(got[i]):.6g} instead of {phasor(p):.6g}')
                    p += q
            if bad: R.bad('phase', lab, f'{lab}: {bad[1]}', *site, key=bad[0])
            else: R.ok('phase', lab)
        except (poly.NoForm, KeyError, TypeError) as err: R.undecided('phase', lab, str(err))
