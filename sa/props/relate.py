"""Relations between runs in closed form: partitions of a signal into calls ( C05 ), assignment against construction ( C06 )."""
import random
from ..core import *
from .. import core, poly, interp as ip
from .lines import forms, vec
from .laws import smallbank
from . import stream, contract
from .adaptive import Runs, items, near, value
def exact(ctx, n=24, split=64, size=60000):
    """A second analysis of the same source with exact terms, reporting to the same place."""
    ip.MAXITEMS, ip.NORMAL, ip.SPLIT, ip.TERMSIZE = n, True, split, size
    c = core.Ctx(ctx.root, ctx.prop, ctx.tier)
    c.R, c.shard, c.unit, c.t0 = ctx.R, ctx.shard, ctx.unit, ctx.t0
    poly.REAL.clear(); poly.REAL.update(['x', 'xi', 'b', 's', 'p', 'q'])
    return c
def farr(st, label, n): return vec(st, label, forms(label, n, 'f'))
def carr(st, label, cs): return vec(st, label, [('c', c) for c in cs])
UNIT, RATE, POS = (-1.0, True, 1.0, True), (0.0, True, 1.0, True), (0.0, False, INF, False)
def banked(ctx, st):
    if smallbank(ctx, st) is None: raise Unsupported('size of the bank')
    return {}
# class, label, constructor arguments, kinds of signal, interval of the samples, preparation
PLANTS = [
 ('FirFilter', 'three coefficients', lambda ctx, st: dict(b=farr(st, 'b', 3)), 'fcm', None),
 ('FirFilter', 'three coefficients and a state', lambda ctx, st: dict(b=farr(st, 'b', 3), s=farr(st, 's', 3)), 'fcm', None),
 ('FirFilter', 'one coefficient', lambda ctx, st: dict(b=farr(st, 'b', 1)), 'fm', None),
 ('IirFilter', 'second order', lambda ctx, st: dict(a=carr(st, 'a', (0.0, 0.5, -0.25)), b=farr(st, 'b', 3)), 'fcm', None),
 ('IirFilter', 'second order and a state', lambda ctx, st: dict(a=carr(st, 'a', (0.0, 0.5, -0.25)), b=carr(st, 'b', (0.5, 0.25, 0.125)), s=farr(st, 's', 3)), 'fcm', None),
 ('DerivativeFilter', 'second derivative', lambda ctx, st: dict(derivative=vconst(2), order=vconst(4)), 'fcm', None),
 ('IntegralFilter', 'order 2', lambda ctx, st: dict(order=vconst(2)), 'fcm', None),
 ('PidFilter', 'three coefficients', lambda ctx, st: dict(b=farr(st, 'b', 3)), 'fcm', None),
 ('RankFilter', 'index 1 of order 2', lambda ctx, st: dict(index=vconst(1), order=vconst(2)), 'fc', None),
 ('GoertzelFilter', 'window of 2', lambda ctx, st: dict(b=farr(st, 'b', 2), frequency=vconst(0.25)), 'fc', None),
 ('GoertzelFilter', 'window of 3', lambda ctx, st: dict(b=farr(st, 'b', 3), frequency=vconst(-0.3)), 'fc', None),
 ('PolyphaseRateFilter', 'rate 0.4', lambda ctx, st: {**banked(ctx, st), 'rate': vconst(0.4)}, 'fcm', None),
 ('PolyphaseRateFilter', 'rate 1.5', lambda ctx, st: {**banked(ctx, st), 'rate': vconst(1.5)}, 'fcm', None),
 ('PolyphaseRateFilter', 'rate 3', lambda ctx, st: {**banked(ctx, st), 'rate': vconst(3.0)}, 'fc', None),
 ('ComplexExponentialFilter', 'phase', lambda ctx, st: dict(phase=fnum('p', UNIT)), 'f', UNIT),
 ('ComplexBandpassFilter', 'frequency and rate', lambda ctx, st: dict(frequency=fnum('p', UNIT), rate=fnum('q', RATE)), 'c', None),
 ('ComplexFrequencyFilter', 'frequency and rate', lambda ctx, st: dict(frequency=fnum('p', UNIT), rate=fnum('q', RATE)), 'c', None),
]
def signal(st, label, fs, kind, iv):
    v = vec(st, label, fs, kind)
    if iv is not None:
        c = st.heap['arg:' + label]; st.heap['arg:' + label] = c.r(items=tuple(q.r(iv=iv) for q in c.items), elem=c.elem.r(iv=iv) if c.elem is not None else None)
    return v
def samples(n, kind):
    """( forms, kind of each ): complex from the middle for kind m."""
    a, b = forms('x', n, 'f'), forms('x', n, 'c', 'xi')
    return (a if kind == 'f' else b if kind == 'c' else a[:n // 2] + b[n // 2:]), ['f' if kind == 'f' or kind == 'm' and i < n // 2 else 'c' for i in range(n)]
def env(rng, iv=None, extra=0):
    lo, hi = (-1.0, 1.0) if iv else (-2.0, 2.0)
    e = {('par', 'p'): rng.uniform(-1, 1), ('par', 'q'): rng.uniform(0.05, 0.9)}
    for i in range(12 + extra):
        e[('elt', 'x', i)], e[('elt', 'xi', i)] = rng.uniform(lo, hi), rng.uniform(lo, hi)
        e[('elt', 'b', i)], e[('elt', 's', i)], e[('elt', 'a', i)] = rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-0.4, 0.4)
    return e
def history(ctx, rule, cls, lab, make, plan, fs, ks, iv, before=None, after=None):
    """A run of filter calls over consecutive parts of the samples; None when it is not followed to the end."""
    st = blank(ctx.I); run = Runs(ctx, rule, lab)
    try: kw = make(ctx, st)
    except Unsupported: ctx.R.undecided(rule, lab, 'preparation'); return None
    if not run.start(ctx.guard(rule, lab, lambda: ctx.D.construct(cls, kw=kw, st=st, op='k0'))): ctx.R.undecided(rule, lab, 'not constructed'); return None
    if before and not before(run): return None
    pos = 0
    for i, n in enumerate(plan):
        part, k = fs[pos:pos + n], 'c' if 'c' in ks[pos:pos + n] else 'f'; pos += n
        if not run.step(lambda o, st: ctx.D.method(o, 'filter', [signal(st, f'x{i}', part, k, iv)], {}, st, op=f'k{i + 1}')): return None
    return run
def outputs(ctx, run, n, e):
    """Outputs of the last n steps at a point, one list for each result; None for a rejection."""
    o, st, vs, x = run.at(e)
    if x is not None: return None
    out = None
    for v, s in vs[-n:]:
        cs = list(v.c) if v.k == 'tuple' and isinstance(v.c, tuple) else [v]
        got = [items(ctx, s, c, e) if not (c.k == 'arr' and c.shape and c.shape[0] is not None and c.shape[0].const == 0) else [] for c in cs]
        out = got if out is None else [a + b for a, b in zip(out, got)]
    return out
def differ(a, b):
    if (a is None) != (b is None): return 'one is rejected'
    if a is None: return None
    for x, y in zip(a, b):
        if len(x) != len(y): return f'{len(y)} values instead of {len(x)}'
        for i, (p, q) in enumerate(zip(x, y)):
            if not near(p, q): return f'value {i} is {complex(q):.4g} instead of {complex(p):.4g}'
    return None
def blocks(ctx0):
    """Outputs of one call against those of the same samples in several calls."""
    ctx = exact(ctx0); R = ctx.R
    N = 5
    plans = [(1, 4), (2, 3), (3, 2), (4, 1), (1, 1, 3), (2, 2, 1), (1, 3, 1), (1, 1, 1, 1, 1)]
    short = plans
    for cls, what, make, kinds, iv in PLANTS:
        site = ctx.site(cls, 'filter')
        # calls which reach the integers in the source
        more = [q for q in ctx.limits(6, 66, cls) if q not in (5, 6, 8, 9, 10)] if not what.startswith('one') else []
        if cls in ('ComplexBandpassFilter', 'ComplexFrequencyFilter', 'PidFilter'): more = [q for q in more if q < 9]
        ctx.room(3 * max(more, default=0) + 6)
        for kind, N in [(k, 5) for k in kinds] + [(kinds[0], q + 1) for q in more]:
            plans = short if N == 5 else [(1, N - 1), (N - 1, 1), (N // 2, N - N // 2)]
            if not ctx.mine(): continue
            fs, ks = samples(N, kind)
            base = f'{cls} of {what}, {"real" if kind == "f" else "complex" if kind == "c" else "first real, then complex"} samples'
            one = history(ctx, 'partition', cls, base, make, (N,), fs, ['c' if 'c' in ks else 'f'] * N, iv)
            if one is None: continue
            for plan in plans:
                lab = f'{base} in calls of {plan}'
                run = history(ctx, 'partition', cls, lab, make, plan, fs, ks, iv)
                if run is None: continue
                good = 0; why = 'no point decided'; bad = None
                for seed in range(4):
                    e = env(random.Random(f'{cls}{seed}'), iv, N)
                    try: d = differ(outputs(ctx, one, 1, e), outputs(ctx, run, len(plan), e))
                    except (poly.NoForm, KeyError, TypeError, AttributeError) as err: why = str(err); continue
                    good += 1
                    if d: bad = d; break
                if bad: R.bad('partition', lab, f'{lab}: the outputs differ from those of a single call ({bad})', *site, key=f'partition|{cls}')
                elif good >= 2: R.ok('partition', lab)
                else: R.undecided('partition', lab, why)
    ctx0.R.funcs |= core.names(ctx.I)
# ------------------------------------------------------------------ C06
def num2(name, iv): return lambda st: fnum(name, iv)
ASSIGN = [
 # class, parameter, common arguments, first value, second value
 ('FirFilter', 'b', lambda c, st: {}, lambda st: farr(st, 'a', 3), lambda st: farr(st, 'b', 3), 'fc', None),
 ('IirFilter', 'b', lambda c, st: dict(a=carr(st, 'u', (0.0, 0.5, -0.25))), lambda st: farr(st, 'a', 3), lambda st: farr(st, 'b', 3), 'fc', None),
 ('IirFilter', 'a', lambda c, st: dict(b=farr(st, 'b', 3)), lambda st: carr(st, 'u', (0.0, 0.5, -0.25)), lambda st: carr(st, 'w', (0.0, -0.25, 0.125)), 'fc', None),
 ('PidFilter', 'b', lambda c, st: {}, lambda st: farr(st, 'a', 3), lambda st: farr(st, 'b', 3), 'fc', None),
 ('RankFilter', 'index', lambda c, st: dict(order=vconst(2)), lambda st: vconst(0), lambda st: vconst(2), 'fc', None),
 ('GoertzelFilter', 'frequency', lambda c, st: dict(b=farr(st, 'b', 3)), lambda st: vconst(0.25), lambda st: vconst(-0.4), 'fc', None),
 ('GoertzelFilter', 'frequency', lambda c, st: dict(b=farr(st, 'b', 2)), lambda st: fnum('q', UNIT), lambda st: fnum('p', UNIT), 'fc', None),
 ('PolynomialRateFilter', 'rate', lambda c, st: dict(order=vconst(2)), lambda st: vconst(0.5), lambda st: vconst(1.5), 'fc', None),
 ('PolynomialRateFilter', 'order', lambda c, st: dict(rate=vconst(1.5)), lambda st: vconst(1), lambda st: vconst(3), 'f', None),
 ('PolyphaseRateFilter', 'rate', lambda c, st: banked(c, st), lambda st: vconst(0.5), lambda st: vconst(1.5), 'fc', None),
 ('ComplexExponentialFilter', 'phase', lambda c, st: {}, lambda st: fnum('q', UNIT), lambda st: fnum('p', UNIT), 'f', UNIT),
 ('ComplexBandpassFilter', 'frequency', lambda c, st: dict(rate=fnum('q', RATE)), lambda st: vconst(0.5), lambda st: fnum('p', UNIT), 'c', None),
 ('ComplexBandpassFilter', 'rate', lambda c, st: dict(frequency=fnum('p', UNIT)), lambda st: vconst(0.5), lambda st: fnum('q', RATE), 'c', None),
 ('ComplexFrequencyFilter', 'frequency', lambda c, st: dict(rate=fnum('q', RATE)), lambda st: vconst(0.5), lambda st: fnum('p', UNIT), 'c', None),
 ('ComplexFrequencyFilter', 'rate', lambda c, st: dict(frequency=fnum('p', UNIT)), lambda st: vconst(0.5), lambda st: fnum('q', RATE), 'c', None),
]
def assigned(ctx0):
    """Outputs after construction and assignment against those after construction with the assigned value."""
    ctx = exact(ctx0); R = ctx.R
    for cls, name, common, first, second, kinds, iv in ASSIGN:
        site = ctx.site(cls, name) if ctx.I.lookup(ctx.D.cls(cls), name) else ctx.site(cls, '__init__')
        for kind in kinds:
            for n in (1, 4):
                if not ctx.mine(): continue
                fs, ks = samples(n, kind)
                lab = f'{cls}.{name} assigned, {n} {"real" if kind == "f" else "complex"} samples'
                a = history(ctx, 'assigned-output', cls, lab, lambda c, st: {**common(c, st), name: second(st)}, (n,), fs, ks, iv)
                b = history(ctx, 'assigned-output', cls, lab, lambda c, st: {**common(c, st), name: first(st)}, (n,), fs, ks, iv, before=lambda run: run.step(lambda o, st: ctx.D.set(o, name, second(st), st, op='s')))
                if a is None or b is None: continue
                good = 0; why = 'no point decided'; bad = None
                for seed in range(4):
                    e = env(random.Random(f'{cls}{name}{seed}'), iv)
                    if cls == 'GoertzelFilter': e[('par', 'q')] = 0.7 - e[('par', 'p')] / 2
                    try: d = differ(outputs(ctx, a, 1, e), outputs(ctx, b, 1, e))
                    except (poly.NoForm, KeyError, TypeError, AttributeError) as err: why = str(err); continue
                    good += 1
                    if d: bad = d; break
                if bad: R.bad('assigned-output', lab, f'{lab}: the output differs from that of an instance constructed with the value ({bad})', *site, key=f'assigned-output|{cls}|{name}')
                elif good >= 2: R.ok('assigned-output', lab)
                else: R.undecided('assigned-output', lab, why)
    ctx0.R.funcs |= core.names(ctx.I)
# parameters on which nothing but the parameter itself depends once it is assigned
AGAIN = [
 ('FirFilter', 'b', lambda c, st: {}, lambda st: farr(st, 'a', 3), lambda st: farr(st, 'b', 3), 'f', None),
 ('RankFilter', 'index', lambda c, st: dict(order=vconst(2)), lambda st: vconst(0), lambda st: vconst(2), 'f', None),
 ('GoertzelFilter', 'frequency', lambda c, st: dict(b=farr(st, 'b', 2)), lambda st: vconst(0.25), lambda st: vconst(-0.4), 'f', None),
 ('PolynomialRateFilter', 'rate', lambda c, st: dict(order=vconst(2)), lambda st: vconst(0.5), lambda st: vconst(1.5), 'f', None),
 ('ComplexExponentialFilter', 'phase', lambda c, st: {}, lambda st: vconst(0.25), lambda st: vconst(-0.5), 'f', UNIT),
 ('ComplexFrequencyFilter', 'frequency', lambda c, st: dict(rate=vconst(0.3)), lambda st: vconst(0.25), lambda st: vconst(0.5), 'c', None),
]
def again(ctx0):
    """Outputs after an assignment of the value already held against those after an assignment of another."""
    ctx = exact(ctx0); R = ctx.R
    for cls, name, common, first, second, kind, iv in AGAIN:
        site = ctx.site(cls, name) if ctx.I.lookup(ctx.D.cls(cls), name) else ctx.site(cls, '__init__')
        for n in (2, 4):
            if not ctx.mine(): continue
            fs, ks = samples(n, kind); gs = forms('s', n, 'f')
            lab = f'{cls}.{name} assigned the value held after {n} samples'
            def prepare(run):
                return run.step(lambda o, st: ctx.D.method(o, 'filter', [signal(st, 'w', gs, kind, iv)], {}, st, op='k8')) and run.step(lambda o, st: ctx.D.set(o, name, second(st), st, op='s'))
            a = history(ctx, 'reassigned-output', cls, lab, lambda c, st: {**common(c, st), name: second(st)}, (n,), fs, ks, iv, before=prepare)
            b = history(ctx, 'reassigned-output', cls, lab, lambda c, st: {**common(c, st), name: first(st)}, (n,), fs, ks, iv, before=prepare)
            if a is None or b is None: continue
            good = 0; why = 'no point decided'; bad = None
            for seed in range(4):
                e = env(random.Random(f'{cls}{name}{seed}'), iv)
                try: d = differ(outputs(ctx, b, 1, e), outputs(ctx, a, 1, e))
                except (poly.NoForm, KeyError, TypeError, AttributeError) as err: why = str(err); continue
                good += 1
                if d: bad = d; break
            if bad: R.bad('reassigned-output', lab, f'{lab}: the output differs from that after an assignment to an instance which held another value ({bad})', *site, key=f'reassigned-output|{cls}|{name}')
            elif good >= 2: R.ok('reassigned-output', lab)
            else: R.undecided('reassigned-output', lab, why)
    ctx0.R.funcs |= core.names(ctx.I)
def c05(ctx):
    r = stream.c05(ctx); blocks(ctx); return r
def c06(ctx):
    r = contract.c06(ctx); assigned(ctx); again(ctx); return r
