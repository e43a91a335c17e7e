"""C21: lengths and shapes of results."""
from ..core import *
from ..spec import *
from .resample import half_even

def dims(v):
    """Shape of an array or list value, None where unknown."""
    if v is None or v.k not in ('arr', 'list') or v.shape is None: return None
    return tuple(v.shape)
def show(d): return 'an unknown number' if d is None else str(d)
def compare(ctx, rule, lab, got, want, site, what, key):
    """Shapes: violation only where some dimension provably differs."""
    R = ctx.R
    if got is None: R.undecided(rule, lab, 'shape not known'); return
    if len(got) != len(want): R.bad(rule, lab, f'{lab}: {what} has {len(got)} dimensions instead of {len(want)}', *site, key=key); return
    cs = [dcmp(a, b) for a, b in zip(got, want)]
    if any(c in (-1, 1) for c in cs):
        R.bad(rule, lab, f'{lab}: {what} has shape ( {", ".join(show(d) for d in got)} ) instead of ( {", ".join(show(d) for d in want)} )', *site, key=key)
    elif all(c == 0 for c in cs): R.ok(rule, lab)
    else: R.undecided(rule, lab, 'shape not decided')
def arrays(v):
    if v.k == 'tuple' and isinstance(v.c, tuple): return list(v.c)
    return [v]
SAME = ('FirFilter', 'IirFilter', 'DerivativeFilter', 'IntegralFilter', 'RankFilter', 'PidFilter', 'WindowFilter', 'ComplexBandpassFilter', 'ComplexFrequencyFilter', 'ComplexExponentialFilter')
def judge(ctx, c, o, x, want, count=None):
    """Every array of every outcome has the expected shape."""
    site = ctx.site(c.name, o.op)
    if x is None: return
    lab = x.label
    if not x.step.results and x.step.raises:
        ctx.R.bad('rejected', lab, f'{lab}: no result, rejected with {", ".join(sorted({str(excname(z)) for z in x.step.raises}))}', *site, key=f'{c.name}.{o.op}|rejected'); return
    for v, st in x.step.results:
        vs = arrays(v)
        if count is not None and len(vs) != count and v.k in ('tuple', 'arr'): ctx.R.bad('results', lab, f'{lab}: {len(vs)} results instead of {count}', *site, key=f'results|{c.name}.{o.op}'); continue
        ws = want if isinstance(want, list) else [want] * len(vs)
        for i, (w, d) in enumerate(zip(vs, ws)):
            if d is None: continue
            compare(ctx, 'shape', f'{lab} result {i}', dims(w), d, site, f'result {i}' if len(vs) > 1 else 'the result', f'{c.name}.{o.op}|{i}')
def shape(x, n):
    a = x.args.get(n)
    if a is None or not a.shape: return None
    if a.k == 'list':
        c = x.pre.heap.get(next(iter(a.locs)))
        if c is not None and c.elem is not None and c.elem.k == 'list': return tuple(a.shape) + tuple(c.elem.shape or ())
    return tuple(a.shape)
def c21(ctx):
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    top = 7 if not deep else 13
    plans = [BASE, BASE.r(sig='c', coef='c', state='c'), BASE.r(sig='i'), BASE.r(cont='list')]
    conc = [BASE.r(dims=(Dim(n),)) for n in list(range(1, top)) + [16, 33, 100]]
    # filters: as many outputs as inputs, in every array, in every call
    for c in API:
        if c.name not in SAME: continue
        wide = [BASE.r(dims=(Dim(n),)) for n in ctx.limits(top, 200000, c.name)]
        for ki, k in enumerate(c.ctors):
            if ki and c.name in ('FirFilter', 'IirFilter'): continue
            for mi, m in enumerate(plans + (conc + wide if c.name != 'WindowFilter' else [])):
                if not ctx.mine(): continue
                if m.sig == 'c' and c.name == 'ComplexExponentialFilter': continue  # real frequencies
                m0 = m.r(dims=None)
                x = ctx.ctor(c, k, m0)
                if x is None: continue
                for o, st in x.step.results[:3]:
                    q = c.ops[0]; mm = m
                    y = ctx.call(c, o, st, q, mm, label=f'{x.label} ({mm!r}{", %s samples" % mm.dims[0] if mm.dims else ""})', prev=x)
                    if y is None: continue
                    p = next(iter(q.p)); n = shape(y, p)
                    if n is None: continue
                    judge(ctx, c, q, y, n[:1])
                    if c.name == 'WindowFilter': continue
                    for _, s2 in y.step.results[:2]:
                        z = ctx.call(c, o, s2, q, mm, op='k2', prefix='2', label=y.label, prev=y)
                        if z is None: continue
                        n = shape(z, p)
                        if n is not None: judge(ctx, c, q, z, n[:1])
    # response and delay: requested length
    for c in API:
        if not any(o.op in ('delay', 'response') for o in c.ops): continue
        for k in c.ctors[:1]:
            for m in (BASE, BASE.r(sig='c', coef='c', state='c'), BASE.r(cont='list')):
                if not ctx.mine(): continue
                x = ctx.ctor(c, k, m)
                if x is None: continue
                for o, st in x.step.results[:2]:
                    for q in c.ops:
                        if q.op not in ('delay', 'response'): continue
                        for n in [None] + list(range(1, 18 if not deep else 40)) + ctx.limits(40, 200000, c.name):
                            for count in ((1, 2) if n in (4, 5) else (1,)):
                                over = {} if n is None else dict(length=vconst(n), count=vconst(count))
                                y = ctx.call(c, o, st, q, m, label=f'{x.label}{"" if n is None else f" ( {n}, {count} )"}', prev=x, **over)
                                if y is None: continue
                                a = y.args['length']
                                d = Dim(n) if n is not None else getattr(a, 'd', None)
                                if d is None: continue
                                judge(ctx, c, q, y, (d,), 2)
    # transforms
    T = BYNAME
    c = T['FourierTransform']; o = c.ops[0]
    for m in plans:
        for a, b in [(None, None)] + [(n + e, n) for n in range(1, top + 3) for e in (0, 1, 2)] + [(4 * n + 1, n) for n in (2, 3, 5)] + [(33, 33), (64, 32)] + [(n + e, n) for n in ctx.limits(top + 3, 200000, c.name) for e in (0, 1)] + [(n, 4) for n in ctx.limits(top + 3, 200000, c.name)]:
            for inv in ((None,) if a is None else (False, True)):
                if not ctx.mine(): continue
                mm = m if a is None else m.r(dims=(Dim(a),))
                over = {}
                x = run_static(ctx, c, o, mm, a, b, dict(inverse=vconst(inv)) if inv is not None else {})
                if x is None: continue
                n = shape(x, 'b')
                if n is not None: judge(ctx, c, o, x, n, 2)
    c = T['PsdTransform']; o = c.ops[0]
    for m in plans:
        for a, b, h, sp in [(None, None, None, None)] + [(n + e, n, h, sp) for n in range(2, top + 1) for e in (0, 1, 3, 5) for h in (1, 2, 3) for sp in (False, True)] + [(n + e, n, h, False) for n in ctx.limits(top + 1, 200000, c.name) for e, h in ((0, 1), (5, 2), (5, n))] + [(n, 4, 2, False) for n in ctx.limits(top + 6, 200000, c.name)]:
            if not ctx.mine(): continue
            x = run_static(ctx, c, o, m if a is None else m.r(dims=(Dim(a),)), a, b, dict(index=vconst(h), spectrogram=vconst(sp)) if a is not None else {})
            if x is None: continue
            for v, st in x.step.results:
                vs = arrays(v)
                if len(vs) != 2: R.bad('results', x.label, f'{x.label}: {len(vs)} results instead of 2', *ctx.site(c.name, o.op), key='results|psd'); continue
                p, f = dims(vs[0]), dims(vs[1])
                if p is None or f is None: R.undecided('shape', x.label, 'shape not known'); continue
                compare(ctx, 'shape', f'{x.label} columns', p[-1:], f, ctx.site(c.name, o.op), 'a row of the density', 'psd|columns')
                if a is not None:
                    rows_ = (a - b) // h + 1
                    compare(ctx, 'shape', f'{x.label} rows', p, ((Dim(rows_),) if sp else ()) + (Dim(b // 2),), ctx.site(c.name, o.op), 'the density', 'psd|rows')
    c = T['ComplexTransform']
    for m in (BASE, BASE.r(cont='list')):
        for o, dd in ((c.ops[0], 1), (c.ops[1], 2)):
            for n in [None] + list(range(1, top)) + ctx.limits(top, 200000, c.name):
                for neutral in (True, False):
                    if not ctx.mine(): continue
                    mm = m if n is None else m.r(dims=(Dim(n),) if dd == 1 else (Dim(3), Dim(n)))
                    x = ctx.call(c, None, None, o, mm, label=f'{c.name} of {n} samples' if n else c.name, neutral=vconst(neutral))
                    if x is None: continue
                    s = shape(x, 'x')
                    if s is None or len(s) != dd: continue
                    judge(ctx, c, o, x, (Dim(3), s[0]) if dd == 1 else (s[1],), 1)
    c = T['WaveletTransform']
    for k in c.ctors:
        for m in (BASE, BASE.r(cont='list'), BASE.r(sig='c')):
            for o in c.ops:
                for sh in ([None, (4,), (8,), (12,)] if '2-D' not in o.name else [None, (4, 4), (2, 4), (4, 2), (1, 4), (4, 1)]):
                    if not ctx.mine(): continue
                    x = ctx.ctor(c, k, BASE)
                    if x is None: continue
                    for ob, st in x.step.results[:1]:
                        y = ctx.call(c, ob, st, o, m if sh is None else m.r(dims=tuple(Dim(d) for d in sh)), label=f'{x.label}{"" if sh is None else str(sh)} ({m!r})', prev=x)
                        if y is None: continue
                        s = shape(y, 'x')
                        if s is not None: judge(ctx, c, o, y, s, 1)
def run_static(ctx, c, o, m, a, b, over):
    """A static operation on a signal of a and a window of b values."""
    if a is None: return ctx.call(c, None, None, o, m, label=f'{c.name} ({m!r})')
    st = blank(ctx.I)
    w = array(st, 'b', 'f', (Dim(b),)) if m.cont != 'list' else listof(st, 'b', 'f', Dim(b))
    return ctx.call(c, None, st, o, m, label=f'{c.name} of {a} samples, window of {b} ({m!r})', b=w, **over)
