"""C04: element kinds of signal, coefficients and state are never narrowed."""
from ..core import *
DATA = ('sig', 'coef', 'state', 'signum', 'rows')
def datalabels(x):
    """Labels of data parameters of the scenario and its predecessors -> set of dependence labels, ( all, signals )."""
    al, sg = set(), set()
    y = x
    while y is not None:
        spec = y.ctor.p if y.phase == 'ctor' else (y.opspec.p if y.opspec else None)
        for n, v in (y.args or {}).items():
            p = spec.get(n) if spec else BYNAME[y.cls].sets.get(n)
            if p is None or p.kind not in DATA: continue
            for l in labels(v):
                al.add(l)
                if p.kind in ('sig', 'signum') and y.cls != 'ZTransform': sg.add(l)
        y = y.prev
    return al, sg
def labels(v):
    r = {d for d in v.deps if isinstance(d, str) and d.startswith('arg:')}
    for l in v.locs:
        if l.startswith('arg:'): r.add(l.split('.row')[0])
    return r

def judge(ctx, x):
    R = ctx.R
    al, sg = datalabels(x)
    parts = {}
    for e in x.events:
        if e.kind == 'part' and e.value is not None: parts.setdefault((e.func, e.value.t or e.value.deps), set()).add(e.part)
    n = 0
    for e in x.events:
        if e.kind not in ('narrow', 'incast', 'cast', 'part'): continue
        v = e.value
        if v is None or v.dt is None: continue
        d = set(v.deps) & al
        cx = DC <= v.dt if v.dt else False
        if e.kind == 'part':
            if not (v.dt == DC): continue
            ds = set(v.deps) & sg
            if not ds or e.part == 'view': continue
            if parts[(e.func, v.t or v.deps)] >= {'real', 'imag'}: R.ok('imaginary-part-kept', f'{x.label} {e.func}'); continue
            if not sigcomplex(x): continue
            if e.part == 'imag': continue
            R.bad('imaginary-part-discarded', x.label, f'{e.func} takes only the real part of a value which depends on the complex signal', e.file, e.line); n += 1
            continue
        if not d: continue
        if v.dt == DC:
            ds = set(v.deps) & sg
            if not ds: continue
            if e.kind == 'incast': continue   # rejected with an exception
            if e.kind == 'narrow' and not e.d.get('sure'): R.undecided('imaginary-part-kept', x.label, f'{e.file}:{e.line} element kind of target unknown'); continue
            R.bad('imaginary-part-discarded', x.label, f'{e.func} stores a complex value which depends on the signal where only real values fit ({e.kind})', e.file, e.line); n += 1
        elif v.dt == DF or v.dt <= DF | DI:
            if e.kind == 'narrow' and not e.d.get('sure'): R.undecided('values-kept', x.label, f'{e.file}:{e.line} element kind of target unknown'); continue
            if e.kind == 'narrow' and v.dt != DF: continue
            tgt = e.d.get('target')
            if e.kind == 'cast' and v.dt != DF: continue
            R.bad('value-truncated', x.label, f'{e.func} truncates a floating point value which depends on {sorted(l[4:] for l in d)} to an integer ({e.kind})', e.file, e.line); n += 1
    for e in x.events:
        if e.kind == 'extcall' and e.name in ('numpy.iscomplex', 'numpy.isreal') and e.args and sg:
            a = e.args[0]
            v = a if a.k == 'num' else ctx.I.content(e.state, a, 'keep') if a.k in ('arr', 'list') and e.d.get('state') is not None else None
            if v is None or v.dt != DC or not (set(v.deps) & sg): continue
            n += 1
            if x.step.raises: R.undecided('complex-by-value', x.label, f'{e.file}:{e.line} classification by value')
            else: R.bad('complex-by-value', x.label, f'{e.func} decides whether the signal is complex by its values: a complex signal with zero imaginary parts is treated as another kind of signal', e.file, e.line)
    if not n: R.ok('element-kind', x.label)
def sigcomplex(x):
    return x.mode is not None and x.mode.sig == 'c' or any(q.kind == 'sig' and q.dt == 'c' for q in (x.opspec.p.values() if x.opspec else ()))

def rejected(x): return not x.step.results
def c04(ctx):
    R = ctx.R; th = ctx.tier == 'thorough'
    sigs = 'ifc'
    ctormodes = [Mode(coef=k, state=k2, cont=ct) for ct in ('arr', 'list') for k in 'ifc' for k2 in ('ifc' if th else k)]
    for c in API:
        if c.name in ('RestClient', 'Serial'): continue
        if c.static:
            for ct in ('arr', 'list'):
                for s in sigs:
                    for k in 'ifc':
                        for o in c.ops:
                            if not ctx.mine(): continue
                            x = ctx.call(c, None, None, o, Mode(sig=s, coef=k, cont=ct))
                            if x: judge(ctx, x)
            continue
        for ki, k in enumerate(c.ctors):
            has = any(q.kind in DATA for q in k.p.values())
            if ki and c.name in ('FirFilter', 'IirFilter', 'WindowFilter', 'WaveletTransform', 'DiversityModel') and not th: continue
            for m in (ctormodes if has else ctormodes[:1]):
                if not ctx.mine(): continue
                x = ctx.ctor(c, k, m)
                if x is None: continue
                judge(ctx, x)
                for o, st in x.step.results[:3]:
                    starts = [(x, st)]
                    for n, p in c.sets.items():
                        if p.kind not in DATA: continue
                        for s in 'ifc':
                            for ct in ('arr', 'list'):
                                y = ctx.put(c, o, st, n, p, Mode(sig=s, coef=s, state=s, cont=ct), label=x.label + s)
                                if y is None: continue
                                y.prev = x
                                judge(ctx, y)
                                starts += [(y, s2) for _, s2 in y.step.results[:1]]
                    for y, s0 in starts:
                        for q in c.ops:
                            kinds = [p for p in q.p.values() if p.kind in DATA]
                            for s in (sigs if kinds else 'f'):
                                for ct in (('arr', 'list') if y is x and any(p.kind == 'sig' for p in kinds) and c.name not in ('GaussianModel', 'GaussianMixtureModel') else ('arr',)):
                                    z = ctx.call(c, o, s0, q, Mode(sig=s, cont=ct), label=f'{y.label}[{s},{ct}]', prev=y)
                                    if z is None: continue
                                    judge(ctx, z)
                                    if not kinds or y is not x or ct == 'list' or c.name in ('WaveletTransform',): continue
                                    for q2 in c.ops:
                                        if not any(p.kind in DATA for p in q2.p.values()): continue
                                        for s2 in sigs:
                                            if s2 == s and not th: continue
                                            for _, st2 in z.step.results[:1 if not th else 3]:
                                                w = ctx.call(c, o, st2, q2, Mode(sig=s2), op='k2', prefix='2', label=f'{z.label}[{s2}]', prev=z)
                                                if w: judge(ctx, w)
