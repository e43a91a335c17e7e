"""C07: numeric parameter domains."""
from ..core import *
from ..ext import CMPLOG

# ( class, constructor variant, operation or '' for constructor or '=' for the setter, parameter, domain, integer, don't care )
U = (-1.0, True, 1.0, True); Z1 = (0.0, True, 1.0, True); O1 = (0.0, False, 1.0, False); POS = (1, True, INF, False); NN = (0, True, INF, False); NNF = (0.0, True, INF, False); PF = (0.0, False, INF, False)
DOM = []
def d(cls, k, op, p, dom, int_=False, dc=()): DOM.append((cls, k, op, p, dom, int_, dc))
for _c, _s in (('FirFilter', 'style=Blackman'), ('IirFilter', 'style=Butterworth')):
    d(_c, _s, '', 'frequency', O1); d(_c, _s, '', 'order', POS, True); d(_c, _s, '', 'count', POS, True)
for _c, _k in (('FirFilter', 'coefficients'), ('IirFilter', 'coefficients'), ('DerivativeFilter', '1,1'), ('IntegralFilter', '2')):
    for _o in ('delay', 'response'):
        for _p in ('length', 'count'): d(_c, _k, _o, _p, POS, True)
    d(_c, _k, 'roots', 'count', POS, True)
for _o in ('', '='): d('GoertzelFilter', 'b', _o, 'frequency', U)
for _c in ('ComplexBandpassFilter', 'ComplexFrequencyFilter'):
    for _o in ('', '='):
        d(_c, 'f', _o, 'frequency', U, dc=(1.0,)); d(_c, 'f', _o, 'rate', Z1)
for _o in ('', '='):
    d('ComplexExponentialFilter', 'phase', _o, 'phase', U)
    d('RankFilter', '1,4', _o, 'index', (0, True, 4, True), True)
    d('PolynomialRateFilter', 'order=1', _o, 'rate', NNF); d('PolynomialRateFilter', 'order=1', _o, 'order', POS, True)
    d('PolyphaseRateFilter', 'rate', _o, 'rate', (0.0, False, 256.0, True), dc=(0.0,))
    d('GaussianModel', 'regularize', _o, 'regularize', NNF)
    d('GaussianMixtureModel', 'order', _o, 'regularize', NNF); d('GaussianMixtureModel', 'order', _o, 'index', POS, True)
d('GaussianMixtureModel', 'order', '', 'order', POS, True)
d('RankFilter', 'index', '', 'order', NN, True)
d('PidFilter', 'b', '=', 'limit', PF, dc=(0.0,))
for _s in FIRSTYLE: d('WindowFilter', 'style=' + _s, '', 'order', NN, True)
for _s in DISTANCE: d('DiversityModel', 'style=' + _s, '', 'order', NN, True)
d('PsdTransform', '', 'transform', 'index', POS, True)
d('ZTransform', '', 'transform', 'frequency', PF)
d('WaveletTransform', 'Haar 1', 'transform[forward count=1]', 'count', POS, True); d('WaveletTransform', 'Haar 1', 'transform[inverse count=1]', 'count', POS, True)

NEAR = [s * x for s in (-1, 1) for x in (1e-12, 1e-6, 1e-3, 0.015625, 0.25, 0.5, 0.75, 0.96875, 1.5, 2.5, 64.0, 1e3, 1e6)]
def point(v, p): return V('num', c=v, dt=DI if isinstance(v, int) else DF, d=Dim(v) if isinstance(v, int) else None, iv=ivpoint(v), deps=frozenset([f'arg:{p}']), mv=frozenset([p]), t=('par', p))
def span(lo, hi, p, int_): return V('num', dt=DI if int_ else DF, iv=(lo, False, hi, False), deps=frozenset([f'arg:{p}']), mv=frozenset([p]), t=('par', p))
def inside(v, dom): return (v > dom[0] or v == dom[0] and dom[1]) and (v < dom[2] or v == dom[2] and dom[3])
def cells(dom, int_, consts, p):
    """( name, value, inside ) over the real line ( or the integers ), split at the bounds of the domain and the compared constants."""
    pts = sorted({float(x) for x in (dom[0], dom[2], *consts) if abs(x) != INF and abs(x) < 1e9})
    if int_:
        s = {int(x) + k for x in pts if x == int(x) for k in (-1, 0, 1)} | {int(x) for x in pts}
        for v in sorted(s): yield f'{v}', point(v, p), inside(v, dom)
        for v in sorted({int(x) + k for x in (dom[0], dom[2]) if abs(x) != INF for k in (-1000, -256, -17, -10, -3, -2, 2, 3, 10, 17, 256, 1000)} - s): yield f'{v}', point(v, p), inside(v, dom)
        lo, hi = min(s), max(s)
        yield f'< {lo}', span(-INF, lo, p, True), False
        if dom[2] == INF: yield f'> {hi}', V('num', dt=DI, d=atom(p + '.n', hi + 1), iv=(hi + 1, True, INF, False), deps=frozenset([f'arg:{p}']), t=('par', p)), True
        else: yield f'> {hi}', span(hi, INF, p, True), False
        return
    for v in pts:
        yield f'{v}', point(v, p), inside(v, dom)
        if v == int(v): yield f'{int(v)} (integer)', point(int(v), p), inside(v, dom)
    for v in sorted({x + k for x in (dom[0], dom[2]) if abs(x) != INF for k in NEAR} - set(pts)): yield f'{v}', point(v, p), inside(v, dom)
    b = [-INF] + pts + [INF]
    for lo, hi in zip(b, b[1:]):
        m = lo + 1 if hi == INF else hi - 1 if lo == -INF else (lo + hi) / 2
        yield f'({lo}, {hi})', span(lo, hi, p, False), inside(m, dom)
def c07(ctx):
    R, I = ctx.R, ctx.I
    for cn, kn, op, p, dom, int_, dc in DOM:
        if not ctx.mine(): continue
        c = BYNAME[cn]; where = f'{cn}{"." + op if op not in ("", "=") else ""}.{p}{"=" if op == "=" else ""}'
        k = next((q for q in c.ctors if q.name == kn), None)
        f, n = ctx.site(cn, p if op == '=' else op.split('[')[0] or '__init__')
        base = None
        if op:
            if c.static: base = [(None, None)]
            else:
                x = ctx.ctor(c, k, BASE)
                if x is None: continue
                base = x.step.results[:2]
        spec = next((q for q in c.ops if q.name == op or q.op == op), None) if op not in ('', '=') else None
        def go(v):
            if op == '':
                over = {p: v}
                if cn == 'RankFilter' and p == 'order': over['index'] = point(0, 'index')
                x = ctx.ctor(c, k, BASE, op='k1', label=where, **over)
                return [x] if x else None
            out = []
            for o, st in base:
                y = ctx.put(c, o, st, p, c.sets[p], BASE, v=v, label=where) if op == '=' else ctx.call(c, o, st, spec, BASE, label=where, **{p: v})
                if y is None: return None
                out.append(y)
            return out
        # constants the code compares the parameter with
        CMPLOG.append([])
        try:
            if cn != 'WaveletTransform': go(span(-INF, INF, p, int_))
            log = CMPLOG[-1]
        finally: CMPLOG.pop()
        consts = set()
        lab = f'arg:{p}'
        for a, b in log:
            for x, y in ((a, b), (b, a)):
                if lab in x.deps and lab not in y.deps and len(x.deps) == 1:
                    w = y.c if isinstance(y.c, (int, float)) and not isinstance(y.c, bool) else y.d.const if y.d is not None else None
                    if w is not None and abs(w) < 1e6 and x.t in (('par', p), None) or w is not None and abs(w) < 1e6 and isinstance(x.t, tuple) and x.t[0] in ('abs', 'absolute', 'neg'): consts |= {w, -w} if x.t != ('par', p) else {w}
        if len(consts) > 8: consts = set()
        runs = []
        for nm, v, ins in cells(dom, int_, consts, p):
            if v.c is not NOC and v.c in dc: continue
            if cn == 'WaveletTransform' and (v.c is NOC or v.c > 1): continue      # recursion: bounded counts
            r = go(v)
            inst = f'{where} {nm}'
            if r is None: continue
            runs.append((inst, ins, r))
        innodes = {id(o.node) for _, ins, r in runs if ins for y in r for o in y.step.raises if explicit(o) and y.step.results}
        inimp = {id(o.node) for _, ins, r in runs if ins for y in r for o in y.step.raises if not explicit(o)}
        for inst, ins, r in runs:
            if ins:
                if all(y.step.results for y in r): R.ok('inside-accepted', inst)
                elif any(explicit(o) for y in r if not y.step.results for o in y.step.raises):
                    o = [o for y in r if not y.step.results for o in y.step.raises if explicit(o)][0]
                    R.bad('inside-rejected', inst, f'{where}: {inst.split(" ", 1)[1]} is inside the documented domain {fmt(dom)} but every path raises {excname(o)} (line {o.node.lineno})', f, n, key=f'in|{where}')
                else: R.undecided('inside-accepted', inst, 'no result, no explicit rejection')
                continue
            verdict = None
            for y in r:
                ex = [o for o in y.step.raises if explicit(o)]
                if y.step.results:
                    opaque = [o for o in ex if lab in o.st.pc and not (id(o.node) in innodes and sum(1 for z in o.st.pc if isinstance(z, str) and z.startswith('arg:')) >= 3)]
                    if not opaque: verdict = f'is outside the documented domain {fmt(dom)} but is accepted'; break
                    verdict = verdict or '?'
                else:
                    wrong = [o for o in ex if excname(o) not in ('ValueError', 'LinAlgError', 'UnicodeError', 'JSONDecodeError')]
                    if wrong and len(wrong) == len(ex): verdict = f'is rejected with {excname(wrong[0])} instead of ValueError (line {wrong[0].node.lineno})'; break
                    crash = [o for o in y.step.raises if not explicit(o) and excname(o) in ('ZeroDivisionError', 'IndexError') and id(o.node) not in inimp]
                    if crash and not [o for o in ex if id(o.node) not in innodes]: verdict = f'is not rejected with ValueError but fails with {excname(crash[0])} (line {crash[0].node.lineno})'; break
                    if not ex: verdict = verdict or '??'
            if verdict is None: R.ok('outside-rejected', inst)
            elif verdict[0] == '?': R.undecided('outside-rejected', inst, 'guard not interpreted' if verdict == '?' else 'rejected by a library call')
            else: R.bad('outside-accepted', inst, f'{where}: {inst.split(" ", 1)[1]} {verdict}', f, n, key=f'out|{where}')
    if ctx.mine(): defaults(ctx)
def defaults(ctx):
    """Default values of parameters are inside their domain."""
    import ast
    done = set()
    for cn, kn, op, p, dom, int_, dc in DOM:
        if op == '=': continue
        name = op.split('[')[0] or '__init__'
        if (cn, name, p) in done or cn in ('FirFilter', 'IirFilter') and p == 'frequency': continue
        done.add((cn, name, p))
        ci = ctx.I.classes.get(cn); q = ctx.I.lookup(ci, name) if ci is not None else None
        try: a = q[1].c[1].node.args
        except (AttributeError, TypeError, IndexError): continue
        names = [x.arg for x in a.posonlyargs + a.args]
        dv = dict(zip(names[len(names) - len(a.defaults):], a.defaults)); dv.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
        if p not in dv: continue
        try: v = ast.literal_eval(dv[p])
        except ValueError: continue
        if not isinstance(v, (int, float)) or isinstance(v, bool): continue
        f, n = ctx.site(cn, name)
        if inside(v, dom): ctx.R.ok('default-inside', f'{cn}.{name}.{p}')
        else: ctx.R.bad('default-outside', f'{cn}.{name}.{p}', f'{cn}.{name}: the default {v} of {p} is outside the documented domain {fmt(dom)}, so a call which leaves it out is rejected', f, n, key=f'default|{cn}.{name}.{p}')
def fmt(d): return f'{"[" if d[1] else "("}{d[0]}, {d[2]}{"]" if d[3] else ")"}'
