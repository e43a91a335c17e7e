"""C18: advertised options are accepted in any letter case, nothing else is, and each selects its own design."""
from ..core import *
from .. import interp as ip
from . import rest, logs, tables, forms
import math
CASES = (('as listed', str), ('lower case', str.lower), ('upper case', str.upper), ('mixed case', lambda s: ''.join(c.lower() if i % 2 == 0 else c.upper() for i, c in enumerate(s))))
STYLES = {'FirFilter': (FIRSTYLE, dict(frequency=0.1, order=11, count=1, complement=False, gain=1.0)),
          'IirFilter': (IIRSTYLE, dict(frequency=0.1, order=3, count=1, complement=False, gain=1.0)),
          'WindowFilter': (FIRSTYLE, dict(order=15, normal=True)),
          'DiversityModel': (DISTANCE, dict(order=4)),
          'WaveletTransform': (tuple(tables.WAVE), None)}
# words by which the designs are known to the numerical library
WORDS = {'Blackman': ('blackman',), 'Hamming': ('hamming',), 'Hann': ('hann', 'hanning'), 'Kaiser': ('kaiser',), 'Bessel': ('bessel', 'besselap'), 'Butterworth': ('butter', 'buttap', 'butterworth'), 'Chebyshev': ('cheby1', 'cheby2', 'cheb1ap', 'cheb2ap', 'chebyshev')}
def proto(c):
    """Monic polynomial, highest degree first, scaled to unit constant term."""
    if any(isinstance(x, complex) and abs(x.imag) > 1e-9 * abs(x) for x in c): return None
    c = [complex(x).real for x in c]
    if not c[0] or c[-1] / c[0] <= 0.0: return None
    n = len(c) - 1; g = (c[-1] / c[0]) ** (1.0 / n)
    return [x / c[0] / g ** k for k, x in enumerate(c)]
def fromroots(p):
    c = [1.0]
    for r in p: c = [x - r * y for x, y in zip(c + [0.0], [0.0] + c)]
    return [x.real if isinstance(x, complex) else x for x in c]
def close(a, b, tol=1e-6): return a is not None and len(a) == len(b) and (max(abs(x - y) for x, y in zip(a, b)) <= tol or max(abs(x - y) for x, y in zip(a, reversed(b))) <= tol)
def prototypes(n):
    th = [math.pi * (2 * k - 1) / (2 * n) for k in range(1, n + 1)]
    # theta_n( s ) = sum a_k s^k from the reverse recursion theta_n = ( 2 n - 1 ) theta_{n-1} + s^2 theta_{n-2}
    t0, t1 = [1.0], [1.0, 1.0]
    for i in range(2, n + 1):
        t = [(2 * i - 1) * x for x in t1] + [0.0]
        for k, x in enumerate(t0): t[k + 2] += x
        t0, t1 = t1, t
    bessel = list(reversed(t1))
    cheb = lambda v: fromroots([complex(-math.sinh(v) * math.sin(t), math.cosh(v) * math.cos(t)) for t in th])
    return proto(bessel), proto(fromroots([complex(-math.sin(t), math.cos(t)) for t in th])), lambda v: proto(cheb(v))
def which(c):
    """Names of the classical low-pass prototypes which a polynomial is."""
    c = proto(c)
    if c is None: return None
    n = len(c) - 1; b, w, ch = prototypes(n); out = set()
    if close(c, b): out.add('Bessel')
    if close(c, w): out.add('Butterworth')
    for d in (c, list(reversed(c))):
        lo, hi = 1e-3, 8.0
        for _ in range(200):
            v = 0.5 * (lo + hi)
            if ch(v)[1] > d[1]: hi = v
            else: lo = v
        if close(d, ch(lo), 1e-5) and lo < 2.5: out.add('Chebyshev')
    return out
def designed(ctx, ev, order):
    """Prototypes of the first polynomial of the given order whose roots or residues are taken; None if not constant."""
    for e in ev:
        if e.kind == 'extcall' and e.name.rsplit('.', 1)[-1] in ('roots', 'residue', 'polyroots', 'tf2zpk'):
            cs = [tables.consts_of(ctx, e.state, a) for a in e.args]
            cs = [c for c in cs if c is not None and len(c) == order + 1]
            if cs: return which(cs[0])
    return None
def variants(w): return (w + '-1', w + '_1', w + ' 1', w + '.1', w + ':1', w + '/1', w + '/', '/' + w, '-' + w, '_' + w, ' ' + w, '.' + w, w + '\n', '\t' + w, w + '()', w + ',' + w, w + w, w[0], w[:2], w[:3], w[1:], w[::-1], '"' + w + '"', w + '0', w + '-', w + '_', w + '.', w[0] + '-' + w[1:], w[0] + ' ' + w[1:], w[0] + '_' + w[1:])
def unknown(styles): return tuple(x for s in (styles[0], styles[-1]) for x in variants(s) if x.lower() not in {q.lower() for q in styles}) + ('Zzz', '', styles[0] + ' ', styles[0][:-1], styles[0] + 's', 'None', 'Rectangular', styles[0] + styles[1])
def words(events):
    """Constant names passed to, and last components of, the external functions called."""
    out = set()
    def rec(v, d=0):
        if not isinstance(v, V) or d > 3: return
        if v.k == 'str' and isinstance(v.c, str): out.add(v.c.lower())
        if v.k == 'tuple' and isinstance(v.c, tuple):
            for w in v.c: rec(w, d + 1)
    for e in events:
        if e.kind != 'extcall' or not e.name.startswith(('scipy', 'numpy')): continue
        out.add(e.name.rsplit('.', 1)[-1].lower())
        for v in list(e.args) + list(e.kw.values()): rec(v)
    return out
def calls(events):
    """Calls of the design functions with their constant arguments."""
    out = set()
    def val(v):
        if v.k == 'tuple' and isinstance(v.c, tuple): return tuple(val(w) for w in v.c)
        return v.c if v.c is not NOC and isinstance(v.c, (int, float, str, bool)) else v.k
    for e in events:
        if e.kind == 'extcall' and e.name.startswith('scipy'): out.add((e.name, tuple(val(v) for v in e.args), tuple(sorted((k, val(v)) for k, v in e.kw.items()))))
    return out
def construct(ctx, cls, lab, kw):
    I = ctx.I; n = len(I.events)
    r = ctx.guard('analysis', lab, lambda: ctx.D.construct(cls, kw={k: vconst(v) for k, v in kw.items()}, st=blank(I)))
    ev = I.events[n:]; del I.events[n:]
    return r, ev
def accepted(ctx, rule, lab, r, f, n, key, what):
    R = ctx.R
    if r is None: return False
    if r.results: R.ok(rule, lab); return True
    ex = sorted({str(excname(o)) for o in r.raises})
    R.bad(rule, lab, f'{what} is rejected ({", ".join(ex)})', f, n, key=key); return False
def lines(r): return {getattr(o.node, 'lineno', 0) for o in r.raises if excname(o) == 'ValueError'}
def refused(ctx, rule, lab, r, f, n, key, what, usual=frozenset()):
    R = ctx.R
    if r is None: return
    if not r.results:
        if all(excname(o) == 'ValueError' for o in r.raises) and r.raises: R.ok(rule, lab)
        elif not any(excname(o) == 'ValueError' for o in r.raises): R.bad(rule, lab, f'{what} fails with {sorted({str(excname(o)) for o in r.raises})} instead of ValueError', f, n, key=key + '|kind')
        else: R.undecided(rule, lab, f'exceptions {sorted({str(excname(o)) for o in r.raises})}')
    elif lines(r) - usual: R.undecided(rule, lab, 'rejection not decided')
    else: R.bad(rule, lab, f'{what} is accepted', f, n, key=key)
def c18(ctx):
    R, I = ctx.R, ctx.I
    for cls, (styles, base) in STYLES.items():
        f, n = ctx.site(cls, '__init__')
        usual = set()
        for s in styles:
            ref = None
            for cn, fold in CASES:
                if not ctx.mine() and cn != 'as listed': continue
                kw = dict(base) if base is not None else dict(order=tables.WAVE[s][0])
                lab = f'{cls}( {fold(s)!r} )'
                r, ev = construct(ctx, cls, lab, dict(kw, style=fold(s)))
                accepted(ctx, 'style-accepted', lab, r, f, n, f'{cls}|{s}|{cn}', f'the advertised style {s!r} of {cls}, given {cn},')
                if r is not None and r.results:
                    usual |= lines(r)
                    w = words(ev)
                    cc = calls(ev)
                    if cn == 'as listed': ref = cc
                    elif ref is not None and cc is not None:
                        if cc == ref: R.ok('style-same', lab)
                        else: R.bad('style-same', lab, f'the style given as {fold(s)!r} does not select the same design as {s!r}: the design is called with {sorted(cc - ref, key=repr)[:3]} instead of {sorted(ref - cc, key=repr)[:3]}', f, n, key=f'{cls}|same|{s}')
                    own, other = WORDS.get(s) if cls != 'DiversityModel' else None, {x for q, ws in WORDS.items() if q != s and q in styles for x in ws}
                    if own:
                        if w & set(own): R.ok('style-design', lab)
                        elif w & other: R.bad('style-design', lab, f'the style {fold(s)!r} of {cls} selects the design {", ".join(sorted(w & other))}', f, n, key=f'{cls}|design|{s}')
                        else:
                            q = designed(ctx, ev, kw['order'])
                            if q is None: R.undecided('style-design', lab, 'design is not known')
                            elif s in q: R.ok('style-design', lab)
                            else: R.bad('style-design', lab, f'the style {fold(s)!r} of {cls} does not select the {s} design' + (f' but {", ".join(sorted(q))}' if q else ''), f, n, key=f'{cls}|design|{s}')
        if not ctx.mine(): continue
        for s in list(unknown(styles)) + [w for w in ctx.words(cls) if w.lower() not in {q.lower() for q in styles}]:
            kw = dict(base) if base is not None else dict(order=5)
            lab = f'{cls}( {s!r} )'
            r, ev = construct(ctx, cls, lab, dict(kw, style=s))
            refused(ctx, 'style-rejected', lab, r, f, n, f'{cls}|unknown', f'the unknown style {s!r} of {cls}', usual)
    def number(cls, kw, good):
        f, n = ctx.site(cls, '__init__')
        a = ', '.join(str(v) for v in kw.values()); lab = f'{cls}( {a} )'
        r, _ = construct(ctx, cls, lab, kw)
        if good: accepted(ctx, 'order-accepted', lab, r, f, n, f'{lab}', f'the advertised {lab}')
        else: refused(ctx, 'order-rejected', lab, r, f, n, f'{lab}', f'{lab}, which is not advertised,')
    for d in range(-1, 6):
        for o in range(-1, 12):
            if ctx.mine(): number('DerivativeFilter', dict(derivative=d, order=o), o in tables.DERIVATIVE.get(d, ()))
    for o in range(-2, 9):
        if ctx.mine(): number('IntegralFilter', dict(order=o), o in tables.INTEGRAL)
    for s, os_ in tables.WAVE.items():
        for o in list(range(-1, 32)) + [35]:
            if ctx.mine(): number('WaveletTransform', dict(style=s, order=o), o in os_)
    if ctx.mine(): http(ctx)
    if ctx.mine(): levels(ctx)
    if ctx.mine(): forms.own_distance(ctx)
def http(ctx):
    R, I = ctx.R, ctx.I
    f, n = ctx.site('RestClient', 'request')
    q = rest.client(ctx, vconst('http://h.example'))
    if q is None: R.undecided('method-accepted', 'RestClient', 'no client'); return
    o, st = q
    for m in rest.METHODS:
        for cn, fold in CASES:
            lab = f'request( {fold(m)!r} )'
            r, sends, ev = rest.run(ctx, o, st, lab, method=vconst(fold(m)), api=vconst('a'), auth=NONE, header=NONE, item=NONE, data=NONE, json=NONE)
            if not accepted(ctx, 'method-accepted', lab, r, f, n, f'method|{m}|{cn}', f'the supported method {m!r}, given {cn},'): continue
            ms = {e.method.c.upper() if isinstance(e.method, V) and isinstance(e.method.c, str) else None for e in sends}
            if ms == {m.upper()}: R.ok('method-own', lab)
            elif None in ms or not ms: R.undecided('method-own', lab, 'method not decided')
            else: R.bad('method-own', lab, f'the method {fold(m)!r} is sent as {sorted(ms)}', f, n, key=f'method-own|{m}')
    for m in list(rest.BAD) + [x for q in ('Get', 'Options') for x in variants(q) if x.lower() not in {y.lower() for y in rest.METHODS}] + [w for w in ctx.words('RestClient') if w.lower() not in {q.lower() for q in rest.METHODS}]:
        lab = f'request( {m!r} )'
        r, sends, ev = rest.run(ctx, o, st, lab, method=vconst(m), api=vconst('a'), auth=NONE, header=NONE, item=NONE, data=NONE, json=NONE)
        refused(ctx, 'method-rejected', lab, r, f, n, 'method|unknown', f'the unsupported method {m!r}')
def levels(ctx):
    R = ctx.R
    l = logs.L(ctx)
    for op in ('level', 'write'):
        f, n = l.site(op)
        usual = set()
        for s in logs.LEVEL:
            for cn, fold in CASES:
                lab = f'Log.{op}( {fold(s)!r} )'
                r = l.op(op, [vconst(fold(s))] + ([text('entry')] if op == 'write' else []))
                if r is not None and r.results: usual |= lines(r)
                accepted(ctx, 'level-accepted', lab, r, f, n, f'{op}|{s}|{cn}', f'the level {s!r}, given {cn} to {op},')
        for s in ['Bogus', '', 'Inf', 'Infos', 'Error ', 'Warn', 'Err', 'Fatal', 'Verbose', 'Notice', 'Emergency', 'Crit', '10', '20', '30', 'None', 'Off', 'All', 'NotSet'] + [x for q in ('Info', 'Warning') for x in variants(q) if x.lower() not in {y.lower() for y in logs.LEVEL}] + [w for w in ctx.words('Log') if w.lower() not in {q.lower() for q in logs.LEVEL}]:
            lab = f'Log.{op}( {s!r} )'
            refused(ctx, 'level-rejected', lab, l.op(op, [vconst(s)] + ([text('entry')] if op == 'write' else [])), f, n, f'{op}|unknown', f'the unknown level {s!r} given to {op}', usual)
