"""C27: the shared polyphase bank."""
import math
from ..core import *
from .. import poly, interp as ip
from .lines import forms, vec, joined
from .laws import literals, smallbank
from .models import value
CLS = 'PolyphaseRateFilter'
def table(ctx, st, its, rr, cc, kind='f'):
    """Replace two-dimensional class tables by one of small size; names of the tables."""
    ci = ctx.I.classes.get(CLS); c = ctx.I.cell(st, ci.loc) if ci is not None else None
    if c is None: return None
    at = dict(c.attrs or {}); out = []
    dims = {d.const for v in at.values() if v.k == 'arr' and v.shape is not None and len(v.shape) == 2 for d in v.shape if d is not None}
    if literals(ctx, ci) & dims: return None
    for n, v in list(at.items()):
        if v.k == 'arr' and v.shape is not None and len(v.shape) == 2:
            st.heap['tab:PolyphaseRateFilter.bank'] = Cell('arr', elem=joined(its, kind), items=tuple(its))
            at[n] = v.r(shape=(Dim(rr), Dim(cc)), locs=frozenset(['tab:PolyphaseRateFilter.bank']), c=NOC); out.append(n)
    ctx.I.setcell(st, ci.loc, c.r(attrs=at))
    return out
def shared(ctx, st):
    """Locations reachable from the attributes of the class, by attribute."""
    ci = ctx.I.classes.get(CLS); c = ctx.I.cell(st, ci.loc); out = {}
    for n, v in (c.attrs or {}).items():
        if v.k not in ('arr', 'list', 'dict', 'set'): continue
        for l in v.locs: out[l] = n
    return out
def design(ctx, n, log):
    """Design of a low-pass prototype: coefficients are formal numbers which depend on the arguments of the design."""
    def stub(I, ci, args, kw, st, node):
        ps = ['style', 'frequency', 'order', 'count', 'complement', 'gain', 'b', 's']
        a = dict(zip(ps, args)); a.update(kw)
        k = a.get('order')
        if k is None or not isinstance(k.c, int) or 'b' in a and a['b'].k != 'none': raise Unsupported('design')
        fs = forms('h', k.c + 1, 'f'); deps = frozenset().union(*[x.deps for x in a.values()])
        log.append((a.get('style'), a.get('frequency'), k.c, dict(a)))
        b = vec(st, 'h', fs, 'f'); c = I.cell(st, 'arg:h')
        I.setcell(st, 'arg:h', c.r(elem=c.elem.r(deps=deps), items=tuple(q.r(deps=deps) for q in c.items)))
        st.heap['new:design'] = I.cell(st, 'arg:h'); b = b.r(locs=frozenset(['new:design']))
        return I.construct(ci, [], dict(b=b), st, node, stubbed=True)
    return stub
def c27(ctx):
    poly.REAL.clear(); poly.REAL.update('h')
    R, I = ctx.R, ctx.I
    site = ctx.site(CLS, '__init__')
    # the first construction publishes one complete bank
    for rr, cc in ((4, 3), (2, 4), (3, 2), (5, 1), (4, 5)):
        for rate in (None, 1.0, 0.37):
            if not ctx.mine(): continue
            lab = f'first {CLS}( {"any rate" if rate is None else rate} ), bank of {rr} rows of {cc}'
            st = blank(I); log = []
            z = tuple(vconst(0.0) for _ in range(rr * cc))
            names = table(ctx, st, z, rr, cc)
            if not names: R.undecided('publish', lab, 'table not found'); continue
            pub = dict(shared(ctx, st))
            r = vconst(rate) if rate is not None else V('num', dt=DF, iv=(0.0, True, float(rr), True), deps=frozenset(['arg:rate']), mv=frozenset(['rate']), t=('par', 'rate'))
            I.stubs['FirFilter'] = design(ctx, rr * cc, log); n0 = len(I.events)
            q = ctx.guard('publish', lab, lambda: ctx.D.construct(CLS, kw=dict(rate=r), st=st, op='k0'))
            I.stubs.clear()
            if q is None: continue
            ev = I.events[n0:]; del I.events[n0:]
            if len(q.results) != 1: R.undecided('publish', lab, 'path not decided' if q.results else 'rejected'); continue
            o, s1 = q.results[0]
            bad = None; stores = []
            for e in ev:
                if e.kind == 'classstore' and e.cls == CLS and e.value.__class__ is V:
                    stores.append(e)
                    for l in e.value.locs if e.value.k == 'arr' else (): pub[l] = e.attr
                elif e.kind == 'write' and e.d.get('loc') in pub:
                    if e.locks: bad = bad or ('?', e)
                    else: bad = ('write', e)
                    if bad[0] == 'write': break
            if bad and bad[0] == 'write':
                e = bad[1]; R.bad('published-write', lab, f'{e.func} writes into {pub[e.d["loc"]]} after other instances can see it, the bank is not complete when published', e.file, e.line, key='published-write'); continue
            if bad: R.undecided('publish', lab, 'written under a lock'); continue
            arr = [e for e in stores if e.value.k == 'arr']
            if len(arr) > 1 and len({e.attr for e in arr}) < len(arr):
                e = arr[0]; R.bad('published-once', lab, f'{e.func} publishes {e.attr} more than once, the first value is not the final one', e.file, e.line, key='published-once'); continue
            if not stores: 
                z = ctx.guard('publish', lab, lambda: ctx.D.get(o, 'b', s1.copy(), op='g'))
                its = I.vitems(z.results[0][1], z.results[0][0]) if z and len(z.results) == 1 and z.results[0][0].k == 'arr' else None
                if its and all(q_.c == 0.0 for q_ in its): R.bad('publish', lab, f'{lab}: no bank is published, the coefficients of the filter stay zero', *site, key='unpublished')
                else: R.undecided('publish', lab, 'no publication found')
                continue
            # flags which suppress the computation are set after the bank
            if arr:
                first = stores.index(arr[0]); loads = {e.attr for e in ev if e.kind == 'classload' and e.d.get('cls') == CLS}
                early = [e for e in stores[:first] if e.attr in loads and e.attr not in names]
                if early:
                    e = early[0]; R.bad('flag', lab, f'{e.func} sets {e.attr} before the bank is published: another thread takes the bank as complete', e.file, e.line, key='flag'); continue
            for e in arr:
                v = I.cell(s1, I.classes[CLS].loc).attrs.get(e.attr)
                its = I.vitems(s1, v) if v is not None and v.k == 'arr' else None
                if v is not None and v.k == 'arr' and v.shape is not None and all(d is not None and d.const is not None for d in v.shape) and tuple(d.const for d in v.shape) != (rr, cc):
                    R.bad('rows', lab, f'{lab}: the published bank has shape {tuple(d.const for d in v.shape)} instead of {(rr, cc)}', e.file, e.line, key='shape'); break
                if its is None or len(its) != rr * cc: R.undecided('rows', lab, 'bank not known element by element'); break
                c = I.content(s1, v, 'keep')
                dep = sorted(d for d in c.deps | frozenset().union(*[q_.deps for q_ in its]) if d.startswith('arg:rate') or d in ('rng', 'clock', 'env') or d.startswith('st:'))
                if dep: R.bad('constant', lab, f'{lab}: the published bank depends on {", ".join(dep)} of the first construction', e.file, e.line, key='constant'); break
                ts = [q_.t if q_.t is not None else ('c', q_.c) if q_.c is not NOC else None for q_ in its]
                if any(t is None for t in ts): R.undecided('rows', lab, 'not in closed form'); break
                hs = forms('h', rr * cc, 'f'); msg = None
                try:
                    for k in range(8):
                        env = {t: 0.3 + math.sin(2.1 * j + 1.7 * k + 0.4) ** 2 for j, t in enumerate(hs)}
                        if k > 3: m = sum(env.values()) * (1.0, 1.0, 1e3, 1e-3)[k - 4]; env = {t: v / m for t, v in env.items()}  # as a low-pass prototype, of about unit gain
                        w = [[value(t, env) for t in ts[i * cc:(i + 1) * cc]] for i in range(rr)]
                        for i, row in enumerate(w):
                            ph = [env[hs[j * rr + i]] for j in range(cc)]
                            if abs(sum(row) - 1.0) > 1e-9: msg = ('normal', f'row {i} of the bank has sum {sum(row):.6g}, it is not normalised')
                            elif any(abs(a - b / sum(ph)) > 1e-9 for a, b in zip(row, ph)): msg = ('phase', f'row {i} of the bank is not phase {i} of the prototype')
                            if msg: break
                        if msg: break
                except (poly.NoForm, OverflowError, ZeroDivisionError, TypeError, ValueError, IndexError, KeyError): R.undecided('rows', lab, 'not in closed form'); break
                if msg: R.bad(msg[0], lab, f'{lab}: {msg[1]}', e.file, e.line, key=msg[0]); break
            else:
                if arr: R.ok('publish', lab)
                else: R.undecided('publish', lab, 'publication not followed')
                for v in log:
                    f = v[1]
                    if v[0] is None or f is None: continue
                    if f.k == "num" and f.c is not NOC and (not 0.0 < f.c <= 1.0 / rr): R.bad('prototype', lab, f'{lab}: the prototype has cutoff {f.c:.4g}, above the bandwidth 1 / {rr} of a phase', *site, key='prototype')
                    elif f.k == "num" and f.c is not NOC: R.ok('prototype', lab)
    # a published bank never changes
    for rr, cc in ((4, 3), (3, 2)):
        for rate in (1.0, 0.37, 2.5, None):
            if not ctx.mine(): continue
            lab = f'{CLS}( {"any rate" if rate is None else rate} ) with a published bank of {rr} rows of {cc}'
            st = blank(I)
            if smallbank(ctx, st, rr, cc) is None: R.undecided('unchanged', lab, 'bank not found'); continue
            r = vconst(rate) if rate is not None else V('num', dt=DF, iv=(0.0, False, float(rr), True), deps=frozenset(['arg:rate']), mv=frozenset(['rate']), t=('par', 'rate'))
            before = shared(ctx, st); n0 = len(I.events)
            sts = None; o = None; ok = True
            def done(q, what):
                """Stores and writes of a step; states after it."""
                nonlocal ok
                ev = I.events[n0:]; del I.events[n0:]
                for e in ev:
                    if e.kind == 'write' and e.d.get('loc') in before: R.bad('unchanged', lab, f'{e.func} ( {what} ) writes into the published {before[e.d["loc"]]}', e.file, e.line, key=f'unchanged|{e.func}'); ok = False
                    elif e.kind == 'classstore' and e.cls == CLS and e.value.__class__ is V and e.value.k == 'arr' and not e.value.locs & set(before):
                        its = I.vitems(q[0][1], e.value) if q else None
                        if log and (its is None or any(q_.t is None or any(l[1] == 'h' for l in poly.leaves(q_.t)) for q_ in its)): ok = ok and None; continue  # the same bank again
                        R.bad('unchanged', lab, f'{e.func} ( {what} ) replaces the published {e.attr}', e.file, e.line, key=f'replaced|{e.func}'); ok = False
            log = []; I.stubs['FirFilter'] = design(ctx, rr * cc, log)
            q = ctx.guard('unchanged', lab, lambda: ctx.D.construct(CLS, kw=dict(rate=r), st=st, op='k0'))
            I.stubs.clear()
            if q is None: continue
            done(q.results, 'construction')
            for o, s in q.results[:3]:
                for what, a in (('filter', 5), ('filter', 2), ('reset', 0), ('rate', 0), ('s', 0)):
                    s2 = s.copy()
                    if what == 'filter': z = ctx.guard('unchanged', lab, lambda: ctx.D.method(o, 'filter', [], dict(x=vec(s2, 'x', forms('x', a, 'f'), 'f')), s2, op='k1'))
                    elif what == 'reset': z = ctx.guard('unchanged', lab, lambda: ctx.D.method(o, 'reset', [], dict(x=V('num', dt=DF, t=('par', 'x'), deps=frozenset(['arg:x']), mv=frozenset(['x']))), s2, op='k1'))
                    elif what == 'rate': z = ctx.guard('unchanged', lab, lambda: ctx.D.set(o, 'rate', vconst(0.7), s2, op='k1'))
                    else: z = ctx.guard('unchanged', lab, lambda: ctx.D.set(o, 's', vec(s2, 'q', forms('q', cc, 'f'), 'f'), s2, op='k1'))
                    if z is None: ok = None if ok else ok; continue
                    done(z.results, what)
            if ok: R.ok('unchanged', lab)
            elif ok is None: R.undecided('unchanged', lab, 'step not followed')
    # constructions at the rates next to numbers of the source, with the bank as it is
    for q_ in [q for q in ctx.limits(6, 255, CLS) if q < 256][:9]:
        if not ctx.mine(): continue
        lab = f'first {CLS}( {q_} )'
        st = blank(I); ci = I.classes.get(CLS); pub = dict(shared(ctx, st)); n0 = len(I.events); log = []
        I.stubs['FirFilter'] = design(ctx, 256 * 15, log)
        z = ctx.guard('publish', lab, lambda: ctx.D.construct(CLS, kw=dict(rate=vconst(q_)), st=st, op='k0'))
        I.stubs.clear()
        ev = I.events[n0:]; del I.events[n0:]
        if z is None: continue
        bad = None
        for e in ev:
            if e.kind == 'classstore' and e.cls == CLS and e.value.__class__ is V and e.value.k == 'arr': pub.update((l, e.attr) for l in e.value.locs)
            elif e.kind == 'write' and e.d.get('loc') in pub and not e.locks: bad = bad or e
        if bad: R.bad('published-write', lab, f'{bad.func} writes into {pub[bad.d["loc"]]} after other instances can see it, the bank is not complete when published', bad.file, bad.line, key='published-write')
        elif len(z.results) == 1: R.ok('publish', lab)
        else: R.undecided('publish', lab, 'path not decided' if z.results else 'rejected')
    # nothing but the construction writes into the bank, at any rate
    for x in ctx.walk([BASE], classes=(CLS,)):
        bad = [e for e in x.events if e.kind == 'write' and (e.d.get('loc', '').startswith('tab:' + CLS) or any(e.d.get('loc') in shared(ctx, st) for _, st in x.step.results))] if x.phase != 'ctor' else []
        for e in bad: R.bad('unchanged', x.label, f'{e.func} ( {x.phase} ) writes into the published bank', e.file, e.line, key=f'unchanged|{e.func}')
        if not bad: R.ok('unchanged', x.label)
