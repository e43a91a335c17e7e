"""C05: streaming filters and blocks."""
from ..core import *
FILTERS = 'FirFilter IirFilter DerivativeFilter IntegralFilter GoertzelFilter RankFilter PidFilter PolyphaseRateFilter ComplexExponentialFilter ComplexBandpassFilter ComplexFrequencyFilter'.split()
COMPLEX = ('ComplexBandpassFilter', 'ComplexFrequencyFilter')

def relabel(I, st, o, pre='st:'):
    """The attributes of an instance become symbolic state of arbitrary history."""
    for l0 in o.locs:
        c = I.cell(st, l0)
        at = {}
        for n, v in (c.attrs or {}).items():
            lab = frozenset([pre + n])
            if v.k in ('num', 'bool', 'str'): at[n] = v.r(deps=lab, c=NOC) if v.k == 'num' else v.r(deps=lab)
            else:
                at[n] = v
                if v.k in ('arr', 'list'):
                    for l in v.locs:
                        if foreignloc(l): continue
                        q = I.cell(st, l)
                        if q is not None and q.elem is not None: I.setcell(st, l, q.r(elem=q.elem.r(deps=lab, c=NOC, lin=q.elem.lin if q.elem.lin != 'Z' else 'K'), items=None))
                        elif q is not None and q.items is not None: I.setcell(st, l, q.r(elem=V('num', dt=v.dt, deps=lab), items=None))
                    at[n] = v.r(deps=E0)
                if v.k == 'inst': relabel(I, st, v, pre)
        I.setcell(st, l0, c.r(attrs=at))
def foreignloc(l): return l.startswith(('tab:', 'cls:', 'mod:', 'def:'))

def allattrs(ctx, st, o, out=None):
    """name -> list of ( deps, locs ) for attributes of the instance and instances it owns."""
    out = {} if out is None else out
    I = ctx.I
    for n, v in ctx.attrs(st, o).items():
        if v.k == 'inst': allattrs(ctx, st, v, out); continue
        d = set(v.deps)
        for l in v.locs:
            c = I.cell(st, l)
            if c is not None and c.elem is not None: d |= c.elem.deps
            if c is not None and c.items:
                for w in (c.items.values() if isinstance(c.items, dict) else c.items):
                    if isinstance(w, V): d |= w.deps
        out.setdefault(n, []).append((d, v.locs))
    return out
def elemdeps(ctx, st, v):
    I = ctx.I
    d = set(); ref = set(v.deps)
    if v.k in ('num', 'bool', 'any'): return set(v.deps), set()
    for l in v.locs:
        c = I.cell(st, l)
        if c is None: continue
        if c.elem is not None: d |= c.elem.deps
        for w in (c.items or ()) if not isinstance(c.items, dict) else c.items.values():
            if isinstance(w, V): d |= w.deps
    return d, ref

def c05(ctx):
    R, I = ctx.R, ctx.I
    for n in FILTERS:
        c = BYNAME[n]
        q = c.ops[0]; p = next(iter(q.p))
        for k in [z for z in c.ctors if not z.name.startswith('style')]:
            for sig in (('c',) if n in COMPLEX else ('f', 'c') if n != 'ComplexExponentialFilter' else ('f',)):
                for cont in ('arr', 'list'):
                    if not ctx.mine(): continue
                    m = Mode(sig=sig, el=True, cont=cont)
                    x = ctx.ctor(c, k, Mode(sig=sig, coef='c' if sig == 'c' and n != 'GoertzelFilter' else 'f'))
                    if x is None: continue
                    starts = [(o, st, '') for o, st in x.step.results[:3]]
                    for o, st, how in starts:
                        st = st.copy(); relabel(I, st, o)
                        I.block_mode = True; I.carry_init = {}; I.lenlabel = {f'{p}.N': 'len:' + p}
                        try: y = ctx.call(c, o, st, q, m, label=x.label)
                        finally: I.block_mode = False; I.lenlabel = {}
                        if y is None: continue
                        judge(ctx, n, y, p, dict(I.carry_init))

def judge(ctx, n, y, p, init):
    R, I = ctx.R, ctx.I
    def opsite(): return ctx.site(n, 'filter')
    # state thrown away at the call boundary
    o = y.obj
    for e in y.events:
        if e.kind == 'attrstore' and e.nl == 0 and o is not None and e.loc in o.locs: tgt, val = e.attr, e.value
        elif e.kind == 'write' and e.nl == 0 and e.via == 'setitem':
            tgt = None
            for a, v in ctx.attrs(y.pre, o).items():
                if v.k == 'arr' and e.loc in v.locs: tgt = a
            if tgt is None or not fullslice(e.index): continue
            val = e.value
        else: continue
        d = set(val.deps)
        for l in val.locs:
            q = I.cell(e.state, l)
            if q is not None and q.elem is not None: d |= q.elem.deps
        pc = set(e.state.pc)
        ok = any(s.startswith(('st:', 'el:', 'cur:', 'unk:', 'carry:')) for s in d if isinstance(s, str)) or any(isinstance(s, str) and s.startswith('st:') for s in pc)
        if not ok and readlater(y, e): R.bad('history-discarded', y.label, f'{e.func} overwrites the carried {tgt} with a value which does not depend on the history: consecutive blocks differ from one block', e.file, e.line)
        elif not ok: R.undecided('history-kept', y.label, f'{e.file}:{e.line}')
        else: R.ok('history-kept', f'{y.label} {tgt} line {e.line}')
    for v, st in y.step.results:
        outs = v.c if v.k == 'tuple' and isinstance(v.c, tuple) else (v,)
        at = allattrs(ctx, st, o)
        items = [(f'output[{i}]', w, 'output') for i, w in enumerate(outs)]
        checks = [(nm, elemdeps(ctx, st, w)[0]) for nm, w, _ in items] + [('state ' + a, d) for a, l in at.items() for d, _ in l]
        for nm, d in checks:
            bad = und = None
            for s in sorted(z for z in d if isinstance(z, str)):
                h, _, t = s.partition(':')
                if h == 'blk' and t == p: bad = f'depends on other samples of the block than the current one'
                elif h == 'len': bad = 'depends on the length of the block'
                elif h == 'pos': bad = 'depends on the position of the sample in the block'
                elif h == 'unk' and t == p: und = 'depends on a part of the block'
                elif h == 'carry':
                    i = {z[3:] for z in init.get(t, ()) if isinstance(z, str) and z.startswith('st:')}
                    back = [a for a in i for dd, locs in at.get(a, []) if s in dd or t in locs]
                    if not i: bad = f'depends on the local history {t!r}, which starts anew in every block'
                    elif not back: bad = f'depends on the local history {t!r}, which is not carried back to the instance'
                if bad: break
            f, ln = opsite()
            if bad: R.bad('block-dependence', y.label, f'{n}.filter: {nm} {bad}', f, ln, key=f'{n}|{nm.split("[")[0]}|{bad}')
            elif und: R.undecided('block-dependence', y.label, f'{nm} {und}')
            else: R.ok('block-dependence', f'{y.label} {nm}')
def fullslice(i):
    return i is not None and i.k == 'slice' and all(z.k == 'none' for z in i.c) or i is not None and i.k == 'ellipsis'
def readlater(y, e): return True
