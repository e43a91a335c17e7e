"""C01, C02, C03: locations written, stored and returned."""
from ..core import *

MODES = [Mode(), Mode(cont='list', sig='i', coef='i', state='i'), Mode(sig='c', coef='c', state='c')]
QMODES = [Mode(), Mode(sig='c', coef='c', state='c'), Mode(cont='list')]
def where(e): return e.file, e.line

def c01(ctx):
    R = ctx.R
    for x in ctx.walk(MODES if ctx.tier == 'thorough' else QMODES, pairs='all' if ctx.tier == 'thorough' else 'same'):
        argl = {l for l in x.pre.heap if l.startswith('arg:')}
        if not argl: continue
        bad = False
        for e in x.events:
            if e.kind == 'write' and e.loc.startswith('arg:'):
                bad = True
                R.bad('argument-written', x.label, f'{e.func} writes ({e.via}) into the caller\'s argument {e.loc[4:]!r}', e.file, e.line)
            elif e.kind == 'anycall' and any(getattr(a, 'locs', None) and any(l.startswith('arg:') for l in a.locs) for a in e.d.get('args', ())):
                R.undecided('argument-written', x.label, f'argument passed to unresolved call {e.d.get("name")} {e.file}:{e.line}')
        if not bad:
            for l in argl: R.ok('argument-written', f'{x.label} {l[4:]}')

OWNFREE = ('arg:', 'tab:', 'def:', 'cls:', 'mod:')
def foreign(I, l):
    return l.startswith(OWNFREE)
def describe(l):
    if l.startswith('arg:'): return f'the caller\'s argument {l[4:]!r}'
    if l.startswith('tab:cache'): return 'an object cached and shared by all instances'
    if l.startswith('tab:'): return f'the class-level table of {l[4:].split(":")[0]}'
    if l.startswith('def:'): return 'a shared default argument'
    return f'shared object {l}'

def numericlike(ctx, st, v):
    if v.k == 'arr': return True
    if v.k == 'list': return True
    return False
def site(ctx, st, o, path, default):
    a = path.strip('.').split('.')[0].split('[')[0]
    return a

def c02(ctx):
    R, I = ctx.R, ctx.I
    for x in ctx.walk(MODES if ctx.tier == 'thorough' else QMODES, pairs='none' if ctx.tier != 'thorough' else 'same'):
        if BYNAME[x.cls].static or x.cls in ('RestClient',): continue
        stores = {}
        for e in x.events:
            if e.kind in ('attrstore',): stores.setdefault(e.attr, e)
        outs = x.step.results if x.phase == 'ctor' else [(x.obj, s) for _, s in x.step.results]
        outs = outs + [(x.obj, o.st) for o in x.step.raises if x.obj is not None]
        for o, st in outs:
            for path, v in ctx.reach(st, o):
                if v.k not in ('arr', 'list', 'any', 'dict'): continue
                a = site(ctx, st, o, path, '')
                if x.cls == 'PolyphaseRateFilter' and a in ('_b', 'b'): continue
                fl = sorted(l for l in v.locs if foreign(I, l))
                if v.k == 'dict': fl = [l for l in fl if not l.startswith('tab:')]
                if fl and v.k in ('arr', 'list'):
                    e = stores.get(a)
                    R.bad('attribute-shares-memory', x.label, f'after {x.phase}, {x.cls}{path} shares memory with {describe(fl[0])}', e.file if e else '', e.line if e else 0, key=f'{x.cls}{path}|{fl[0].split(":")[0]}' + (f'|{e.file}:{e.line}' if e else ''))
                elif v.k == 'any' and not v.locs and v.deps: R.undecided('attribute-shares-memory', x.label, f'{x.cls}{path} is of unknown origin')
                else: R.ok('attribute-shares-memory', f'{x.label} {path}')
    # two instances constructed from nothing shared
    for c in API:
        if c.static or c.name == 'RestClient': continue
        for k in c.ctors:
            if c.name in ('IirFilter', 'FirFilter') and k.name not in ('coefficients', 'style=Chebyshev', 'style=Kaiser'): continue
            if not ctx.mine(): continue
            x = ctx.ctor(c, k, BASE, op='k0')
            if x is None: continue
            for o1, s1 in x.step.results[:2]:
                first = {l for p, v in ctx.reach(s1, o1) for l in v.locs}
                y = ctx.ctor(c, k, BASE, st=s1.copy(), op='k9', prefix='2', label=f'second {c.name}({k.name})')
                if y is None: continue
                for o2, s2 in y.step.results[:2]:
                    for path, v in ctx.reach(s2, o2):
                        a = site(ctx, s2, o2, path, '')
                        if c.name == 'PolyphaseRateFilter' and a in ('_b', 'b'): continue
                        if v.k not in ('arr', 'list'): continue
                        sh = sorted(v.locs & first)
                        if sh: R.bad('instances-share-memory', y.label, f'two instances of {c.name} share {c.name}{path} ({sh[0]})', key=f'inst|{c.name}{path}')
                        else: R.ok('instances-share-memory', f'{y.label} {path}')

def c03(ctx):
    R, I = ctx.R, ctx.I
    for x in ctx.walk(MODES if ctx.tier == 'thorough' else QMODES, pairs='all' if ctx.tier == 'thorough' else 'same'):
        if x.phase != 'op' or x.cls in ('Serial', 'RestClient'): continue
        rets = [e for e in x.events if e.kind == 'return']
        for v, st in x.step.results:
            own = {}
            if x.obj is not None:
                for path, w in ctx.reach(st, x.obj):
                    for l in w.locs: own.setdefault(l, path)
            prior = set()
            glob = {}
            for l in list(st.heap):
                if not foreign(I, l) or l.startswith('arg:'): continue
                q = I.cell(st, l)
                if q is None: continue
                vs = ([q.elem] if q.elem is not None else []) + list((q.items.values() if isinstance(q.items, dict) else q.items) or ()) + list((q.attrs or {}).values() if isinstance(q.attrs, dict) else ())
                for w in vs:
                    if isinstance(w, V) and w.k != 'cls':
                        for _, z in ctx.reach(st, w):
                            for l2 in z.locs: glob.setdefault(l2, l)
            p = x.prev
            if p is not None and p.phase == 'op':
                for pv, pst in p.step.results:
                    for _, w in ctx.reach(pst, pv): prior |= w.locs
            for path, w in ctx.reach(st, v):
                if w.k not in ('arr', 'list', 'any'): continue
                ls = sorted(w.locs)
                msg = None
                for l in ls:
                    if l in own: msg = f'the result{path} shares memory with the attribute {x.cls}{own[l]}'
                    elif l in prior: msg = f'the result{path} shares memory with a result returned earlier'
                    elif foreign(I, l): msg = f'the result{path} shares memory with {describe(l)}'
                    elif l in glob: msg = f'the result{path} is also kept in {describe(glob[l])}'
                    if msg: break
                if msg:
                    f, n = ctx.site(x.cls, x.opspec.op)
                    R.bad('result-not-fresh', x.label, f'{x.cls}.{x.opspec.op}: {msg}', f, n, key=f'{x.cls}.{x.opspec.op}|{msg}')
                elif w.k == 'any' and not w.locs: R.undecided('result-not-fresh', x.label, f'result{path} of unknown origin')
                else: R.ok('result-not-fresh', f'{x.label} result{path}')
