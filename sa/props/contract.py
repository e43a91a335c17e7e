"""C06, C07, C08, C13, C16, C26: contract of constructors, assignments and operations."""
import ast
from ..core import *
from .. import poly
from ..interp import Func, ClassInfo

# ------------------------------------------------------------------ C13
UNPICKLABLE_EXT = {'RLock': 'a lock', 'Lock': 'a lock', 'bytesio': None, 'stream': 'an open stream', 'file': 'an open file', 'logger': 'the logger', 'session': None, 'ctx': 'a context manager', 'suppress': 'a context manager'}
def unpicklable(v):
    if v.k == 'func' and isinstance(v.c, tuple):
        f = v.c[1]
        if isinstance(f, Func):
            if f.name is None or isinstance(f.node, ast.Lambda): return 'a lambda'
            if f.closure is not None: return f'the locally defined function {f.name}'
        if v.c[0] == 'closure': return 'a locally defined function'
        if v.c[0] == 'partial': return unpicklable(v.c[1])
        if v.c[0] == 'method' and len(v.c) > 1 and isinstance(v.c[1], V): return unpicklable(v.c[1])
        if v.c[0] == 'cached': return 'a caching wrapper made at run time'
    if v.k == 'mod': return 'a module'
    if v.k == 'ext' and isinstance(v.c, tuple): return UNPICKLABLE_EXT.get(v.c[0])
    if v.k == 'iter' and isinstance(v.c, tuple) and v.c[0] == 'gen': return 'a generator'
    if v.k == 'cls' and isinstance(v.c, ClassInfo) and getattr(v.c, 'local', False): return 'a locally defined class'
    return None
HOOKS = ('__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__deepcopy__', '__copy__')
def hooks(ctx, x, o, st):
    """A class which customises pickling or copying gives back an instance in the same state."""
    R, I, D = ctx.R, ctx.I, ctx.D
    has = {nm for nm in HOOKS if I.lookup(o.c, nm)}
    st = st.copy(); st.eff = E0; st.trace = (); st.pc = E0
    attrs = {}
    for l in o.locs: attrs.update(I.cell(st, l).attrs or {})
    def call(ob, nm, s, *a): return ctx.guard('custom-pickle', f'{x.label} {nm}', lambda: D.method(ob, nm, list(a), st=s.copy(), op='kp'))
    def bad(nm, msg):
        f, n = ctx.site(x.cls, nm)
        R.bad('custom-pickle', x.label, f'{x.cls}.{nm}: {msg}', f, n, key=f'{x.cls}.{nm}|{msg}')
    def labels(s, v): return {d for d in deepdeps(ctx, s, v) if isinstance(d, str) and d.startswith('arg:')}
    def compare(nm, o2, s2):
        got = {}
        for l in o2.locs: got.update((I.cell(s2, l).attrs or {}) if I.cell(s2, l) is not None else {})
        for k, v in attrs.items():
            if k not in got:
                bad(nm, f'attribute {k} is lost'); return
            w = got[k]
            if v.c is not NOC and w.c is not NOC and v.k == w.k and v.k in ('num', 'bool', 'str') and v.c != w.c: bad(nm, f'attribute {k} is {w.c!r} instead of {v.c!r}'); return
            miss = labels(st, v) - labels(s2, w)
            if miss and w.k != 'any': bad(nm, f'attribute {k} does not keep what it has from {sorted(miss)[0][4:]}'); return
        R.ok('custom-pickle', f'{x.label} {nm}')
    def fresh(s):
        s = s.copy(); loc = 'new:pickled'; s.heap[loc] = Cell('inst', attrs={}, cls=o.c.name)
        return V('inst', c=o.c, locs=frozenset([loc])), s
    def restore(nm, v, s):
        """States after the pickled state is given to a blank instance."""
        o2, s = fresh(s)
        if '__setstate__' in has:
            r = call(o2, '__setstate__', s, v)
            for _, s2 in (r.results if r else ()): compare('__setstate__', o2, s2)
            if r and not r.results and r.raises: bad('__setstate__', f'always raises {excname(r.raises[0])}')
        elif v.k == 'dict':
            for l in v.locs:
                c = I.cell(s, l)
                if c is None or not isinstance(c.items, dict): R.undecided('custom-pickle', f'{x.label} {nm}', 'state not known'); return
                s.heap['new:pickled'] = Cell('inst', attrs={str(getattr(k, 'c', k)): w for k, w in c.items.items()}, cls=o.c.name)
                compare(nm, o2, s)
        else: R.undecided('custom-pickle', f'{x.label} {nm}', 'state not known')
    nm = next((q for q in ('__reduce_ex__', '__reduce__') if q in has), None)
    if nm:
        r = call(o, nm, st, *([vconst(4)] if nm == '__reduce_ex__' else []))
        for v, s in (r.results if r else ()):
            c = v.c if v.k == 'tuple' and isinstance(v.c, tuple) and len(v.c) >= 2 else None
            a = c[1].c if c and c[1].k == 'tuple' else None
            if c is None or not isinstance(a, tuple) or c[0].k not in ('cls', 'func'): R.undecided('custom-pickle', f'{x.label} {nm}', 'not decided'); continue
            z = ctx.guard('custom-pickle', f'{x.label} {nm}', lambda: D.run('kq', lambda: I.call(c[0], list(a), {}, s.copy(), NODE_())))
            for o2, s2 in (z.results if z else ()):
                if o2.k != 'inst': continue
                if len(c) > 2 and c[2].k != 'none':
                    if '__setstate__' in has:
                        q = call(o2, '__setstate__', s2, c[2])
                        for _, s3 in (q.results if q else ()): compare(nm, o2, s3)
                    elif c[2].k == 'dict':
                        for l in c[2].locs:
                            d = I.cell(s2, l)
                            if d is not None and isinstance(d.items, dict):
                                s3 = s2.copy()
                                for l2 in o2.locs: s3.heap[l2] = Cell('inst', attrs={**(s3.heap[l2].attrs or {}), **{str(getattr(k, 'c', k)): w for k, w in d.items.items()}}, cls=o.c.name)
                                compare(nm, o2, s3)
                            else: R.undecided('custom-pickle', f'{x.label} {nm}', 'state not known')
                    else: R.undecided('custom-pickle', f'{x.label} {nm}', 'state not known')
                else: compare(nm, o2, s2)
    elif '__getstate__' in has:
        r = call(o, '__getstate__', st)
        for v, s in (r.results if r else ()): restore('__getstate__', v, s)
    elif '__setstate__' in has:
        s = st.copy(); s.heap['new:state'] = Cell('dict', items=dict(attrs)); restore('__setstate__', V('dict', locs=frozenset(['new:state'])), s)
    for nm in ('__copy__', '__deepcopy__'):
        if nm in has:
            s = st.copy(); s.heap['new:memo'] = Cell('dict', items={})
            r = call(o, nm, s, *([V('dict', locs=frozenset(['new:memo']))] if nm == '__deepcopy__' else []))
            for o2, s2 in (r.results if r else ()):
                if o2.k == 'inst': compare(nm, o2, s2)
                else: R.undecided('custom-pickle', f'{x.label} {nm}', 'not decided')
def NODE_():
    from ..drive import NODE
    return NODE
def c13(ctx):
    R, I = ctx.R, ctx.I
    for x in ctx.walk([BASE, Mode(cont='list', sig='c', coef='c', state='c')] if ctx.tier == 'thorough' else [BASE], pairs='same'):
        if x.cls in ('RestClient', 'Serial'): continue
        for e in x.events:
            if e.kind == 'attrstore' and e.value is not None and e.value.k == 'list' and getattr(e, 'gen', False): R.bad('unpicklable-attribute', x.label, f'{e.func} stores a generator in attribute {e.attr!r}', e.file, e.line)
        for r, st in x.step.results:
            o = r if x.phase == 'ctor' else x.obj
            if o is None: continue
            if any(I.lookup(o.c, nm) for nm in HOOKS) if isinstance(o.c, ClassInfo) else False: hooks(ctx, x, o, st)
            for path, v in walkvals(ctx, st, o):
                w = unpicklable(v) or (I.marks[id(v)][1] if I.marks.get(id(v), (None,))[0] is v else None)
                if w:
                    f, n = '', 0
                    for e in x.events:
                        if e.kind == 'attrstore' and path.split('.')[-1].split('[')[0] == e.attr: f, n = e.file, e.line
                    R.bad('unpicklable-attribute', x.label, f'after {x.phase} of {x.cls}, attribute {path[1:]} holds {w}', f, n, key=f'{x.cls}{path}|{w}')
                else: R.ok('picklable-attribute', f'{x.label} {path}')
    # a class that hides state from pickle, or refuses it
    for c in API:
        if c.static or c.name in ('RestClient', 'Serial'): continue
        ci = I.classes.get(c.name)
        if ci is None or not ctx.mine(): continue
        for nm in ('__getstate__', '__setstate__', '__reduce__', '__reduce_ex__', '__deepcopy__', '__copy__', '__getattr__', '__getattribute__', '__new__', '__getnewargs__'):
            p = I.lookup(ci, nm)
            if p and nm not in HOOKS: R.undecided('custom-pickle', f'{c.name}.{nm}', 'class customises pickling')
        R.ok('default-pickle', c.name)

# ------------------------------------------------------------------ C08
def cellsame(a, b):
    return a is b or (a is not None and b is not None and a.attrs == b.attrs and a.items == b.items and a.elem == b.elem)
def c08(ctx):
    R, I = ctx.R, ctx.I
    from . import logs
    logs.unchanged(ctx)
    modes = [BASE, Mode(sig='c', coef='c', state='c')] + ([Mode(cont='list'), Mode(sig='i', coef='i', state='i')] if ctx.tier == 'thorough' else [])
    def judge(x):
        anyfail = x.op == 'fit' and x.cls != 'DiversityModel'
        n = 0
        for r in x.step.raises:
            if not (explicit(r) or anyfail): continue
            bad = None
            for loc, what in sorted(r.st.eff):
                if loc not in x.pre.heap: continue
                if loc.startswith(('ext:', 'arg:')): continue
                a, b = x.pre.heap.get(loc), r.st.heap.get(loc)
                if cellsame(a, b) and what != 'content': continue
                if x.cls == 'PolyphaseRateFilter' and loc.startswith('cls:PolyphaseRateFilter'): continue
                if what == 'content' and x.phase == 'ctor' and not foreignloc(loc): continue
                at = [n for n in ((b.attrs or {}) if b else {}) if (a.attrs or {}).get(n) != (b.attrs or {}).get(n)] if a is not None and b is not None and a.attrs is not None else []
                bad = (loc, what, at); break
            if bad:
                n += 1
                ev = [e for e in x.events if e.kind in ('write', 'attrstore', 'classstore') and (e.d.get('loc') == bad[0])]
                w = f'{ev[0].file}:{ev[0].line}' if ev else bad[0]
                what = f'attribute {", ".join(bad[2])}' if bad[2] else 'an array of the instance' if not foreignloc(bad[0]) else f'{bad[0]}'
                R.bad('failure-leaves-change', x.label, f'{x.cls}.{x.op or x.phase} raises {excname(r)} (line {getattr(r.node, "lineno", 0)}) after {what} was changed at {w}', ev[0].file if ev else '', getattr(r.node, 'lineno', 0), key=f'{x.cls}|{x.op or x.phase}|{bad[1]}|{",".join(bad[2])}|{w}')
            else: R.ok('failure-leaves-no-change', f'{x.label} line {getattr(r.node, "lineno", 0)}')
    for x in ctx.walk(modes, pairs='same'): judge(x)
    # arguments outside their domains
    for c in API:
        for k in c.ctors[:2]:
            if not ctx.mine(): continue
            for n, p in k.p.items():
                if k.name.startswith('style=') and (p.kind == 'flag' or c.name == 'IirFilter'): continue
                for nm, v in wild(p, n):
                    s0, w = place(None, v)
                    y = ctx.ctor(c, k, BASE, st=s0, label=f'{c.name}({k.name})<{n} {nm}>', **{n: w})
                    if y: judge(y)
        for q in (c.ops if c.static else ()):
            if not ctx.mine(): continue
            for n, p in q.p.items():
                for nm, v in wild(p, n):
                    s0, w = place(None, v)
                    y = ctx.call(c, None, s0, q, BASE, label=f'{c.name}<{n} {nm}>', **{n: w})
                    if y: judge(y)
        for k in c.ctors[:1 if c.name in ('FirFilter', 'IirFilter', 'WindowFilter', 'WaveletTransform', 'DiversityModel', 'PolynomialRateFilter') else 2]:
            if not ctx.mine(): continue
            x = ctx.ctor(c, k, BASE)
            if x is None: continue
            for o, st in x.step.results[:2]:
                for n, p in c.sets.items():
                    for nm, v in wild(p, 'set.' + n):
                        s0, w = place(st, v)
                        y = ctx.put(c, o, s0, n, p, BASE, v=w, label=f'{x.label}<{nm}>', prev=x)
                        if y: judge(y)
                for q in c.ops:
                    if c.name == 'WaveletTransform' and (q.name.startswith('transform[2-D') or not q.name.endswith('=1]')): continue
                    for n, p in q.p.items():
                        for nm, v in wild(p, n):
                            s0, w = place(st, v)
                            y = ctx.call(c, o, s0, q, BASE, label=f'{x.label}<{n} {nm}>', prev=x, **{n: w})
                            if y: judge(y)
    # fits that fail at each library call
    for cn in ('GaussianModel', 'GaussianMixtureModel'):
        c = BYNAME[cn]
        for k in c.ctors:
            if not ctx.mine(): continue
            x = ctx.ctor(c, k, BASE)
            if x is None: continue
            fit = [q for q in c.ops if q.op == 'fit'][0]
            for o, st in x.step.results[:2]:
                y = ctx.call(c, o, st, fit, BASE, label=x.label)
                if y is None: continue
                seen = {e.name for e in y.events if e.kind == 'extcall'}
                starts = [(st, x)] + [(s2, y) for _, s2 in y.step.results[:2]]
                for s0, pv in starts:
                    for nm in sorted(seen) + ['gmm.fit']:
                        if nm.startswith('builtins.') : continue
                        old = I.fail_calls
                        I.fail_calls = lambda name, args, kw, st, node, nm=nm: 'RuntimeError' if name == nm else (old(name, args, kw, st, node) if old else None)
                        try: z = ctx.call(c, o, s0, fit, BASE, op='k2', prefix='2', label=f'{pv.label} with failing {nm}')
                        finally: I.fail_calls = old
                        if z: judge(z)
def wild(p, label):
    """Arguments that leave the documented domain: ( name, maker )."""
    if p.kind == 'num': return [('any real', lambda st: fnum(label, (-INF, False, INF, False))), ('complex', lambda st: cnum(label))]
    if p.kind == 'signum': return [('an array', lambda st: array(st, label, 'c', ('N',), mn=1))]
    if p.kind == 'int': return [('any integer', lambda st: inum(label)), ('zero', lambda st: const(0, label))]
    if p.kind in ('coef', 'sig', 'state', 'rows'):
        d = len(getattr(p, 'dims', (1,)) if p.kind == 'sig' else (1, 1) if p.kind == 'rows' else (1,))
        one = lambda mn, *dims: lambda st: array(st, label, 'f', dims, mn=mn)
        r = [('empty', one(0, *([0] * d))), ('any length', one(0, *['N', 'M', 'L'][:d])), ('other rank', one(0, *['N', 'M', 'L'][:2 if d == 1 else 1]))]
        if p.kind in ('coef', 'state'): r.append(('complex of any length', lambda st: array(st, label, 'c', ('N',), mn=0)))
        if p.kind == 'sig': r.append(('complex and empty', lambda st: array(st, label, 'c', (0,) * d, mn=0)))
        return r
    return []
def place(st, mk):
    st = st.copy() if st is not None else blank_()
    return st, mk(st)
def blank_():
    return blank(None)
def foreignloc(l): return l.startswith(('tab:', 'cls:', 'mod:', 'def:'))

# ------------------------------------------------------------------ C16
FORBID = {'time.': 'the clock', 'datetime.': 'the clock', 'random.': 'a random source', 'numpy.random.': 'a random source', 'secrets.': 'a random source', 'uuid.': 'a random source', 'os.environ': 'the environment', 'os.getenv': 'the environment', 'os.urandom': 'a random source', 'os.get': 'the process', 'platform.': 'the platform', 'socket.': 'the network',
          'builtins.open': 'a file', 'numpy.load': 'a file', 'numpy.save': 'a file', 'numpy.savetxt': 'a file', 'numpy.loadtxt': 'a file', 'numpy.fromfile': 'a file', 'builtins.id': 'a memory address', 'builtins.input': 'the console', 'builtins.globals': None}
GLOBAL = {'warnings.simplefilter': 'ctx:warnings', 'warnings.filterwarnings': 'ctx:warnings', 'warnings.resetwarnings': 'ctx:warnings', 'numpy.seterr': 'ctx:errstate', 'numpy.seterrcall': 'ctx:errstate', 'numpy.set_printoptions': 'ctx:printoptions', 'os.putenv': None, 'os.chdir': None, 'sys.setrecursionlimit': None, 'locale.setlocale': None, 'numpy.setbufsize': None, 'random.seed': None, 'numpy.random.seed': None, 'logging.basicConfig': None, 'logging.disable': None, 'gc.disable': None, 'gc.collect': None, 'sys.setswitchinterval': None}
LOGSIDE = {'Log'}
def c16(ctx):
    R, I = ctx.R, ctx.I
    written = {}      # mutable class / module state written by operations
    loads = {}
    for x in ctx.walk([BASE, Mode(cont='list', sig='c', coef='c', state='c')] if ctx.tier == 'thorough' else [BASE], pairs='same'):
        bad = 0
        for e in x.events:
            if e.kind == 'extcall':
                for p, w in FORBID.items():
                    if w and (e.name == p or (p.endswith('.') and e.name.startswith(p))):
                        if x.cls in ('Serial', 'RestClient'): continue
                        if e.name in ('random.seed', 'numpy.random.seed'): continue
                        bad += 1; R.bad('hidden-input', x.label, f'{e.func} calls {e.name}: the outcome depends on {w}', e.file, e.line)
                if e.name in GLOBAL:
                    need = GLOBAL[e.name]
                    if need is None or need not in (e.locks or ()):
                        if e.name.startswith('numpy.seterr') and restored(x, e): continue
                        bad += 1; R.bad('global-side-effect', x.label, f'{e.func} calls {e.name}, which changes process-wide state and is not undone on every exit', e.file, e.line)
            elif e.kind == 'extstore':
                if isinstance(e.target, V) and e.target.k in ('mod', 'ext', 'func'): bad += 1; R.bad('global-side-effect', x.label, f'{e.func} assigns {e.attr} of a library module or object', e.file, e.line)
            elif e.kind in ('classstore', 'modstore'):
                k = (e.d.get('cls') or e.d.get('mod'), e.attr)
                written.setdefault(k, (e, x))
            elif e.kind == 'write' and (e.loc.startswith(('tab:', 'mod:')) and not e.loc.startswith('tab:cache')):
                tgt = e.loc[4:].split(':')[0]
                written.setdefault((tgt, '[' + e.loc + ']' + ('' if x.phase == 'ctor' else '*')), (e, x))
            elif e.kind == 'write' and x.phase != 'ctor' and e.loc.startswith('new:k0') and x.step.results:
                cl = classlocs(ctx, x)
                if e.loc in cl: written.setdefault((cl[e.loc], '[' + e.loc + ']*'), (e, x))
            elif e.kind == 'classload': loads.setdefault((e.cls, e.attr), e)
            if x.cls not in ('Serial', 'RestClient') and e.kind == 'branch':
                h = {'env', 'rng', 'clock'} & set(e.cond.deps)
                if h: bad += 1; R.bad('hidden-input', x.label, f'{e.func} decides by {sorted(h)}', e.file, e.line)
        for v, st in x.step.results:
            o = v if x.phase == 'ctor' else x.obj
            if x.cls == 'GaussianMixtureModel': continue
            if o is None: continue
            for path, w in walkvals(ctx, st, o):
                h = {'env', 'rng', 'clock'} & set(d for d in w.deps if isinstance(d, str))
                if h: bad += 1; R.bad('hidden-input', x.label, f'{x.cls}{path} depends on {sorted(h)}', *ctx.site(x.cls, '__init__'), key=f'{x.cls}{path}|{sorted(h)}')
        for r in x.step.raises + [type('S', (), {'st': st})() for _, st in x.step.results]:
            lk = [t for t in r.st.locks if t.startswith('ctx:')]
            if lk: bad += 1; R.bad('global-side-effect', x.label, f'{x.cls}.{x.op or x.phase} leaves {lk} changed', *ctx.site(x.cls, x.opspec.op if x.opspec else '__init__'))
        if not bad: R.ok('deterministic', x.label)
    for k, (e, x) in written.items():
        if x.cls == 'PolyphaseRateFilter' and k[0].split('.')[0] == 'PolyphaseRateFilter' and not k[1].endswith('*'): R.ok('one-time-bank', str(k)); continue
        R.bad('class-state-written', x.label, f'{e.func} changes shared state {k[0]}.{k[1] if not k[1].startswith("[") else "(table)"} during {x.phase}: later results of other instances may depend on it', e.file, e.line)
def classlocs(ctx, x, last=[None, None]):
    """Arrays and containers which class attributes hold after a step, by class."""
    if last[0] is not x:
        d = {}
        for _, st in x.step.results:
            for ci in ctx.I.classes.values():
                c = ctx.I.cell(st, ci.loc)
                for v in (c.attrs or {}).values() if c is not None else ():
                    if v.__class__ is V and v.k in ('arr', 'list', 'dict', 'set'): d.update({l: ci.name for l in v.locs})
        last[:] = [x, d]
    return last[1]
def restored(x, e):
    """Whether the error handling is put back on every exit of a step: the last change on each path uses settings which were returned before."""
    for s in [q for _, q in x.step.results] + [q.st for q in x.step.raises]:
        tr = [t for t in s.trace if isinstance(t, tuple) and t[:1] == ('seterr',)]
        if tr and tr[-1][1] != 'saved': return False
    return True

# ------------------------------------------------------------------ C26
def c26(ctx):
    R, I = ctx.R, ctx.I
    I.lenlabel = {pre + p: 'arg:' + pre + p for c in API for q in list(c.ctors) + list(c.ops) for p, z in q.p.items() if z.kind == 'int' for pre in ('', 'op.', 'op2.')}
    def outdeps(y):
        d = set()
        for v, st in y.step.results:
            d |= deepdeps(ctx, st, v) | {z for z in st.pc if isinstance(z, str)}
        for e in y.events:      # requests, iteration counts and other library effects
            if e.kind == 'send':
                for w in [e.method, e.url] + list(e.kw.values()): d |= deepdeps(ctx, y.pre, w) | set(w.deps)
            if e.kind == 'branch': pass
        return d
    for c in API:
        eff, seen, und = set(), {}, set()
        if not ctx.mine(): continue
        if c.static:
            for o in c.ops:
                x = ctx.call(c, None, None, o, BASE)
                if x is None: und.add(o.op); continue
                d = outdeps(x)
                for p in o.p:
                    seen.setdefault((o.op, p), []).append(f'arg:{p}' in d or argconst(o.p[p]))
            for (op, p), l in seen.items():
                f, n = ctx.site(c.name, op)
                if any(l): R.ok('parameter-effective', f'{c.name}.{op}({p})')
                elif op in und: R.undecided('parameter-effective', f'{c.name}.{op}({p})', 'operation not interpreted')
                else: R.bad('parameter-ignored', f'{c.name}.{op}', f'parameter {p!r} of {c.name}.{op} influences neither result nor later results', f, n)
            continue
        for k in c.ctors:
            if k.name.startswith('style=') and c.name in ('IirFilter',) and k.name != 'style=Butterworth': continue
            x = ctx.ctor(c, k, BASE)
            if x is None: und.add('__init__'); continue
            d = set()
            for o, st in x.step.results[:4]:
                for q in c.ops:
                    y = ctx.call(c, o, st, q, BASE, prefix='op.', label=x.label)
                    if y is None: und.add('__init__'); und.add(q.op); continue
                    dd = outdeps(y); own = set(dd)
                    zs = []
                    for _, s2 in y.step.results[:2]:
                        own |= deepdeps(ctx, s2, o)
                        for q2 in c.ops:
                            if c.name in ('GaussianModel', 'GaussianMixtureModel') or q2 is c.ops[0]:
                                z = ctx.call(c, o, s2, q2, BASE, op='k2', prefix='op2.', label=y.label)
                                if z:
                                    zs.append(outdeps(z))
                                    for p in q2.p: seen.setdefault((q2.op, p), []).append(f'arg:op2.{p}' in zs[-1])
                    for z in zs: dd |= z
                    d |= dd
                    for p in q.p: seen.setdefault((q.op, p), []).append(f'arg:op.{p}' in own | dd or argconst(q.p[p]))
                for nm, p in c.sets.items():
                    y = ctx.put(c, o, st, nm, p, BASE, label=x.label)
                    if y is None: und.add(nm + '='); continue
                    got = set()
                    for _, s2 in y.step.results[:2]:
                        for q in c.ops:
                            z = ctx.call(c, o, s2, q, BASE, op='k2', prefix='op.', label=y.label)
                            if z:
                                got |= outdeps(z)
                                if 'arg:set.' + nm in got: break
                                if c.name in ('GaussianModel', 'GaussianMixtureModel', 'PidFilter', 'PolyphaseRateFilter'):
                                    for _, s3 in z.step.results[:2]:
                                        for q2 in c.ops:
                                            w = ctx.call(c, o, s3, q2, BASE, op='k3', prefix='op2.', label=z.label)
                                            if w: got |= outdeps(w)
                    seen.setdefault((nm + '=', nm), []).append('arg:set.' + nm in got)
            for p in k.p: seen.setdefault(('__init__', p), []).append(f'arg:{p}' in d or argconst(k.p[p]))
        for (op, p), l in seen.items():
            f, n = ctx.site(c.name, op.rstrip('='))
            if any(l): R.ok('parameter-effective', f'{c.name}.{op}({p})')
            elif op in und or any(u in und for u in ('__init__',)): R.undecided('parameter-effective', f'{c.name}.{op}({p})', 'not interpreted')
            else: R.bad('parameter-ignored', c.name, f'parameter {p!r} of {c.name}.{op} influences neither a result nor later results', f, n)
    settings(ctx, outdeps)
def settings(ctx, outdeps):
    """With one option held at each of its values, every other parameter must still take effect, for every variant of a constructor."""
    R = ctx.R
    for c in API:
        for k in (c.ops if c.static else c.ctors):
            flags = [p for p, q in k.p.items() if isinstance(q, Flag)]
            for f, val in [(f, v) for f in flags for v in (True, False)] + ([(None, None)] if len(c.ctors) > 1 else []):
                if not ctx.mine(): continue
                over = {f: vconst(val)} if f else {}
                lab = f'{c.name}.{k.op}' if c.static else f'{c.name}({k.name})'
                if f: lab += f' with {f} = {val}'
                part, d = False, set()
                if c.static:
                    x = ctx.call(c, None, None, k, BASE, **over)
                    if x is None: part = True
                    else: d = outdeps(x)
                    site = ctx.site(c.name, k.op)
                else:
                    x = ctx.ctor(c, k, BASE, **over)
                    site = ctx.site(c.name, '__init__')
                    if x is None: part = True
                    for o, st in (x.step.results[:4] if x else ()):
                        for q in c.ops:
                            y = ctx.call(c, o, st, q, BASE, prefix='op.', label=x.label)
                            if y is None: part = True; continue
                            d |= outdeps(y)
                            if c.name not in ('FirFilter', 'IirFilter', 'WindowFilter', 'WaveletTransform'):
                                for _, s2 in y.step.results[:2]:
                                    for q2 in c.ops:
                                        z = ctx.call(c, o, s2, q2, BASE, op='k2', prefix='op2.', label=y.label)
                                        if z is None: part = True
                                        else: d |= outdeps(z)
                for p, q in k.p.items():
                    if p == f or argconst(q) or (c.name, p) in INERT: continue
                    if f'arg:{p}' in d: R.ok('setting-effective', f'{lab} {p}')
                    elif part: R.undecided('setting-effective', f'{lab} {p}', 'not interpreted')
                    else: R.bad('parameter-ignored', lab, f'parameter {p!r} of {lab} influences neither a result nor later results', *site, key=f'setting|{c.name}|{p}')
INERT = set()
def argconst(p): return isinstance(p, Const)

# ------------------------------------------------------------------ C06
def elems(ctx, st, v):
    """Element terms of a value: the items when known, else the element summary."""
    if v.k in ('arr', 'list'):
        cs = [ctx.I.cell(st, l) for l in v.locs]
        if len(cs) == 1 and cs[0] is not None and cs[0].items is not None and not isinstance(cs[0].items, dict): return [w.t for w in cs[0].items]
        e = ctx.I.content(st, v, 'keep')
        return [e.t] if e is not None else [None]
    return [v.t]
POINTS = (0.3125, -0.71, 0.046, 0.9)
def differ(a, b, pa, pb):
    """True when the two exact terms denote different numbers for the same value of the parameter; None when not comparable."""
    la, lb = poly.leaves(a), poly.leaves(b)
    if not (la <= {pa} and lb <= {pb}): return None
    try:
        for z in POINTS:
            x, y = poly.evaluate(a, {pa: z}), poly.evaluate(b, {pb: z})
            if abs(x - y) > 1e-9 * max(1, abs(x), abs(y)): return True
    except poly.NoForm: return None
    return False
NOREAD = {('RestClient', 'url')}       # trailing slashes are removed by documentation of the join rule
def c06(ctx):
    R, I = ctx.R, ctx.I
    modes = [BASE, Mode(cont='list', coef='i', state='i')] + ([Mode(coef='c', state='c', sig='c')] if ctx.tier == 'thorough' else [])
    for c in API:
        if c.static or not c.sets: continue
        for k in c.ctors:
            if k.name.startswith('style=') and c.name in ('FirFilter', 'IirFilter'): continue
            for m in modes:
                if not ctx.mine(): continue
                x = ctx.ctor(c, k, m)
                if x is None: continue
                for o, st in x.step.results[:2]:
                    A = ctx.attrs(st, o)
                    starts = [(st, '', None)]
                    for q in c.ops:
                        if q.op in ('filter', 'fit'):
                            if m.cont == 'list' and any(isinstance(w, Sig) and w.conts == ('arr',) for w in q.p.values()): continue
                            y = ctx.call(c, o, st, q, m, prefix='op.', label=x.label)
                            if y and y.step.results: starts.append((y.step.results[0][1], f' after {q.op}', y))
                            break
                    for p, q in c.sets.items():
                        derived = [n for n, v in A.items() if f'arg:{p}' in deepdeps(ctx, st, v)] if p in k.p else []
                        for s0, when, prev in starts:
                            y = ctx.put(c, o, s0, p, q, m, op='k2', label=x.label + when)
                            if y is None: continue
                            new = f'arg:set.{p}'
                            eqtest = any(e.kind == 'branch' and isinstance(e.cond.t, tuple) and e.cond.t[0] in ('Eq', 'NotEq') and new in e.cond.deps for e in y.events)
                            f, n = ctx.site(c.name, p)
                            for _, s2 in y.step.results:
                                inst = f'{y.label}{when}'
                                if not eqtest and (c.name, p) not in NOREAD:
                                    g = ctx.guard('readback', inst, lambda: ctx.D.get(o, p, s2, op='k3'))
                                    for v, s3 in (g.results if g else []):
                                        e = I.content(s3, v, 'keep') if v.k in ('arr', 'list') else v
                                        if e is None: continue
                                        dd = deepdeps(ctx, s3, v)
                                        if new not in dd: R.bad('readback', inst, f'{c.name}.{p} read back after assignment{when} does not depend on the assigned value', f, n, key=f'read|{c.name}.{p}')
                                        elif e.mv is not None and e.mv != frozenset(['set.' + p]): R.bad('readback', inst, f'{c.name}.{p} read back after assignment{when} is not the assigned value ({"computed" if e.mv == "A" else "may come from " + ", ".join(sorted(map(str, e.mv - {"set." + p})))})', f, n, key=f'read|{c.name}.{p}')
                                        elif e.mv is None and e.k == 'num': R.undecided('readback', inst, 'provenance unknown')
                                        else: R.ok('readback', inst)
                                if eqtest: R.undecided('derived', inst, 'assignment compares old and new value'); continue
                                B = ctx.attrs(s2, o)
                                for a in derived:
                                    if a not in B: continue
                                    if new not in deepdeps(ctx, s2, B[a]):
                                        R.bad('derived', inst, f'{c.name}.{p} = value{when} does not update {a}, which the constructor derives from {p}', f, n, key=f'derived|{c.name}.{p}|{a}'); continue
                                    ta, tb = elems(ctx, st, A[a]), elems(ctx, s2, B[a])
                                    if when or len(ta) != len(tb) or isinstance(k.p[p], Const): R.ok('derived', f'{inst} {a}'); continue
                                    res = [differ(u, w, ('par', p), ('par', 'set.' + p)) for u, w in zip(ta, tb)]
                                    if True in res: R.bad('derived', inst, f'{c.name}.{p} = value computes {a} differently from the constructor', f, n, key=f'formula|{c.name}.{p}|{a}')
                                    else: R.ok('derived', f'{inst} {a}' + ('' if None in res else ' (same formula)'))
