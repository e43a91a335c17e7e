"""Obligations, scenario walks and reporting shared by the property clients."""
import os, sys, json, time, traceback, pickle, signal
from .spec import *

class Late(BaseException):
    """A step, or the whole check, ran out of its time."""
def _late(*a): raise Late()
TIME = {'quick': (45, 300), 'thorough': (200, 700)}

class Finding:
    def __init__(s, rule, key, file, line, msg, inst): s.rule, s.key, s.file, s.line, s.msg, s.inst = rule, key, file, line, msg, inst

class Report:
    def __init__(s, prop): s.prop = prop; s.n = {'discharged': 0, 'violated': 0, 'undecided': 0}; s.viol = {}; s.und = {}; s.rules = {}; s.samples = []; s.scen = 0; s.sites = set(); s.funcs = set(); s.errors = []
    def _rule(s, rule, what):
        r = s.rules.setdefault(rule, {'discharged': 0, 'violated': 0, 'undecided': 0}); r[what] += 1; s.n[what] += 1
    def ok(s, rule, inst, site=None, n=1):
        s._rule(rule, 'discharged')
        if len(s.samples) < 12 and (not s.samples or s.samples[-1].split(' @ ')[0] != rule or len(s.samples) < 6): s.samples.append(f'{rule} @ {inst}')
        if site: s.sites.add(site)
    def bad(s, rule, inst, msg, file='', line=0, key=None):
        s._rule(rule, 'violated')
        k = key or f'{rule}|{file}|{line}'
        if k not in s.viol: s.viol[k] = Finding(rule, k, file, line, msg, inst)
    def undecided(s, rule, inst, why):
        s._rule(rule, 'undecided')
        s.und.setdefault(f'{rule}: {why}'[:300], []).append(str(inst))

    def merge(s, o):
        for k, v in o.n.items(): s.n[k] += v
        for k, v in o.viol.items(): s.viol.setdefault(k, v)
        for k, v in o.und.items(): s.und.setdefault(k, []).extend(v)
        for k, v in o.rules.items():
            r = s.rules.setdefault(k, {'discharged': 0, 'violated': 0, 'undecided': 0})
            for a, b in v.items(): r[a] += b
        s.samples += o.samples; s.scen += o.scen; s.sites |= o.sites; s.funcs |= o.funcs; s.errors += o.errors

class Scenario:
    """One executed step: pre-state, arguments, outcome, events."""
    __slots__ = ('cls', 'label', 'phase', 'pre', 'obj', 'args', 'step', 'events', 'op', 'mode', 'ctor', 'opspec', 'prev', 'pfx', 'after')
    def __init__(s, **k):
        for n in s.__slots__: setattr(s, n, k.get(n))

class Ctx:
    def __init__(s, root, prop, tier='quick', package='diamondback'):
        s.root, s.prop, s.tier = root, prop, tier
        s.I = Interp(root, package); s.D = Driver(s.I); s.R = Report(prop); s.t0 = time.time(); s.shard = (0, 1); s.unit = 0; s.over = False
    def mine(s):
        s.unit += 1
        return s.unit % s.shard[1] == s.shard[0]
    def fresh(s): s.I.events.clear()
    def left(s): return TIME.get(s.tier, TIME['thorough'])[1] - (time.time() - s.t0)
    def alarm(s, t=INF):
        """Interrupt the analysis after a time, at the latest at the end of the time of the check."""
        if s.over: return
        signal.signal(signal.SIGALRM, _late); signal.setitimer(signal.ITIMER_REAL, max(0.01, min(t, s.left())))
    def guard(s, rule, inst, f):
        """Run an analysis step; unsupported constructs and budget overruns leave the obligation undecided."""
        s.I.budget = 1_200_000
        n = len(s.I.events)
        s.alarm(TIME.get(s.tier, TIME['thorough'])[0])
        try:
            r = f()
            s.R.scen += 1
            return r
        except AnchorMissing: raise
        except (Unsupported, Budget) as e: s.R.undecided(rule, inst, f'{type(e).__name__} {e}')
        except Late:
            s.R.undecided(rule, inst, 'out of time')
            if s.left() <= 0: s.over = True; raise
        except RecursionError as e: s.R.undecided(rule, inst, 'RecursionError')
        except Exception as e:
            s.R.undecided(rule, inst, f'analysis error {type(e).__name__}: {e}'); s.R.errors.append(f'{inst}: ' + traceback.format_exc(limit=-4)[-700:])
        finally: s.alarm()
        return None
    def step(s, cls, label, phase, f, **k):
        """Run f -> Step and wrap it with the events it produced."""
        I = s.I
        n = len(I.events)
        r = s.guard('analysis', label, f)
        if r is None: return None
        ev = I.events[n:]
        del I.events[n:]
        return Scenario(cls=cls, label=label, phase=phase, step=r, events=ev, **k)
    def ctor(s, c, k, m, /, st=None, op='k0', prefix='', label=None, **over):
        st = st or blank(s.I)
        a = mkargs(st, k.p, m, prefix); a.update(over)
        pre = st.copy()
        return s.step(c.name, label or f'{c.name}({k.name}){m}', 'ctor', lambda: s.D.construct(c.name, kw=a, st=st, op=op), pre=pre, args=a, mode=m, ctor=k, pfx=op)
    def call(s, c, o, st, spec, m, /, op='k1', prefix='', label='', prev=None, **over):
        st = st.copy() if st is not None else blank(s.I)
        st.eff = E0
        a = mkargs(st, spec.p, m, prefix); a.update(over)
        pre = st.copy()
        lab = f'{label or c.name}.{spec.name}' + ('' if o is not None else str(m))
        if o is None: f = lambda: s.D.static(c.name, spec.op, kw=a, st=st, op=op)
        else: f = lambda: s.D.method(o, spec.op, kw=a, st=st, op=op)
        return s.step(c.name, lab, 'op', f, pre=pre, obj=o, args=a, mode=m, opspec=spec, prev=prev, pfx=op, op=spec.op)
    def put(s, c, o, st, name, p, m, op='k1', prefix='set.', label='', prev=None, v=None):
        st = st.copy(); st.eff = E0
        a = v if v is not None else p.mk(st, prefix + name, m)
        pre = st.copy()
        return s.step(c.name, f'{label or c.name}.{name}=', 'set', lambda: s.D.set(o, name, a, st, op=op), pre=pre, obj=o, args={name: a}, mode=m, prev=prev, pfx=op, op=name + '=')
    def walk(s, modes, pairs='same', classes=None, ctormodes=None, designs=True):
        """Most general client: every constructor variant, every assignment, every operation, and sequences of two."""
        for c in API:
            if classes and c.name not in classes: continue
            if c.static:
                for m in modes:
                    if not s.mine(): continue
                    for o in c.ops:
                        if m.cont == 'list' and any(isinstance(q, Sig) and q.conts == ('arr',) for q in o.p.values()): continue
                        x = s.call(c, None, None, o, m)
                        if x: yield x
                continue
            for ki, k in sorted(enumerate(c.ctors + EXTRA.get(c.name, [])), key=lambda z: z[1].name != 'style=Bessel'):
                design = ki and c.name in ('FirFilter', 'IirFilter', 'WindowFilter', 'WaveletTransform', 'DiversityModel')
                if design and not designs and c.name in ('FirFilter', 'IirFilter'): continue
                haslist = any(q.kind in ('coef', 'state') for q in k.p.values())
                for mi, m in enumerate(modes):
                    if mi and design: continue
                    if not s.mine(): continue
                    x = s.ctor(c, k, m)
                    if x is None: continue
                    yield x
                    rs = x.step.results
                    rs = rs if pairs == 'all' else rs[:1] if design else rs[:4]
                    for o, st in rs: yield from s.ops(c, o, st, m, 'none' if (design or c.name == 'WaveletTransform') and pairs != 'all' else pairs, x)
    def ops(s, c, o, st, m, pairs, x):
        lab = x.label
        for n, p in c.sets.items():
            y = s.put(c, o, st, n, p, m, label=lab, prev=x)
            if y is None: continue
            yield y
            if pairs == 'none': continue
            for _, s2 in y.step.results[:3]:
                for q in (c.ops[:1] if pairs == 'same' else c.ops):
                    z = s.call(c, o, s2, q, m, op='k2', label=y.label, prev=y)
                    if z: yield z
        for q in c.ops:
            if m.cont == 'list' and any(isinstance(w, Sig) and w.conts == ('arr',) for w in q.p.values()): continue
            y = s.call(c, o, st, q, m, label=lab, prev=x)
            if y is None: continue
            yield y
            if pairs == 'none': continue
            for _, s2 in y.step.results[:3]:
                for q2 in (([q] if c.name != 'GaussianModel' and c.name != 'GaussianMixtureModel' and c.name != 'DiversityModel' else c.ops) if pairs == 'same' else c.ops):
                    z = s.call(c, o, s2, q2, m, op='k2', prefix='2', label=y.label, prev=y)
                    if z: yield z
    def room(s, n):
        """Vectors up to a length are followed element by element."""
        if n > ip.MAXITEMS: ip.MAXITEMS = n; ip.TERMSIZE = max(ip.TERMSIZE, 60 * n)
    def limits(s, lo, hi, *classes):
        """Sizes next to the integers which the source of the classes ( and of their bases ) compares, divides, slices or counts with."""
        mods = set(); todo = [s.I.classes.get(c) for c in classes]
        while todo:
            ci = todo.pop()
            if ci is None or ci.mod in mods: continue
            mods.add(ci.mod)
            for b in ci.bases:
                n = getattr(b, 'c', b); todo.append(n if hasattr(n, 'members') else s.I.classes.get(getattr(b, 'id', getattr(b, 'attr', None))))
        out = set()
        def ints(n): return {q.value for q in ast.walk(n) if isinstance(q, ast.Constant) and type(q.value) is int} if not isinstance(n, list) else set().union(*map(ints, n), set())
        for m in mods:
            t = s.I.modules.get(m)
            if t is None: continue
            for n in ast.walk(t):
                if isinstance(n, (ast.Compare, ast.Slice)): out |= {int(v) for v in ints(n) if abs(v) < 1e6}
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.LShift, ast.RShift, ast.BitAnd)): out |= {int(v) for v in ints(n) if abs(v) < 1e6}
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'min', 'max', 'divmod'): out |= {int(v) for v in ints(n.args) if abs(v) < 1e6}
                elif isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant): out |= {int(v) for v in ints(n.value) if abs(v) < 1e6}
        got = {c + d for c in out if c <= hi for d in (-1, 0, 1)}
        return sorted(c for c in got if lo <= c)
    def words(s, *classes):
        """Words which the source of the classes holds as strings."""
        out = set()
        for c in classes:
            ci = s.I.classes.get(c); t = s.I.modules.get(ci.mod) if ci is not None else None
            if t is None: continue
            out |= {n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 24 and ' ' not in n.value and n.value.isprintable()}
        return sorted(out)
    def site(s, cls, name):
        """File and line of the definition of a method."""
        ci = s.I.classes.get(cls)
        p = s.I.lookup(ci, name) if ci is not None else None
        try:
            v = p[1]
            if v.k == 'prop': v = v.c.set or v.c.get
            f = v.c[1]
            return s.I.filename(f.mod) if hasattr(s.I, 'filename') else f.mod.replace('.', '/') + '.py', f.node.lineno
        except Exception: return '', 0
    # ------------------------------------------------------------------ helpers on states
    def attrs(s, st, o):
        c = s.I.cell(st, next(iter(o.locs)))
        return c.attrs or {}
    def reach(s, st, v, seen=None, path=''):
        """( path, value ) of every container reachable from a value."""
        seen = set() if seen is None else seen
        out = []
        I = s.I
        if v is None: return out
        if v.k == 'inst':
            for l in v.locs:
                if l in seen: continue
                seen.add(l)
                c = I.cell(st, l)
                for n, w in ((c.attrs or {}).items() if c else ()): out += s.reach(st, w, seen, f'{path}.{n}')
            return out
        if v.k == 'tuple':
            if isinstance(v.c, tuple):
                for i, w in enumerate(v.c): out += s.reach(st, w, seen, f'{path}[{i}]')
            return out
        if v.k in ('arr', 'list', 'dict', 'set', 'any'):
            out.append((path, v))
            if v.k in ('list', 'dict', 'set'):
                for l in v.locs:
                    if (l, path) in seen: continue
                    seen.add((l, path))
                    c = I.cell(st, l)
                    if c is None: continue
                    if c.elem is not None: out += s.reach(st, c.elem, seen, path + '[]')
                    its = c.items.values() if isinstance(c.items, dict) else (c.items or ())
                    for w in its:
                        if w.__class__ is V: out += s.reach(st, w, seen, path + '[]')
        return out

# ------------------------------------------------------------------ running a check
def names(I): return {'.'.join(str(x) for x in ((getattr(c, 'name', c) if c else getattr(m, 'name', m)), n)) for m, c, n in I.inlined}
def broken(ctx, e):
    """The analysis itself failed: what was decided before remains, the rest is undecided."""
    traceback.print_exc()
    ctx.R.undecided('analysis', 'worker', f'analysis stopped: {type(e).__name__}')
def _work(ctx, f, i, n, w):
    try:
        ctx.shard = (i, n); ctx.unit = 0
        ctx.alarm()
        try: extra = f(ctx); err = None
        except AnchorMissing as e: extra, err = None, str(e)
        except Late: extra, err = None, None; ctx.R.undecided('analysis', 'worker', 'out of time')
        except Exception as e: extra, err = None, None; broken(ctx, e)
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.R.funcs |= names(ctx.I)
        for k, v in ctx.R.und.items(): ctx.R.und[k] = v[:5]
        pickle.dump((ctx.R, extra, err), w)
        w.flush()
    except BaseException:
        traceback.print_exc()
    finally: os._exit(0)
def run(ctx, f, n=None):
    """Run a client sharded over processes and merge the reports."""
    n = n or min(8, os.cpu_count() or 1)
    if n <= 1:
        ctx.alarm(); extra = None
        try: extra = f(ctx)
        except Late: ctx.R.undecided('analysis', 'check', 'out of time')
        except AnchorMissing: raise
        except Exception as e: broken(ctx, e)
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.R.funcs |= names(ctx.I)
        return extra
    ps = []
    sys.stdout.flush()
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r); _work(ctx, f, i, n, os.fdopen(w, 'wb'))
        os.close(w); ps.append((pid, os.fdopen(r, 'rb')))
    extra, missing = {}, None
    for pid, r in ps:
        data = r.read(); os.waitpid(pid, 0)
        if not data: ctx.R.undecided('analysis', 'worker', 'analysis process ended early'); continue
        rep, ex, err = pickle.loads(data)
        if err: missing = err
        ctx.R.merge(rep)
        for k, v in (ex or {}).items(): extra[k] = extra.get(k, 0) + v if isinstance(v, int) else v
    if missing: raise AnchorMissing(missing)
    return extra
def known(prop):
    out = set()
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f'known: property={prop} key='): out.add(l.split('key=', 1)[1].split(' :: ')[0].strip())
    return out
def finish(ctx, explanation, extra=None):
    R = ctx.R; base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ev = os.path.join(base, 'evidence'); os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(ctx.prop + '.violation'): os.unlink(os.path.join(ev, f))
    kn = known(ctx.prop); new = []; rec = []
    for k, f in sorted(R.viol.items()):
        if k in kn: rec.append(f)
        else: new.append(f)
    for f in rec: print(f'KNOWN-FINDING: property={ctx.prop} {f.rule} {f.file}:{f.line} {f.msg}')
    for i, f in enumerate(new):
        p = os.path.join(ev, f'{ctx.prop}.violation-{i}.json')
        json.dump(dict(property=ctx.prop, rule=f.rule, key=f.key, file=f.file, line=f.line, message=f.msg, instance=str(f.inst)), open(p, 'w'), indent=1)
        print(f'VIOLATION property={ctx.prop} replay={p}')
        print(f'  {f.file}:{f.line}: {f.rule}: {f.msg}   [{f.inst}]')
    I = ctx.I
    funcs = sorted(R.funcs)
    cov = dict(explanation=explanation, scenarios_analysed=R.scen, obligations=sum(R.n.values()), discharged=R.n['discharged'], violated=R.n['violated'], undecided=R.n['undecided'],
               rules=R.rules, functions_analysed=funcs, functions_count=len(funcs), classes_loaded=len(I.classes), sites=len(R.sites), samples=R.samples[:12],
               undecided_reasons={k: v[:3] for k, v in list(R.und.items())[:20]}, analysis_errors=R.errors[:5])
    if extra: cov.update(extra)
    json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov, wall_s=round(time.time() - ctx.t0, 3), violations=len(new), reported=[dict(rule=f.rule, file=f.file, line=f.line, message=f.msg) for f in new], known=[f.key for f in rec]),
              open(os.path.join(ev, ctx.prop + '.json'), 'w'), indent=1)
    print(f'{ctx.prop}: scenarios {R.scen}, obligations {sum(R.n.values())}: discharged {R.n["discharged"]}, violated {R.n["violated"]}, undecided {R.n["undecided"]}, {time.time()-ctx.t0:.1f} s')
    return 1 if new else 0

# ------------------------------------------------------------------ walks over values
def walkvals(ctx, st, v, path='', seen=None, depth=0):
    """( path, value ) of every value reachable from v, containers and scalars alike."""
    seen = set() if seen is None else seen
    if not isinstance(v, V) or depth > 12: return
    yield path, v
    if v.k == 'tuple' and isinstance(v.c, tuple):
        for i, w in enumerate(v.c): yield from walkvals(ctx, st, w, f'{path}[{i}]', seen, depth + 1)
    if v.k in ('inst', 'list', 'dict', 'set', 'arr', 'ext'):
        for l in v.locs:
            if l in seen: continue
            seen.add(l)
            c = ctx.I.cell(st, l)
            if c is None: continue
            if v.k == 'inst' or v.k == 'ext':
                for n, w in (c.attrs or {}).items(): yield from walkvals(ctx, st, w, f'{path}.{n}', seen, depth + 1)
                continue
            if c.elem is not None: yield from walkvals(ctx, st, c.elem, path + '[]', seen, depth + 1)
            its = c.items.values() if isinstance(c.items, dict) else (c.items or ())
            for w in its: yield from walkvals(ctx, st, w, path + '[]', seen, depth + 1)
def deepdeps(ctx, st, v):
    d = set()
    for _, w in walkvals(ctx, st, v): d |= set(w.deps)
    return {x for x in d if isinstance(x, str)}
def explicit(o):
    import ast
    return isinstance(o.node, ast.Raise)
def excname(o): return o.v.c if o.v is not None and o.v.c is not NOC else None
