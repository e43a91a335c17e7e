"""C09, C10: logging."""
from ..core import *
from .. import meth
LEVEL = ['Critical', 'Error', 'Warning', 'Success', 'Info', 'Debug', 'Trace']
NO = {'CRITICAL': 50, 'ERROR': 40, 'WARNING': 30, 'SUCCESS': 25, 'INFO': 20, 'DEBUG': 10, 'TRACE': 5}
FILE = 'diamondback/commons/log.py'
def stream(n): return V('ext', c=('stream', n), deps=frozenset([f'arg:{n}']), t=('par', n))
def lv(s): return vconst(s)
class L:
    """Log operations on abstract states."""
    def __init__(s, ctx): s.ctx, s.I, s.n = ctx, ctx.I, 0; ctx.I.tracing = True
    def site(s, op): return s.ctx.site('Log', op)
    def op(s, op, args, st=None, label='', fail=()):
        st = (st or blank(s.I)).copy(); st.eff = E0; st.trace = (); st.locks = ()
        s.I.fail_calls = (lambda name, a, k, q, node: fail[name] if name in fail else None) if fail else None
        s.n += 1
        try: r = s.ctx.guard('analysis', label or op, lambda: s.ctx.D.static('Log', op, list(args), {}, st, op=f'k{s.n}'))
        finally: s.I.fail_calls = None
        return r
    def after(s, op, args, st=None):
        r = s.op(op, args, st)
        return r.results[0][1] if r and len(r.results) >= 1 else None
    def handlers(s, st): return meth.handlers(s.I, st)
def initial(I, hs):
    st = blank(I); st.heap[meth.LG] = Cell('obj', attrs={}); meth.sethandlers(I, st, hs)
    return st
def scenarios(l):
    """( label, op, step ) over states, arguments and failures."""
    I = l.I
    text_, exc = text('entry'), V('exc', c='RuntimeError', deps=frozenset(['arg:entry']), t=('par', 'entry'))
    st1 = l.after('stream', [stream('s1')])
    states = [('initial', blank(I))] + ([('after stream', st1)] if st1 is not None else [])
    for nm, st in states:
        for a in ('info', 'Trace', 'Bogus'):
            yield f'level( {a} ) {nm}', 'level', l.op('level', [lv(a)], st)
        yield f'level( symbolic ) {nm}', 'level', l.op('level', [text('level')], st)
        for a, b in (('a stream', stream('s2')), ('None', NONE), ('an object', obj('o'))): yield f'stream( {a} ) {nm}', 'stream', l.op('stream', [b], st)
        for f in ({'logger.add': 'TypeError'}, {'logger.remove': 'RuntimeError'}, {'logger.remove': 'ValueError'}):
            yield f'stream with failing {next(iter(f))} {nm}', 'stream', l.op('stream', [stream('s2')], st, fail=f)
            yield f'write with failing {next(iter(f))} {nm}', 'write', l.op('write', [lv('Error'), text_], st, fail=f)
        for a in ('Error', 'Trace', 'Bogus'):
            for e in (text_, exc, obj('entry')): yield f'write( {a} ) {nm}', 'write', l.op('write', [lv(a), e], st)
        yield f'write( symbolic ) {nm}', 'write', l.op('write', [text('level'), text_], st)
def c09(ctx):
    R, I = ctx.R, ctx.I
    l = L(ctx)
    runs = [(a, b, r) for a, b, r in scenarios(l) if r is not None]
    events = list(I.events)
    shared = {t[1] for _, _, r in runs for st in [s for _, s in r.results] + [o.st for o in r.raises] for t in st.trace if isinstance(t, tuple) and t[0] == 'store'}
    R.samples.append('shared state: ' + ', '.join(sorted(shared)))
    toks = {}
    for lab, op, r in runs:
        for st in [s for _, s in r.results] + [o.st for o in r.raises]:
            for t in st.trace:
                if isinstance(t, tuple) and t[0] == 'acquire': toks[t[1]] = toks.get(t[1], 0) + 1
    lock = max(toks, key=toks.get) if toks else None
    unknown = any(isinstance(t, tuple) and t[0] == 'unknownctx' for _, _, r in runs for st in [s for _, s in r.results] + [o.st for o in r.raises] for t in st.trace)
    if unknown: R.undecided('lock', 'Log', 'a context manager which is not interpreted'); return
    if lock is None: R.bad('no-lock', 'Log', 'no operation of Log acquires a lock', FILE, l.site('write')[1])
    elif lock.startswith('lock:new:'): R.bad('private-lock', 'Log', 'the lock is created by the operation itself, so concurrent calls do not exclude each other', FILE, l.site('write')[1])
    for e in events:
        if e.kind == 'deadlock': R.bad('self-deadlock', e.func, f'{e.func} acquires a lock that is not re-entrant while already holding it', e.file, e.line)
        if e.kind == 'classstore' and isinstance(e.value, V) and e.value.k == 'ext' and e.value.c[0] in ('RLock', 'Lock'): R.bad('lock-replaced', e.func, f'{e.func} replaces the lock {e.attr}', e.file, e.line)
    for lab, op, r in runs:
        for kind, st in [('return', s) for _, s in r.results] + [('raise', o.st) for o in r.raises]:
            inst = f'{lab}: {kind}'
            if any(str(k).startswith('lock:') for k in st.locks): R.bad('lock-not-released', inst, f'Log.{op} ({lab}) leaves the lock held on a path that ends in {kind}', FILE, l.site(op)[1], key=f'held|{op}'); continue
            sec = 0; cur = {}; loads = {}; bad = None
            for t in st.trace:
                if not isinstance(t, tuple): continue
                if t[0] == 'acquire' and t[1] == lock and t[3].count(lock) == 1: sec += 1; cur = {}
                if t[0] in ('load', 'store', 'install', 'uninstall', 'emit') and len(t) == 4:
                    if t[0] in ('load', 'store') and t[1] not in shared: continue
                    if lock not in t[3]:
                        bad = ('unlocked-access', t, f'{ACT[t[0]]} {t[1] if t[0] in ("load", "store") else ""} without holding the lock'); break
                    if t[0] == 'load': loads.setdefault(t[1], set()).add(sec); continue
                    # act: what was checked earlier must have been checked in the same section
                    stale = [a for a, ss in loads.items() if sec not in ss and relevant(t, a, shared)]
                    if stale: bad = ('check-then-act', t, f'{ACT[t[0]]} relies on {stale[0]}, read in an earlier critical section: the lock was released between the check and the act'); break
                    R.ok('locked-access', f'{inst} line {t[2]} {t[0]} {t[1]}')
            if bad: R.bad(bad[0], inst, f'Log.{op}: {bad[2].replace("  ", " ")} (line {bad[1][2]})', FILE, bad[1][2], key=f'{bad[0]}|{op}|{bad[1][0]}|{bad[1][1]}')
            else: R.ok('released', inst)
ACT = {'load': 'reads', 'store': 'writes', 'install': 'installs a handler', 'uninstall': 'removes a handler', 'emit': 'emits an entry'}
def relevant(t, a, shared):
    if t[0] == 'store': return t[1] == a
    return True

def unchanged(ctx):
    """A level or stream change that raises leaves the level, the installed handlers and what the class knows of them ( C08 )."""
    R, I = ctx.R, ctx.I
    if not ctx.mine(): return
    tr = I.tracing; l = L(ctx); ci = I.classes.get('Log')
    if ci is None: raise AnchorMissing('class Log')
    def known(s):
        c = I.cell(s, ci.loc)
        return {k: v for k, v in (c.attrs or {}).items() if not (isinstance(v, V) and v.k == 'ext' and v.c[0] in ('RLock', 'Lock'))} if c is not None else {}
    def sig(v): return (v.k, v.c if v.c is not NOC else None, v.t) if isinstance(v, V) else v
    one = l.after('stream', [stream('s1')])
    states = [('initial', initial(I, ('h0',)))]
    if one is not None:
        one = rename(I, one); two = l.after('level', [lv('Error')], one)
        gone = one.copy(); meth.sethandlers(I, gone, tuple(h for h in l.handlers(gone) if h in ('h0', 'app')))
        states += [('after a stream', one), ('after the application removed the handler', gone)] + ([('after a stream and a level', two)] if two is not None else [])
    calls = [('level', f'level( {a!r} )', [lv(a)], ()) for a in ('Bogus', '', 'inf')] + [('level', 'level( None )', [NONE], ()), ('level', 'level( 3 )', [vconst(3)], ()), ('level', 'level( any text )', [text('level')], ())]
    calls += [('stream', f'stream( {n} )', [v], ()) for n, v in (('None', NONE), ('a number', vconst(3)), ('a text', vconst('out')), ('a stream', stream('s2')))]
    calls += [('stream', f'stream( a stream ) with {x} when it is installed', [stream('s2')], {'logger.add': x}) for x in ('TypeError', 'ValueError', 'OSError')]
    for nm, st in states:
        for op, what, args, fail in calls:
            inst = f'Log.{what} {nm}'
            r = l.op(op, args, st, fail=fail)
            for o in (r.raises if r else ()):
                a, b = known(st), known(o.st)
                ch = [k for k in b if sig(a.get(k)) != sig(b[k])]
                if ch: R.bad('failure-leaves-change', inst, f'{inst} raises {excname(o)} after Log.{", ".join(ch)} was changed', FILE, l.site(op)[1], key=f'Log|{op}|{",".join(ch)}')
                elif sorted(l.handlers(st)) != sorted(l.handlers(o.st)): R.bad('failure-leaves-change', inst, f'{inst} raises {excname(o)} after the installed handlers changed from {sorted(l.handlers(st))} to {sorted(l.handlers(o.st))}', FILE, l.site(op)[1], key=f'Log|{op}|handlers')
                else: R.ok('failure-leaves-no-change', inst)
    I.tracing = tr
# ------------------------------------------------------------------ C10
def logged(st): return [t for t in st.trace if isinstance(t, tuple) and t[0] == 'log']
ENTRIES = ('plain', 'a {} b', '{0}', '{name}', '100 %', '%s %d', '  padded ', 'two\nlines', '<red>x</red>', 'a\\b', 'Grüße', 'x' * 400, '', '0', 'Exception = x', 'a@b', 'MiXed', 'tab\there', '\x00')
def c10(ctx):
    R, I = ctx.R, ctx.I
    l = L(ctx)
    entry = text('entry')
    fl, fs, fw = l.site('level')[1], l.site('stream')[1], l.site('write')[1]
    base = l.after('stream', [stream('s1')])
    if base is None: R.undecided('stream', 'Log.stream', 'no result'); return
    def gate(st, cur, w, e, what, nm=''):
        r = l.op('write', [lv(w), e], st)
        if r is None: return
        inst = f'{nm}level {cur}, write( {w}, {what} )'
        want = NO[w.upper()] >= NO[cur.upper()]
        rs = [s for _, s in r.results]
        if not rs:
            R.bad('write-fails', inst, f'write( {w} ) with current level {cur} never returns: {sorted({str(excname(o)) for o in r.raises})}', FILE, fw, key=f'fails|{what}'); return
        got = {len(logged(s)) for s in rs}
        if want and got == {1} or not want and got == {0}: R.ok('gate', inst)
        elif want and 0 not in got: R.bad('repeated', inst, f'write( {w} ) with current level {cur} emits the entry {max(got)} times', FILE, fw, key='repeated')
        elif len(got) > 1: R.undecided('gate', inst, 'gate not decided')
        else: R.bad('gate', inst, f'write( {w} ) with current level {cur} is {"suppressed" if want else "emitted"}', FILE, fw, key='gate')
        for s in rs:
            for t in logged(s):
                if isinstance(t[1], str):
                    if t[1] != w.upper(): R.bad('entry-level', inst, f'an entry written at {w} is emitted at {t[1]}', FILE, fw, key='entry-level')
                    else: R.ok('entry-level', inst)
                elif isinstance(t[1], (int, float)) and t[1] == NO[w.upper()]: R.bad('entry-level', inst, f'an entry written at {w} is emitted at a level without a name, of severity {t[1]}', FILE, fw, key='entry-level')
                elif isinstance(t[1], (int, float)) and t[1] != NO[w.upper()]: R.bad('entry-level', inst, f'an entry written at {w} is emitted with severity {t[1]}', FILE, fw, key='entry-level')
                if what == 'text' and t[2] is not None and t[2] != ('par', 'entry'):
                    if t[2][0] in ('case', 'strip', 'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix', 'translate', 'zfill', 'center', 'ljust', 'rjust', 'slice', 'index', 'format', 'fmt', 'mod', 'expandtabs'): R.bad('entry-text', inst, f'the emitted text is not the entry but {str(t[2])[:80]}', FILE, fw, key='entry-text')
                    elif ('par', 'entry') not in poly.leaves(t[2]): R.bad('entry-text', inst, 'the emitted text does not contain the entry', FILE, fw, key='entry-text')
                elif what == 'text' and t[2] is not None: R.ok('entry-text', inst)
                if what == 'word':
                    if t[2] == ('c', e.c): R.ok('entry-text', inst)
                    elif t[2] is not None and t[2][:1] == ('c',): R.bad('entry-text', inst, f'the emitted text of the entry {e.c!r} is {t[2][1]!r}', FILE, fw, key='entry-text')
                    else: R.undecided('entry-text', inst, 'text not tracked')
    # level pairs
    for i, a in enumerate(LEVEL):
        for sp in {a, a.upper(), a.lower()} if i % 3 == 0 else {a}:
            r = l.op('level', [lv(sp)], base)
            if r is None: continue
            if len(r.results) != 1: (R.bad('level-rejected', f'level( {sp} )', f'level( {sp} ) is rejected', FILE, fl, key='level-rejected') if not r.results else R.undecided('gate', f'level( {sp} )', 'not decided')); continue
            st = r.results[0][1]
            for b in LEVEL: gate(st, a, b, entry, 'text')
        gate(st, a, 'error', V('exc', c='RuntimeError', deps=frozenset(['arg:entry']), t=('par', 'entry')), 'exception')
        gate(st, a, 'DEBUG', entry, 'text')
    for b in LEVEL: gate(base, 'Info', b, entry, 'text', 'default ')
    for s in ENTRIES: gate(base, 'Info', 'Error', vconst(s), 'word', f'entry {s[:24]!r} ')
    # order of level and stream calls
    for a in ('Error', 'Trace'):
        s1 = l.after('level', [lv(a)])
        s2 = l.after('stream', [stream('s1')], s1) if s1 is not None else None
        if s2 is not None:
            for b in LEVEL: gate(s2, a, b, entry, 'text', 'level before stream: ')
    # unknown levels
    for op, args in (('level', [lv('Bogus')]), ('level', [lv('')]), ('write', [lv('Bogus'), entry]), ('write', [lv('Inf'), entry])):
        r = l.op(op, args, base)
        if r is None: continue
        inst = f'{op}( {args[0].c!r} )'
        f = fl if op == 'level' else fw
        if r.results: R.bad('unknown-level', inst, f'{inst} is accepted', FILE, f, key=f'unknown|{op}')
        elif any(excname(o) != 'ValueError' for o in r.raises): R.bad('unknown-level', inst, f'{inst} raises {sorted({str(excname(o)) for o in r.raises})} instead of ValueError', FILE, f, key=f'unknown|{op}')
        elif any(logged(o.st) for o in r.raises): R.bad('unknown-level', inst, f'{inst} emits an entry', FILE, f, key=f'unknown|{op}')
        else: R.ok('unknown-level', inst)
    # installed handlers
    def final(r, want, inst, key, line=fs, sink=None):
        if r is None: return
        if not r.results: R.bad('stream-fails', inst, f'{inst} never returns', FILE, line, key=key); return
        for _, s in r.results:
            h = l.handlers(s)
            unk = any(isinstance(t, tuple) and t[:2] == ('remove', '?') for t in s.trace)
            if unk: R.undecided('handlers', inst, 'handler removed through an unknown number'); continue
            if sorted(map(ren, h)) != sorted(want): R.bad('handlers', inst, f'{inst}: installed handlers are {sorted(map(ren, h))}, expected {sorted(want)}', FILE, line, key=key); continue
            adds = [t for t in s.trace if isinstance(t, tuple) and t[0] == 'add']
            if sink is not None and [t[2] for t in adds] != [sink]: R.bad('handlers', inst, f'{inst}: the handler is installed on {[t[2] for t in adds]}', FILE, line, key=key + '|sink'); continue
            R.ok('handlers', inst)
    def ren(h): return 'library' if h.startswith('h') and h != 'h0' else h
    app = initial(I, ('h0', 'app')); noh0 = initial(I, ('app',))
    final(l.op('stream', [stream('s1')]), ['library'], 'first stream', 'first', sink=('par', 's1'))
    final(l.op('stream', [stream('s1')], app), ['app', 'library'], 'first stream, application handler installed', 'first-app', sink=('par', 's1'))
    final(l.op('stream', [stream('s1')], noh0), ['app', 'library'], 'first stream, default handler removed by the application', 'first-noh0', sink=('par', 's1'))
    for nm, st in (('', None), (' with application handler', app)):
        s1 = l.after('stream', [stream('s1')], st)
        if s1 is None: continue
        w = ['app'] if nm else []
        # the second installation must remove the first: distinguish the two by renaming the first
        s1 = rename(I, s1)
        final(l.op('stream', [stream('s2')], s1), w + ['library'], 'second stream' + nm, 'second', sink=('par', 's2'))
        s2 = l.after('stream', [stream('s2')], s1)
        if s2 is not None: final(l.op('stream', [stream('s3')], rename(I, s2, 101)), w + ['library'], 'third stream' + nm, 'third', sink=('par', 's3'))
        r = l.op('stream', [stream('s2')], s1, fail={'logger.add': 'TypeError'})
        for o in (r.raises if r else ()):
            if excname(o) != 'TypeError': continue
            h = sorted(map(ren, l.handlers(o.st)))
            if h != sorted(w + ['library']): R.bad('failed-stream', 'stream that is not accepted' + nm, f'after a stream change that failed the installed handlers are {h}', FILE, fs, key='failed-stream')
            else: R.ok('failed-stream', 'stream that is not accepted' + nm)
        # the application removed the library handler
        s3 = s1.copy(); meth.sethandlers(I, s3, tuple(x for x in l.handlers(s3) if ren(x) != 'library'))
        final(l.op('stream', [stream('s2')], s3), w + ['library'], 'stream after the application removed the handler' + nm, 'removed', sink=('par', 's2'))
    for nm, v in (('None', NONE), ('a number', vconst(3))):
        r = l.op('stream', [v], rename(I, base))
        if r is None: continue
        if r.results: R.bad('invalid-stream', nm, f'stream( {nm} ) is accepted', FILE, fs, key='invalid-stream')
        elif any(excname(o) != 'ValueError' for o in r.raises): R.bad('invalid-stream', nm, f'stream( {nm} ) raises {sorted({str(excname(o)) for o in r.raises})} instead of ValueError', FILE, fs, key='invalid-stream')
        else: R.ok('invalid-stream', nm)
    # write without a stream installs standard output once
    r = l.op('write', [lv('Error'), entry])
    final(r, ['library'], 'write without stream', 'nostream', fw, sink=('ext', 'sys.stdout'))
    if r and r.results:
        final(l.op('write', [lv('Error'), entry], rename(I, r.results[0][1])), ['library'], 'second write without stream', 'nostream2', fw)
        for _, s in (l.op('write', [lv('Error'), entry], rename(I, r.results[0][1])) or Step([], [])).results:
            if any(isinstance(t, tuple) and t[0] == 'add' for t in s.trace): R.bad('handlers', 'second write', 'a second write installs standard output again', FILE, fw, key='again')
    for _, s in (l.op('write', [lv('Error'), entry], rename(I, base)) or Step([], [])).results:
        if any(isinstance(t, tuple) and t[0] in ('add', 'remove') for t in s.trace): R.bad('handlers', 'write', 'a write changes the installed handlers', FILE, fw, key='write-handlers')
        else: R.ok('handlers', 'write leaves the handlers')
    for a in ('Error',):
        for _, s in (l.op('level', [lv(a)], rename(I, base)) or Step([], [])).results:
            if any(isinstance(t, tuple) and t[0] in ('add', 'remove') for t in s.trace): R.bad('handlers', 'level', 'a level change changes the installed handlers', FILE, fl, key='level-handlers')
            else: R.ok('handlers', 'level leaves the handlers')
    # histories of calls, including those of the application on its logger
    def step(st, h, a, n):
        """State and expected handlers after one more action; h = ( default installed, library: None never, True, False removed, application handlers )."""
        d, lib, app_ = h
        if a == 'stream': return l.op('stream', [stream(f's{n}')], st), (False if lib is None else d, True, app_)
        if a == 'failed stream': return l.op('stream', [stream(f's{n}')], st, fail={'logger.add': 'TypeError'}), h
        if a == 'invalid stream': return l.op('stream', [NONE], st), h
        if a == 'level': return l.op('level', [lv('Error')], st), h
        if a == 'write': return l.op('write', [lv('Error'), entry], st), (False if lib is None else d, True, app_) if lib is None else h
        s = st.copy(); hs = l.handlers(s)
        if a == 'removal': meth.sethandlers(I, s, tuple(x for x in hs if ren(x) != 'library')); return Step([(NONE, s)], []), (d, False if lib else lib, app_)
        if a == 'addition': meth.sethandlers(I, s, tuple(hs) + (f'app{n}',)); return Step([(NONE, s)], []), (d, lib, app_ + (f'app{n}',))
    def histories(st, h, done, left):
        for a in ('stream', 'failed stream', 'invalid stream', 'level', 'write', 'removal', 'addition'):
            if done and a == done[-1] and a in ('level', 'invalid stream', 'addition', 'removal'): continue
            if a == 'removal' and not h[1]: continue
            if not left and a not in ('stream', 'write', 'failed stream'): continue
            r, g = step(st, h, a, len(done) + 1)
            if r is None: continue
            path = done + (a,); inst = ', '.join(path)
            outs = [s for _, s in r.results] if a not in ('failed stream', 'invalid stream') else [o.st for o in r.raises]
            if a == 'failed stream': outs = [o.st for o in r.raises if excname(o) == 'TypeError']
            for s in outs:
                hs = l.handlers(s)
                if any(isinstance(t, tuple) and t[:2] == ('remove', '?') for t in s.trace): R.undecided('histories', inst, 'handler removed through an unknown number'); continue
                want = (['h0'] if g[0] else []) + (['library'] if g[1] else []) + list(g[2])
                if sorted(map(ren, hs)) != sorted(want): R.bad('handlers', inst, f'after the calls {inst} the installed handlers are {sorted(map(ren, hs))}, expected {sorted(want)}', FILE, fw if a == 'write' else fs, key=f'history|{a}'); continue
                R.ok('histories', inst)
                if left: histories(rename(I, s, 100 + len(path)), g, path, left - 1)
    histories(initial(I, ('h0',)), (True, None, ()), (), 4 if ctx.tier == 'quick' else 6)
    # options of the handler and side effects on the logger
    for e in I.events:
        if e.kind == 'addhandler':
            lvl = e.kw.get('level')
            inst = f'{e.func} line {e.line}'
            if lvl is None: R.bad('handler-level', inst, 'the handler is installed with the default threshold of the logger, which drops Trace entries', e.file, e.line, key='handler-level')
            elif lvl.c is not NOC and (lvl.c if isinstance(lvl.c, (int, float)) else NO.get(str(lvl.c), 0)) > 5: R.bad('handler-level', inst, f'the handler drops entries below {lvl.c}', e.file, e.line, key='handler-level')
            elif lvl.c is not NOC: R.ok('handler-level', inst)
            else: R.undecided('handler-level', inst, 'threshold not constant')
            if 'filter' in e.kw and e.kw['filter'].k != 'none': R.undecided('handler-filter', inst, 'filter')
            fmt = e.kw.get('format')
            if fmt is not None and fmt.k == 'str' and fmt.c is not NOC and '{message' not in fmt.c: R.bad('handler-format', inst, 'the format of the handler drops the message', e.file, e.line, key='handler-format')
        if e.kind == 'levelchange': R.bad('logger-changed', f'{e.func}', f'{e.func} changes a level of the logger', e.file, e.line)
        if e.kind == 'logconfig': R.bad('logger-changed', f'{e.func}', f'{e.func} reconfigures the logger ({e.name})', e.file, e.line)
def rename(I, st, n=100):
    """The handler the library installed last gets a number of its own, distinct from those of later installations."""
    s = st.copy(); old = None
    hs = list(meth.handlers(I, s))
    for i, h in enumerate(hs):
        if h.startswith('h') and h != 'h0': old = h; hs[i] = f'h{n}'
    meth.sethandlers(I, s, hs)
    if old is None: return s
    for loc, c in list(s.heap.items()):
        if c.attrs:
            at = {k: (v.r(t=('handler', n)) if isinstance(v, V) and v.t == ('handler', int(old[1:])) else v) for k, v in c.attrs.items()}
            if at != c.attrs: s.heap[loc] = c.r(attrs=at)
    return s
from .. import poly
