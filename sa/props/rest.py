"""C11, C12: REST client and serialization."""
from ..core import *
FILE11, FILE12 = 'diamondback/commons/rest_client.py', 'diamondback/commons/serial.py'
METHODS = ('Delete', 'Get', 'Head', 'Options', 'Patch', 'Post', 'Put')
BAD = ('trace', 'Connect', 'foo', '', 'gets', 'ge', 'get ', 'propfind')
PASS = {'auth': ('auth', 'auth'), 'header': ('headers', 'header'), 'item': ('params', 'item')}
def isnone(v): return v is None or v.k == 'none'
STATUS = ('response', 'status_code')
OPS = {'Lt': lambda b: (100, b - 1), 'LtE': lambda b: (100, b), 'Gt': lambda b: (b + 1, 599), 'GtE': lambda b: (b, 599), 'Eq': lambda b: (b, b)}
SW = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE', 'Eq': 'Eq'}
def status(st):
    """Interval of status codes which reach a state, or None if the status has not been compared with a constant."""
    lo, hi, any_ = 100, 599, False
    for op, a, b in st.facts:
        if b == STATUS: a, b, op = b, a, SW.get(op)
        if a == STATUS and op in OPS and isinstance(b, tuple) and b[:1] == ('c',) and isinstance(b[1], (int, float)):
            l, h = OPS[op](b[1]); lo, hi, any_ = max(lo, l), min(hi, h), True
    return (lo, hi) if any_ else None
def reads_status(I, n): return any(e.kind == 'branch' and e.cond is not None and 'status' in e.cond.deps for e in I.events[n:])
def client(ctx, url, st=None, op='k0'):
    """Client with the given settings assigned."""
    I, D = ctx.I, ctx.D
    r = D.construct('RestClient', st=st or blank(I), op=op)
    if not r.results: return None
    o, st = r.results[0]
    for n, v in (('proxy', mapping(st, 'set.proxy')), ('timeout', obj('set.timeout')), ('url', url)):
        if v is None: continue
        y = D.set(o, n, v, st, op=op + n)
        if not y.results: return None
        st = y.results[0][1]
    st = st.copy(); st.eff = E0; st.trace = ()
    return o, st
def urlok(u, base, api):
    """True, False or None: u is base and api joined by a single slash ( a trailing slash is not specified )."""
    if u.c is NOC or not isinstance(u.c, str): return None
    b, a = base.strip('/'), api.strip('/')
    return u.c in ({b, b + '/'} if not a else {f'{b}/{a}', f'{b}/{a}/'})
def same(v, name, st, I):
    """'ok', 'lost', 'changed' or None for a setting passed on."""
    if isnone(v): return 'lost'
    d = {x for x in v.deps if isinstance(x, str)} | deps(I, st, v)
    if v.t == ('par', name): return 'ok'
    if v.k == 'dict' and any(f'arg:{name}' in str(l) for l in v.locs): return 'ok'
    if not any(x.split(':')[-1] == name for x in d): return 'lost'
    return None
def deps(I, st, v):
    out = set()
    for l in v.locs:
        c = I.cell(st, l)
        if c is not None:
            if c.elem is not None: out |= {x for x in c.elem.deps if isinstance(x, str)}
            its = c.items.values() if isinstance(c.items, dict) else (c.items or ())
            for w in its:
                if isinstance(w, V): out |= {x for x in w.deps if isinstance(x, str)}
    return out
def settings(ctx, inst, e, where, line, fn):
    R, I = ctx.R, ctx.I
    for k, n in (('proxies', 'set.proxy'), ('timeout', 'set.timeout')):
        v = e.kw.get(k)
        r = same(v, n, e.state, I) if v is not None else 'lost'
        if r == 'ok': R.ok('settings', f'{inst} {k}')
        elif r is None: R.undecided('settings', f'{inst} {k}', 'value not decided')
        elif '**' in e.kw: R.undecided('settings', f'{inst} {k}', 'keyword arguments not decided')
        else: R.bad('settings', inst, f'{fn} sends a request without the configured {"proxies" if k == "proxies" else "timeout"}', FILE11, e.line or line, key=f'{k}|{fn}')
def configured(I, st, v):
    """Python value of a constant, a tuple or list of constants or a dictionary of constants; NOC where not known."""
    if v.k == 'none': return None
    if v.k == 'dict':
        out = {}
        for l in v.locs:
            c = I.cell(st, l)
            if c is None or not isinstance(c.items, dict): return NOC
            for a, b in c.items.items():
                q = configured(I, st, b) if isinstance(b, V) else NOC
                if q is NOC: return NOC
                out[a] = q
        return out if len(v.locs) == 1 else NOC
    if v.k in ('tuple', 'list'):
        its = v.c if isinstance(v.c, tuple) else I.items(st, v)
        if its is None: return NOC
        its = [configured(I, st, z) for z in its]
        return NOC if NOC in its else tuple(its)
    return v.c
def run(ctx, o, st, label, **a):
    I = ctx.I; n = len(I.events)
    st = st.copy()
    r = ctx.guard('analysis', label, lambda: ctx.D.method(o, 'request', kw={k: (v(st) if callable(v) else v) for k, v in a.items()}, st=st, op='k9'))
    ev = I.events[n:]
    return r, [e for e in ev if e.kind == 'send'], ev
def c11(ctx):
    R, I = ctx.R, ctx.I
    line = ctx.site('RestClient', 'request')[1]; ll = ctx.site('RestClient', 'live')[1]
    if I.classes.get('RestClient') is None: raise AnchorMissing('class RestClient')
    base = dict(auth=obj('auth'), header=lambda st: mapping(st, 'header'), item=lambda st: mapping(st, 'item'), data=NONE, json=NONE)
    # url joins
    for u in (None, 'http://h.example/base/', 'http://h.example/base', 'https://h.example:8443/a/b//', 'HTTP://Host.Example/Base', 'h.example:8080/v1', '127.0.0.1', 'http://h.example//a', 'http://u:p@h.example/a%20b', 'http://h.example/a?x=1', 'http://[::1]:8080', 'http://h.example./'):
        q = client(ctx, vconst(u) if u else None)
        if q is None: R.bad('client', 'construct', 'a client cannot be constructed and configured', FILE11, line); return
        o, st = q
        b = u or 'http://127.0.0.1:8080'
        for api in ('', '/', 'a', '/a', 'a/b', '/a/b/', '//a') + ('a//b', 'A/Bc', 'a?x=1&y=/', 'a b', 'a%20b', '../a', '0', 'http://other.example/a', '.', 'a#f', 'base', 'a.json'):
            lab = f'url {u or "default"} api {api!r}'
            r, ev, _ = run(ctx, o, st, lab, method=vconst('get'), api=vconst(api), **base)
            if r is None: continue
            if not ev: R.bad('url', lab, f'request with api {api!r} sends nothing', FILE11, line, key='nothing'); continue
            for e in ev:
                k = urlok(e.url, b, api)
                if k: R.ok('url', lab)
                elif k is None: R.undecided('url', lab, 'address not decided')
                else: R.bad('url', lab, f'request with base {b!r} and api {api!r} is sent to {e.url.c!r}', FILE11, e.line, key='url|request')
                settings(ctx, lab, e, 'request', line, 'request')
        # probe
        n = len(I.events)
        r = ctx.guard('analysis', f'live {u}', lambda: ctx.D.get(o, 'live', st, op='k8'))
        if r is None: continue
        ev = [e for e in I.events[n:] if e.kind == 'send']
        if not ev: R.bad('probe', f'live {u}', 'the liveness probe sends no request', FILE11, ll, key='probe-none'); continue
        for e in ev:
            k = urlok(e.url, b, '')
            if k: R.ok('url', f'live {b}')
            elif k is None: R.undecided('url', f'live {b}', 'address not decided')
            else: R.bad('url', f'live {b}', f'the liveness probe is sent to {e.url.c!r}', FILE11, e.line, key='url|live')
            settings(ctx, f'live {b}', e, 'live', ll, 'live')
    q = client(ctx, text('set.url'))
    if q is None: return
    o, st = q
    r, ev, _ = run(ctx, o, st, 'symbolic', method=vconst('get'), api=text('api'), **base)
    for e in ev:
        d = {x for x in e.url.deps if isinstance(x, str)}
        if 'arg:set.url' not in d and e.url.k != 'any': R.bad('url', 'symbolic', 'request is not sent to the configured base URL', FILE11, e.line, key='url|base')
        else: R.ok('url', 'symbolic base')
    if ev and not any('arg:api' in e.url.deps for e in ev): R.bad('url', 'symbolic', 'request does not use the API path', FILE11, line, key='url|api')
    # configured values which are false or unusual are configured values
    for k, n, v in (('timeout', 'timeout', None), ('timeout', 'timeout', 0.5), ('timeout', 'timeout', 120), ('timeout', 'timeout', (0.25, 600.0)), ('proxies', 'proxy', {}), ('proxies', 'proxy', {'http': ''}), ('proxies', 'proxy', {'https': 'p'})):
        lab = f'{n} {v!r}'
        q = client(ctx, None)
        if q is None: break
        s0 = q[1].copy()
        if isinstance(v, dict):
            loc = 'arg:configured'; s0.heap[loc] = Cell('dict', items={a: vconst(b) for a, b in v.items()}); w = V('dict', locs=frozenset([loc]))
        else: w = V('tuple', c=tuple(vconst(z) for z in v)) if isinstance(v, tuple) else NONE if v is None else vconst(v)
        y = ctx.D.set(q[0], n, w, s0, op='k7')
        if not y.results: continue
        for where in ('request', 'live'):
            s1 = y.results[0][1].copy(); s1.eff = E0; s1.trace = ()
            if where == 'request': r, ev, _ = run(ctx, q[0], s1, lab, method=vconst('get'), api=vconst('a'), **base)
            else:
                m = len(I.events); r = ctx.guard('analysis', lab, lambda: ctx.D.get(q[0], 'live', s1, op='k8')); ev = [e for e in I.events[m:] if e.kind == 'send']
            if r is None: continue
            for e in ev:
                got = e.kw.get(k, NONE); g = configured(I, e.state, got); empty = lambda z: z is None or z == {}
                if g is NOC or '**' in e.kw: R.undecided('settings', f'{where} {lab}', 'value not decided')
                elif g == v or k == 'proxies' and empty(g) and empty(v): R.ok('settings', f'{where} {lab}')
                else: R.bad('settings', f'{where} {lab}', f'{where} with {n} {v!r} configured sends {k} {g!r}', FILE11, e.line, key=f'{k}|{where}')
    # pass through
    variants = [('symbolic data', dict(data=obj('data'), json=NONE)), ('symbolic json', dict(data=NONE, json=obj('json'))), ('empty json object', dict(data=NONE, json=emptydict)), ('empty json list', dict(data=NONE, json=emptylist)), ('neither', dict(data=NONE, json=NONE)), ('text data', dict(data=vconst('body'), json=NONE))]
    for lab, v in variants:
        a = dict(base); a.update(v); st2 = st.copy()
        r, ev, _ = run(ctx, o, st2, lab, method=vconst('post'), api=text('api'), **a)
        if r is None: continue
        if not ev: R.bad('pass', lab, f'request ({lab}) sends nothing', FILE11, line, key=f'nothing|{lab}'); continue
        for e in ev:
            for p, (k, n) in PASS.items(): passed(ctx, lab, e, k, n, p, line, ev)
            for p in ('data', 'json'):
                w = e.kw.get(p); x = v[p]
                if not callable(x) and isnone(x):
                    if isnone(w): R.ok('pass', f'{lab} {p}')
                    elif w.k == 'any' or '**' in e.kw: R.undecided('pass', f'{lab} {p}', 'value not decided')
                    else: R.bad('pass', f'{lab} {p}', f'request sends {p} although none was given', FILE11, e.line, key=f'spurious|{p}')
                elif callable(x):
                    if isnone(w) and '**' not in e.kw: R.bad('pass', f'{lab} {p}', f'request drops an empty {p}', FILE11, e.line, key=f'dropped|{p}')
                    else: R.ok('pass', f'{lab} {p}')
                elif x.c is not NOC:
                    if w is not None and w.c == x.c: R.ok('pass', f'{lab} {p}')
                    elif w is None or isnone(w) or w.c is not NOC: R.bad('pass', f'{lab} {p}', f'request changes {p}', FILE11, e.line, key=f'changed|{p}')
                    else: R.undecided('pass', f'{lab} {p}', 'value not decided')
                else: passed(ctx, lab, e, p, p, p, line, ev)
    # given arguments, in combination
    fold = lambda z: {str(k).casefold(): w for k, w in z.items()} if isinstance(z, dict) else z
    def give(name, v):
        if not isinstance(v, dict): return V('tuple', c=tuple(vconst(z) for z in v)) if isinstance(v, tuple) else NONE if v is None else vconst(v)
        def f(st):
            loc = f'arg:given.{name}'; st.heap[loc] = Cell('dict', items={a: vconst(b) for a, b in v.items()}); return V('dict', locs=frozenset([loc]))
        return f
    combos = [(m, au, h, it, d, j) for m in ('get', 'Post', 'DELETE', 'put', 'head') for au in (None, ('u', 'p')) for h in (None, {}, {'Accept': 'a/b'}, {'Authorization': 'x', 'Content-Type': 'text/plain'}) for it in (None, {}, {'k': 'v', 'n': 0, 'e': ''}) for d, j in ((None, None), ('body', None), (b'', None), (None, {'a': 1}), (None, {}))]
    for m, *g in combos:
        lab = f'{m} ' + ', '.join(f'{n} {v!r}' for n, v in zip(('auth', 'header', 'item', 'data', 'json'), g) if v is not None)
        a = {n: give(n, v) for n, v in zip(('auth', 'header', 'item', 'data', 'json'), g)}
        r, ev, _ = run(ctx, o, st.copy(), lab, method=vconst(m), api=vconst('a'), **a)
        if r is None: continue
        if not ev: R.bad('pass', lab, f'request ( {lab} ) sends nothing', FILE11, line, key='combination|nothing'); continue
        for e in ev:
            for k, n, v in zip(('auth', 'headers', 'params', 'data', 'json'), ('auth', 'header', 'item', 'data', 'json'), g):
                w = configured(I, e.state, e.kw.get(k, NONE))
                if w is NOC or '**' in e.kw: R.undecided('pass', f'{lab}: {n}', 'value not decided'); continue
                if (fold(w) == fold(v) and type(w) is type(v)) or k in ('auth', 'headers', 'params') and not w and not v: R.ok('pass', f'{lab}: {n}')
                else: R.bad('pass', lab, f'request ( {lab} ) sends {k} {w!r}', FILE11, e.line, key=f'combination|{k}')
    # methods
    for m in METHODS:
        for sp in (m, m.upper(), m.lower(), m[0].lower() + m[1:].upper()):
            r, ev, _ = run(ctx, o, st, f'method {sp}', method=vconst(sp), api=text('api'), **base)
            if r is None: continue
            if not ev: R.bad('method', f'method {sp}', f'request rejects the supported method {sp!r}', FILE11, line, key=f'rejected|{m}'); continue
            for e in ev:
                if e.method.c is NOC: R.undecided('method', f'method {sp}', 'method sent is not decided')
                elif str(e.method.c).casefold() != m.casefold(): R.bad('method', f'method {sp}', f'request with method {sp!r} sends {e.method.c!r}', FILE11, e.line, key='method-changed')
                else: R.ok('method', f'method {sp}')
    reject = [(f'method {m!r}', dict(base, method=vconst(m))) for m in BAD] + [('data and json', dict(base, method=vconst('post'), data=vconst('body'), json=fulldict)), ('data and json objects', dict(base, method=vconst('put'), data=vconst(b'body'), json=fulllist))]
    for lab, a in reject:
        st2 = st.copy()
        r, ev, _ = run(ctx, o, st2, lab, api=vconst('a'), **a)
        if r is None: continue
        sent = [q for _, q in r.results] + [q.st for q in r.raises if 'send' in q.st.trace]
        if sent: R.bad('reject', lab, f'request with {lab} is sent', FILE11, line, key=f'unrejected|{lab.split()[0]}')
        elif any(excname(q) not in ('ValueError', None, 'Exception') for q in r.raises if explicit(q)) : R.bad('reject', lab, f'request with {lab} raises {sorted(str(excname(q)) for q in r.raises)}, not ValueError', FILE11, line, key='reject-kind')
        elif any(excname(q) == 'ValueError' for q in r.raises): R.ok('reject', lab)
        else: R.undecided('reject', lab, 'no result')
    # status
    n = len(I.events)
    for lab, m, a in (('get', 'get', base), ('post', 'POST', dict(base, data=obj('data'))), ('put', 'put', dict(base, json=obj('json')))):
        n = len(I.events)
        r, ev, _ = run(ctx, o, st, f'status {lab}', method=vconst(m), api=text('api'), **a)
        if r is None: continue
        und = reads_status(I, n)
        for v, q in r.results:
            t = [z for z in q.trace if z in ('send', 'goodstatus', 'badstatus')]
            if t.count('send') > 1: R.bad('once', f'status {lab}', 'one request call sends more than one request', FILE11, line, key='repeated')
            elif 'send' not in t: R.bad('once', f'status {lab}', 'a path of request returns without sending', FILE11, line, key='unsent')
            elif 'goodstatus' in t[t.index('send'):]: R.ok('status', f'status {lab}')
            elif status(q) is not None and status(q)[1] < 400: R.ok('status', f'status {lab}')
            elif status(q) is not None and status(q)[1] < 599: R.bad('status', f'status {lab}', f'a path of request returns responses with an error status up to {status(q)[1]}', FILE11, line, key='unchecked')
            elif und: R.undecided('status', f'status {lab}', 'status is examined otherwise')
            else: R.bad('status', f'status {lab}', 'a path of request returns the response without its status having been checked' if 'badstatus' not in t else 'a path of request returns a response whose status is an error', FILE11, line, key='unchecked')
            if v.k == 'none': R.bad('response', f'status {lab}', 'a path of request returns no response', FILE11, line, key='no-response')
            elif v.k == 'ext' and v.c[0] == 'response' or v.k == 'any': R.ok('response', f'status {lab}')
            else: R.bad('response', f'status {lab}', 'request does not return the response', FILE11, line, key='no-response')
        if not r.results: R.bad('response', f'status {lab}', 'request never returns', FILE11, line, key='never')
        for z in r.raises:
            t = z.st.trace
            if 'send' in t and 'goodstatus' in t and explicit(z): R.undecided('status', f'status {lab}', 'raises after a good status')
    # the probe never raises
    for f in (None, 'RequestException', 'ConnectionError', 'UnicodeError', 'RuntimeError', 'OSError', 'TypeError', 'KeyError'):
        I.fail_calls = (lambda name, a, k, q, node: f if name == 'requests.request' or name.startswith('requests.') else None) if f else None
        try: r = ctx.guard('analysis', f'live {f}', lambda: ctx.D.get(o, 'live', st.copy(), op='k8'))
        finally: I.fail_calls = None
        if r is None: continue
        lab = f'live with {f or "no"} failure'
        esc = [z for z in r.raises]
        if f and esc: R.bad('probe', lab, f'the liveness probe raises {excname(esc[0])} when the request fails with {f}', FILE11, ll, key='probe-raises')
        elif esc and any(excname(z) == 'RequestException' for z in esc): R.bad('probe', lab, 'the liveness probe raises when the request fails', FILE11, ll, key='probe-raises')
        else: R.ok('probe', lab)
        for v, q in r.results:
            if v.k == 'bool': R.ok('probe-value', lab)
            elif v.k == 'any': R.undecided('probe-value', lab, 'value not decided')
            else: R.bad('probe-value', lab, f'the liveness probe answers {"None" if v.k == "none" else "a " + v.k}, not true or false', FILE11, ll, key='probe-value')
        if f is None:
            good = [v for v, q in r.results if v.k == 'bool' and v.c is True and 'send' in q.trace]
            if good: R.ok('probe-true', lab)
            elif any(v.c is NOC for v, q in r.results): R.undecided('probe-true', lab, 'answer not decided')
            else: R.bad('probe-true', lab, 'the liveness probe never answers true', FILE11, ll, key='probe-true')
        else:
            if r.results and all(v.k == 'bool' and v.c is True for v, q in r.results): R.bad('probe-false', lab, f'the liveness probe answers true although the request failed with {f}', FILE11, ll, key='probe-false')
            elif r.results: R.ok('probe-false', lab)
    return dict()
def emptydict(st): st.heap['arg:empty'] = Cell('dict', items={}); return V('dict', locs=frozenset(['arg:empty']), deps=frozenset(['arg:json']))
def emptylist(st): st.heap['arg:emptyl'] = Cell('list', items=[]); return V('list', shape=(Dim(0),), locs=frozenset(['arg:emptyl']), deps=frozenset(['arg:json']))
def fulldict(st): st.heap['arg:full'] = Cell('dict', items={'k': vconst('v')}); return V('dict', locs=frozenset(['arg:full']), deps=frozenset(['arg:json']))
def fulllist(st): st.heap['arg:fulll'] = Cell('list', items=[vconst(1)]); return V('list', shape=(Dim(1),), locs=frozenset(['arg:fulll']), deps=frozenset(['arg:json']))
def passed(ctx, lab, e, k, n, p, line, ev=()):
    R, I = ctx.R, ctx.I
    v = e.kw.get(k)
    r = same(v, n, e.state, I) if v is not None else 'lost'
    if r == 'ok': R.ok('pass', f'{lab} {p}')
    elif r == 'lost' and isnone(v) and any(q is not e and same(q.kw.get(k), n, q.state, I) == 'ok' for q in ev): R.undecided('pass', f'{lab} {p}', 'omitted on a path; an empty value is equivalent to none')
    elif r == 'lost' and '**' not in e.kw: R.bad('pass', f'{lab} {p}', f'request does not pass {p} on', FILE11, e.line, key=f'lost|{p}')
    elif v is not None and v.t is not None and v.t != ('par', n) and v.k not in ('dict', 'any'): R.bad('pass', f'{lab} {p}', f'request changes {p}', FILE11, e.line, key=f'changed|{p}')
    elif v is not None and v.k == 'any' and v.t is not None: R.bad('pass', f'{lab} {p}', f'request changes {p}', FILE11, e.line, key=f'changed|{p}')
    else: R.undecided('pass', f'{lab} {p}', 'value not decided')

# ------------------------------------------------------------------ C12
ENC = ('utf-8', 'ascii', 'latin-1', None)  # the encoded text is ASCII; of other encodings only the digest is claimed
def c12(ctx):
    R, I, D = ctx.R, ctx.I, ctx.D
    le, ld, lc = (ctx.site('Serial', n)[1] for n in ('encode', 'decode', 'code'))
    par = ('par', 'x')
    def call(op, lab, st=None, k='k1', **a): return ctx.guard('analysis', lab, lambda: D.static('Serial', op, [], a, st.copy() if st is not None else blank(I), op=k))
    for cp in (True, False, None):
        for en in ENC:
            e = vconst(en) if en else text('encoding')
            lab = f'compress {"default" if cp is None else cp} encoding {en or "symbolic"}'
            a = dict(x=obj('x'), encoding=e)
            if cp is not None: a['compress'] = vconst(cp)
            r = call('encode', 'encode ' + lab, **a)
            if r is None: continue
            if not r.results: R.bad('encode', lab, f'encode ({lab}) never returns', FILE12, le, key='encode-fails'); continue
            for v, st in r.results:
                if v.k not in ('str', 'any'): R.bad('encode', lab, f'encode returns a {v.k}, not text', FILE12, le, key='encode-kind'); continue
                z = call('decode', 'decode ' + lab, st, 'k2', x=v, encoding=e)
                if z is None: continue
                if v.t is None: R.undecided('round-trip', lab, 'encoded text not tracked'); continue
                wrong = [o for o in z.raises if not explicit(o)]
                if not z.results: R.bad('round-trip', lab, f'decode of an encoding ({lab}) always fails: {sorted({str(excname(o)) for o in z.raises})}', FILE12, ld, key=f'round-trip|{cp}'); continue
                for w, _ in z.results:
                    if w.t == par: R.ok('round-trip', lab)
                    elif w.t is None: R.undecided('round-trip', lab, 'decoded value not tracked')
                    else: R.bad('round-trip', lab, f'decode of an encoding ({lab}) gives {str(w.t)[:80]}, not the object', FILE12, ld, key=f'round-trip|{cp}')
                # failures which do not depend on the text being empty
                if wrong: R.undecided('round-trip', lab, f'possible {excname(wrong[0])} not excluded')
    for val in (None, False, True, 0, 1, -3, 0.0, 1.5, '', 'text', 'a\n', b'', 1j):
        for cp in (True, False):
            lab = f'object {val!r} compress {cp}'
            r = call('encode', 'encode ' + lab, x=vconst(val) if val is not None else NONE, compress=vconst(cp))
            if r is None: continue
            if not r.results: R.bad('encode', lab, f'encode of {val!r} never returns', FILE12, le, key='encode-fails|value'); continue
            for v, st in r.results:
                z = call('decode', 'decode ' + lab, st, 'k2', x=v)
                if z is None: continue
                if not z.results: R.bad('round-trip', lab, f'decode of the encoding of {val!r} always fails: {sorted({str(excname(o)) for o in z.raises})}', FILE12, ld, key='round-trip|value'); continue
                for w, _ in z.results:
                    if w.t == ('c', val) and type(w.t[1]) is type(val) or val is None and w.k == 'none': R.ok('round-trip', lab)
                    elif w.t is None and w.k != 'none': R.undecided('round-trip', lab, 'decoded value not tracked')
                    else: R.bad('round-trip', lab, f'decode of the encoding of {val!r} gives {str(w.t)[:80]}', FILE12, ld, key='round-trip|value')
    for en in ENC + ('utf-16',):
        e = vconst(en) if en else text('encoding')
        r = call('code', f'code {en}', x=text('x'), encoding=e)
        if r is None: continue
        if not r.results: R.bad('digest', f'encoding {en}', 'code never returns', FILE12, lc, key='digest-fails')
        for v, _ in r.results:
            want = ('hash', 'sha3_256', 'hexdigest', ('enc', par, e.t))
            if v.t == want: R.ok('digest', f'encoding {en or "symbolic"}')
            elif v.t is None: R.undecided('digest', f'encoding {en}', 'digest not tracked')
            else: R.bad('digest', f'encoding {en or "symbolic"}', f'code is {str(v.t)[:120]}, not the SHA3-256 hexadecimal digest of the text in the encoding', FILE12, lc, key='digest')
    for op, a, what in (('code', dict(x=vconst('')), 'empty text'), ('decode', dict(x=vconst('')), 'empty text'), ('code', dict(x=text('x'), encoding=vconst('')), 'an empty encoding name'), ('decode', dict(x=text('x'), encoding=vconst('')), 'an empty encoding name'),
                        ('encode', dict(x=obj('x'), encoding=vconst('')), 'an empty encoding name'), ('encode', dict(x=obj('x'), compress=vconst(False), encoding=vconst('')), 'an empty encoding name')):
        r = call(op, f'{op} {what}', **a)
        if r is None: continue
        ln = dict(code=lc, decode=ld, encode=le)[op]
        if r.results: R.bad('reject', f'{op} {what}', f'{op} accepts {what}', FILE12, ln, key=f'accepts|{op}|{what}')
        elif any(explicit(o) and excname(o) not in ('ValueError', None) for o in r.raises): R.bad('reject', f'{op} {what}', f'{op} with {what} raises {sorted(str(excname(o)) for o in r.raises)}', FILE12, ln, key=f'reject-kind|{op}')
        else: R.ok('reject', f'{op} {what}')
    for op, a in (('code', dict(x=text('x'))), ('decode', dict(x=text('x'))), ('encode', dict(x=obj('x')))):
        r = call(op, f'{op} default encoding', **a)
        if r is not None and not r.results: R.bad('default', op, f'{op} with the default encoding never returns', FILE12, 0, key=f'default|{op}')
        elif r is not None: R.ok('default', op)
    # default encodings agree
    r = call('encode', 'encode default', x=obj('x'))
    for v, st in (r.results if r else ()):
        z = call('decode', 'decode default', st, 'k2', x=v)
        for w, _ in (z.results if z else ()):
            if w.t == par: R.ok('round-trip', 'default encoding')
            elif w.t is not None: R.bad('round-trip', 'default encoding', f'decode of an encoding with default encodings gives {str(w.t)[:80]}', FILE12, ld, key='round-trip|default')
