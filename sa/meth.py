"""Transfer functions of methods of builtin, array and external library objects."""
from . import ext as X
from .ext import *
from .ext import _mm
from .interp import Unsupported, ClassInfo, term, tnorm, vconst, vnum, vany, vdim, NONE, Cell

REDUCE = {'sum': 'sum', 'prod': 'prod', 'mean': 'mean', 'max': 'max', 'min': 'min', 'std': 'std', 'var': 'var', 'ptp': 'ptp'}
ARRCALL = {'dot': 'numpy.dot', 'argsort': 'numpy.argsort', 'argmax': 'numpy.argmax', 'argmin': 'numpy.argmin', 'searchsorted': 'numpy.searchsorted', 'nonzero': 'numpy.nonzero', 'cumsum': 'numpy.cumsum', 'cumprod': 'numpy.cumprod', 'clip': 'numpy.clip', 'round': 'numpy.round', 'take': 'numpy.take',
           'repeat': 'numpy.repeat', 'compress': 'numpy.compress', 'trace': 'numpy.trace', 'diagonal': 'numpy.diagonal', 'choose': 'numpy.choose', 'any': 'numpy.any', 'all': 'numpy.all', 'copy': 'numpy.copy'}

def method(I, o, name, args, kw, st, node):
    f = METHODS.get(o.k)
    if f is not None and (args or kw) and o.k in ('arr', 'list', 'tuple', 'dict', 'set', 'str', 'bytes', 'num', 'range'):
        ta, tk = X.Args(args), X.Kw(kw)
        r = f(I, o, name, ta, tk, st, node)
        if r is not None and not (isinstance(r, list) and not r) and (len(ta.read) < len(args) or set(kw) - tk.read - X.NEUTRAL):
            # an argument which is not understood
            if name in MUTATING: raise Unsupported(f'{o.k}.{name}')
            r = None
    else: r = f(I, o, name, args, kw, st, node) if f is not None else None
    if r is None:
        d, l = argdeps(I, st, [o] + list(args), kw)
        I.unknown_calls[f'{o.k}.{name}'] = I.unknown_calls.get(f'{o.k}.{name}', 0) + 1
        if name in MUTATING: mut(I, o, args[0] if args else NONE, st, node, name)
        r = V('any', deps=d, lin=l)
    if isinstance(r, V): r = [(r, st)]
    return r

def mut(I, o, v, st, node, via):
    """Unmodelled modification of a container."""
    for lo in o.locs:
        I.event('write', node, loc=lo, target=o, value=v, index=None, via=via, locks=st.locks, state=st); I.effect(st, lo, 'content', node)
        c = I.cell(st, lo)
        if c is not None: I.setcell(st, lo, c.r(items=None, elem=vany(argdeps(I, st, [o, v], {})[0]), flag=c.flag | {'grown'}))

# ------------------------------------------------------------------ arrays
def m_arr(I, o, name, args, kw, st, node):
    if name in REDUCE:
        ax = args[0] if args else kw.get('axis')
        r = X.reduction(I, st, node, o, REDUCE[name], ax, kw)
        return [] if r is None else r
    if name == 'copy': return X.call(I, 'numpy.copy', [o], {}, st, node)
    if name in ARRCALL:
        return X.exact(I, X.CALLS[ARRCALL[name]], ARRCALL[name], ([args[0], o] + list(args[1:]) if name == 'compress' and args else [o] + list(args)), kw, st, node)
    if name == 'astype':
        dtv = args[0] if args else kw.get('dtype')
        cp = kw.get('copy', args[4] if len(args) > 4 else None)
        dt = todt(I, dtv)
        if cp is not None and cp.c is False and (dt is None or o.dt is None or dt & o.dt): return o.r(dt=dt if dt is not None else o.dt)
        e = elem(I, st, o.r(deps=E0) if I.block_mode else o)
        if dt is None: return I.arr(st, node, e.r(dt=None), o.shape, dt=None, deps=o.deps)
        return conv(I, st, node, e.r(dt=o.dt), o.shape, I.vitems(st, o) if I.vitems(st, o) is not None else I.items(st, o), dt, o.deps, o)
    if name in ('conj', 'conjugate'): return elementwise(I, st, node, [o], lambda x: sun('conj', x))
    if name == 'tolist':
        its = I.items(st, o)
        e = elem(I, st, o).r(k='num', dt=o.dt, deps=elem(I, st, o).deps)
        if its is not None: return I.list_(st, node, items=list(its), deps=o.deps)
        if o.shape is not None and len(o.shape) == 1: return I.list_(st, node, elem=e, length=o.shape[0], deps=o.deps)
        if o.shape is not None and len(o.shape) == 2:
            inner = I.list_(st, node, elem=e, length=o.shape[1], tag='row')
            return I.list_(st, node, elem=inner, length=o.shape[0], deps=o.deps)
        return vany(e.deps | o.deps, e.lin if e.lin in ('K','Z') else 'U')
    if name == 'fill':
        if args and args[0].k in ('num', 'bool') and I.isview(o): return [(NONE, z) for z in (X.setitem(I, o, V('slice', c=(NONE, NONE, NONE)), args[0], st, node) or [st])]
        store(I, st, o, elem(I, st, args[0]) if args else NONE, node, full=True, via='fill'); return NONE
    if name == 'sort':
        e = elem(I, st, o)
        ax = args[0] if args else kw.get('axis', vconst(-1))
        kind = args[1] if len(args) > 1 else kw.get('kind')
        n = X.sortitems(I.vitems(st, o), o.shape, ax.c) if ax.c is not NOC else None
        if n: return [(NONE, z) for z in (X.setitem(I, o, V('slice', c=(NONE, NONE, NONE)), I.arr(st, node, I.content(st, o, 'keep'), o.shape, dt=o.dt, items=n), st, node) or [st])]
        store(I, st, o, e.r(deps=I.relabel(e.deps, 'unk'), lin=e.lin if e.lin in ('K', 'Z') else ('U' if e.lin == 'U' else 'N'), t=term('sort', e.t)), node, full=True, via='sort'); return NONE
    if name == 'item':
        e = I.content(st, o, 'unk')
        return e.r(k='num', cur=None, d=None) if not args else X.getitem(I, o, args[0], st, node)
    if name in ('ravel', 'squeeze', 'reshape', 'swapaxes'):
        s = None
        if name == 'reshape' and args: s = args[0] if len(args) == 1 else V('tuple', c=tuple(args))
        elif args: s = args[0]
        return reshaped(I, st, o, name, None if name == 'ravel' else s, kw.get('order', args[0] if name == 'ravel' and args else None))
    if name == 'transpose': return transpose(I, o)
    if name == 'flatten':
        k = kw.get('order', args[0] if args else None)
        v = reshaped(I, st, o, 'ravel', None, k)
        return I.arr(st, node, elem(I, st, o), v.shape, items=I.vitems(st, v) if o.shape is not None and len(o.shape) != 1 else I.items(st, o), deps=o.deps)
    if name == 'view':
        dt = todt(I, args[0]) if args else None
        if dt is not None:
            I.event('part', node, part='view', value=elem(I, st, o))
            return o.r(dt=dt, shape=None, cur=('view',), t=None)
        return o.r(cur=o.cur or ('view', (None, None, None)))
    if name in ('put', 'itemset', '__setitem__'):
        store(I, st, o, I.content(st, args[-1], 'unk') if args else NONE, node, via=name); return NONE
    if name in ('resize', 'partition', 'setflags', 'byteswap'):
        if name == 'setflags': return NONE
        mut(I, o, o, st, node, name); return NONE
    if name in ('tobytes', 'tostring'): return V('bytes', deps=I.content(st, o, 'unk').deps | o.deps, t=term('bytes', elem(I, st, o).t))
    if name == '__len__': return X.CALLS['builtins.len'](I, 'builtins.len', [o], {}, st, node)
    if name == '__getitem__': return X.getitem(I, o, args[0], st, node)
    if name in ('append', 'extend', 'strip', 'keys', 'items', 'write', 'index', 'count', 'insert', 'remove', 'pop'):
        I.raise_(st, 'AttributeError', node); return []
    return None

# ------------------------------------------------------------------ lists and sets
def one(o): return len(o.locs) == 1
def lcells(I, o, st):
    return [(l, c) for l in o.locs for c in [I.cell(st, l)] if c is not None]
def grow(I, o, vs, st, node, via, where=None):
    """Adds values to a list or set."""
    for l, c in lcells(I, o, st):
        I.event('write', node, loc=l, target=o, value=vs[0] if vs else NONE, index=None, via=via, locks=st.locks, state=st)
        I.effect(st, l, 'content', node)
        vs2 = [I.pcv(st, v) if v.k in ('num', 'bool') else v for v in vs]
        inloop = any(True for i in I.loops)
        if c.items is not None and one(o) and not c.multi and not inloop and not st.pc and isinstance(c.items, tuple) and len(c.items) + len(vs2) <= max(64, ip.MAXITEMS):
            it = list(c.items)
            if where is None: it += vs2
            elif isinstance(where, int): it[where:where] = vs2
            else: it = None
            if it is not None:
                I.setcell(st, l, c.r(items=tuple(it))); continue
        e = c.elem
        if c.items is not None:
            for x in c.items: e = x if e is None else vjoin(e, x)
        for x in vs2: e = x if e is None else vjoin(e, x)
        fl = c.flag | {'grown'} | ({'wr'} if I.loops else E0)
        at = dict(c.attrs or {})
        nl = growlen(I, l, c, vs2, st)
        at['lendeps'] = vany((at['lendeps'].deps if 'lendeps' in at else E0) | st.pc | frozenset(d for d in (o.deps)))
        at['n'] = nl
        I.setcell(st, l, c.r(items=None, elem=e, flag=fl, attrs=at))
def growlen(I, l, c, vs, st):
    return vany()
def m_list(I, o, name, args, kw, st, node):
    if name == 'append': grow(I, o, [args[0]], st, node, name); return NONE
    if name == 'add' and o.k == 'set': grow(I, o, [args[0]], st, node, name); return NONE
    if name == 'insert':
        w = args[0].c if isnumc(args[0]) else '?'
        grow(I, o, [args[1]], st, node, name, where=w); return NONE
    if name == 'extend' or name == 'update' and o.k == 'set':
        return [(NONE, s) for _, s in list_extend(I, o, args[0], st, node)]
    if name == 'pop':
        r = None
        for l, c in lcells(I, o, st):
            I.event('write', node, loc=l, target=o, value=NONE, index=args[0] if args else None, via=name, locks=st.locks, state=st); I.effect(st, l, 'content', node)
            if isinstance(c.items, tuple) and one(o) and not c.multi and not I.loops and not st.pc and (not args or isnumc(args[0])):
                if not c.items: I.raise_(st, 'IndexError', node); return []
                it = list(c.items)
                try: r = it.pop(*[args[0].c] if args else [])
                except IndexError: I.raise_(st, 'IndexError', node); return []
                I.setcell(st, l, c.r(items=tuple(it)))
            else:
                I.may_raise(st, 'IndexError', node)
                e = c.elem
                for x in (c.items or ()): e = x if e is None else vjoin(e, x)
                I.setcell(st, l, c.r(items=None, elem=e, flag=c.flag | {'grown'}))
                if e is not None: r = e if r is None else vjoin(r, e)
        return r if r is not None else vany(o.deps)
    if name in ('clear',):
        for l, c in lcells(I, o, st):
            I.event('write', node, loc=l, target=o, value=NONE, index=None, via=name, locks=st.locks, state=st); I.effect(st, l, 'content', node)
            I.setcell(st, l, c.r(items=(), elem=None, flag=c.flag - {'grown'}) if one(o) and not c.multi and not I.loops and not st.pc else c.r(items=None, elem=c.elem if c.items is None else (None if not c.items else c.items[0]), flag=c.flag | {'grown'}))
        return NONE
    if name in ('reverse', 'sort', 'remove', 'discard'):
        for l, c in lcells(I, o, st):
            I.event('write', node, loc=l, target=o, value=NONE, index=None, via=name, locks=st.locks, state=st); I.effect(st, l, 'content', node)
            if name == 'sort': I.event('sorted', node, src=o)
            if isinstance(c.items, tuple) and name == 'sort' and one(o) and not c.multi and not I.loops and X.ranks(c.items):
                q = X.CALLS['builtins.sorted'](I, 'builtins.sorted', [o], kw, st, node)
                n = I.items(st, q) if q is not None else None
                if n is not None: I.setcell(st, l, c.r(items=tuple(n))); continue
            if isinstance(c.items, tuple) and name == 'reverse' and one(o) and not c.multi and not I.loops: I.setcell(st, l, c.r(items=tuple(reversed(c.items)))); continue
            e = c.elem
            for x in (c.items or ()): e = x if e is None else vjoin(e, x)
            if e is not None and name == 'sort': e = e.r(deps=I.relabel(e.deps, 'unk'), lin=e.lin if e.lin in ('K', 'Z') else 'U')
            I.setcell(st, l, c.r(items=None, elem=e, flag=c.flag | ({'grown'} if name in ('remove', 'discard') else E0)))
        if name == 'remove': I.may_raise(st, 'ValueError', node)
        return NONE
    if name == 'copy':
        its = I.items(st, o)
        return I.list_(st, node, items=list(its) if its is not None else None, elem=X.rawelem(I, st, o) if its is None else None, length=length(I, st, o), kind=o.k, deps=o.deps)
    if name == 'index':
        I.may_raise(st, 'ValueError', node)
        its = I.items(st, o)
        if its is not None and args[0].c is not NOC and all(x.c is not NOC for x in its):
            cs = [x.c for x in its]
            if args[0].c in cs: return vconst(cs.index(args[0].c))
            I.raise_(st, 'ValueError', node); return []
        return V('num', dt=DI, iv=(0, True, INF, False), deps=argdeps(I, st, [o] + list(args), {})[0])
    if name == 'count': return V('num', dt=DI, iv=(0, True, INF, False), deps=argdeps(I, st, [o] + list(args), {})[0])
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'symmetric_difference') and o.k == 'set':
        d = argdeps(I, st, [o] + list(args), {})[0]
        if name.startswith('iss'): return vbool(None, d)
        q = X.constset(I, st, node, name, [o] + list(args))
        if q is not None: return q
        es = [X.rawelem(I, st, v) for v in [o] + list(args) if v.locs]
        e = None
        for x in es:
            if x is not None: e = x if e is None else vjoin(e, x)
        return I.list_(st, node, elem=e if e is not None else vany(d), kind='set', deps=d)
    if name == '__getitem__': return X.getitem(I, o, args[0], st, node)
    if name == '__contains__': return X.contains(I, st, o, args[0])
    return None
def list_extend(I, a, b, st, node):
    its = I.iter_items(st, b)
    if its is not None: grow(I, a, list(its), st, node, 'extend')
    else:
        e = None
        if b.k in ('list', 'set'): e = X.rawelem(I, st, b)
        if e is None: e = I.content(st, b, 'unk') if b.k in ('arr', 'list', 'tuple', 'set') else vany(argdeps(I, st, [b], {})[0])
        if b.k == 'arr': e = elem(I, st, b)
        for l, c in lcells(I, a, st):
            I.event('write', node, loc=l, target=a, value=e, index=None, via='extend', locks=st.locks, state=st); I.effect(st, l, 'content', node)
            z = c.elem
            for x in (c.items or ()): z = x if z is None else vjoin(z, x)
            e2 = I.pcv(st, e) if e.k in ('num', 'bool') else e
            at = dict(c.attrs or {}); at['lendeps'] = vany((at['lendeps'].deps if 'lendeps' in at else E0) | st.pc | a.deps | b.deps)
            I.setcell(st, l, c.r(items=None, elem=e2 if z is None else vjoin(z, e2), flag=c.flag | {'grown'} | ({'wr'} if I.loops else E0), attrs=at))
    return [(a, st)]

# ------------------------------------------------------------------ dictionaries
def m_dict(I, o, name, args, kw, st, node):
    it = X.dict_items(I, st, o)
    cs = lcells(I, o, st)
    if name == 'keys':
        if it is not None: return I.marked(V('iter', c=('items', tuple(vconst(k) for k in it)), deps=o.deps), 'a dictionary view')
        return I.marked(vany(o.deps | argdeps(I, st, [o], {})[0]), 'a dictionary view')
    if name == 'values':
        if it is not None: return I.marked(V('iter', c=('items', tuple(it.values())), deps=o.deps), 'a dictionary view')
        return I.marked(vany(o.deps), 'a dictionary view')
    if name == 'items':
        if it is not None: return I.marked(V('iter', c=('items', tuple(V('tuple', c=(vconst(k), v)) for k, v in it.items())), deps=o.deps), 'a dictionary view')
        return I.marked(vany(o.deps), 'a dictionary view')
    if name == 'get':
        dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
        if it is not None and args[0].c is not NOC:
            try: return it.get(args[0].c, dflt)
            except TypeError: pass
        r = dflt.dep(args[0].deps)
        for v in (it or {}).values(): r = vjoin(r, v)
        for l, c in cs:
            if c.elem is not None: r = vjoin(r, c.elem)
        return r.dep(args[0].deps | o.deps)
    if name == 'copy':
        return I.mkdict(st, node, dict(it) if it is not None else None, [c.elem for _, c in cs if c.elem is not None])
    if name in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
        val = NONE
        new = None
        if it is not None: new = dict(it)
        if name == 'update':
            src = X.dict_items(I, st, args[0]) if args and args[0].k == 'dict' else ({} if not args else None)
            if src is None or new is None: new = None
            else: new.update(src); new.update(kw)
            r = NONE
        elif name == 'pop':
            r = NONE; args[1:]
            if new is not None and args[0].c is not NOC:
                if args[0].c in new: r = new.pop(args[0].c)
                elif len(args) > 1: r = args[1]
                else: I.raise_(st, 'KeyError', node); return []
            else: new = None; r = vany(argdeps(I, st, [o] + list(args), {})[0])
            if r.k == 'any' and len(args) < 2: I.may_raise(st, 'KeyError', node)
        elif name == 'setdefault':
            dflt = args[1] if len(args) > 1 else NONE
            if new is not None and args[0].c is not NOC: r = new.setdefault(args[0].c, dflt)
            else:
                r = dflt.dep(args[0].deps)
                for v in (it or {}).values(): r = vjoin(r, v)
                for l, c in cs:
                    if c.elem is not None: r = vjoin(r, c.elem)
                new = None; val = dflt
        elif name == 'clear': r = NONE; new = {}
        else: r = vany(o.deps); new = None
        if isinstance(o.t, tuple) and o.t[:1] == ('selfdict',):
            if new is None: raise Unsupported('__dict__')
            w = V('inst', locs=frozenset([o.t[1]]))
            for k, v in new.items():
                if v is not (it or {}).get(k): I.setfield(st, w, k, v, node)
            if set(it) - set(new):
                c = I.cell(st, o.t[1]); I.effect(st, o.t[1], next(iter(set(it) - set(new))), node); I.setcell(st, o.t[1], c.r(attrs={k: v for k, v in (c.attrs or {}).items() if k in new}))
        for l, c in cs:
            I.event('write', node, loc=l, target=o, value=args[0] if args else NONE, index=None, via=name, locks=st.locks, state=st); I.effect(st, l, 'content', node)
            if new is not None and one(o) and not c.multi and not I.loops and not st.pc: I.setcell(st, l, c.r(items=new))
            else:
                e = c.elem
                for x in list((c.items or {}).values()) + list((new or {}).values()) + ([val] if val.k != 'none' else []): e = x if e is None else vjoin(e, x)
                I.setcell(st, l, c.r(items=None, elem=e if e is not None else vany()))
        return r
    if name == 'fromkeys': return vany()
    return None

# ------------------------------------------------------------------ text
CASE = {'title': str.title, 'upper': str.upper, 'lower': str.lower, 'capitalize': str.capitalize, 'casefold': str.casefold, 'swapcase': str.swapcase}
def m_str(I, o, name, args, kw, st, node):
    d = argdeps(I, st, [o] + list(args), kw)[0]
    known = o.c is not NOC and all(a.c is not NOC and a.k in ('str', 'num', 'none', 'bool') for a in args) and all(a.c is not NOC and a.k in ('str', 'num', 'none', 'bool') for a in kw.values())
    if known and name in ('title', 'upper', 'lower', 'capitalize', 'casefold', 'swapcase', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'removeprefix', 'removesuffix', 'find', 'rfind', 'index', 'count', 'isalpha', 'isdigit', 'isupper', 'islower', 'istitle', 'isspace', 'isalnum', 'isidentifier', 'zfill', 'center', 'ljust', 'rjust', 'expandtabs', 'format', 'isnumeric', 'isdecimal', 'isascii'):
        try: return vconst(getattr(o.c, name)(*[a.c for a in args], **{k: v.c for k, v in kw.items()})).dep(d)
        except Exception as e: I.raise_(st, type(e).__name__, node); return []
    if name in CASE or name in ('strip', 'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix', 'format', 'zfill', 'center', 'ljust', 'rjust', 'translate'):
        if name in CASE and not args: return vstr(d, term('case', name, o.t))
        return vstr(d, term(name, o.t, *[a.t for a in args]))
    if name in ('startswith', 'endswith', 'isalpha', 'isdigit', 'isupper', 'islower', 'isspace', 'isalnum', 'istitle', 'isidentifier', 'isnumeric', 'isascii'): return vbool(None, d, t=term(name, o.t, *[a.t for a in args]))
    if name in ('find', 'rfind', 'index', 'rindex', 'count'):
        if 'index' in name: I.may_raise(st, 'ValueError', node)
        return V('num', dt=DI, deps=d)
    if name == 'join':
        its = I.iter_items(st, args[0])
        if its is not None and o.c is not NOC and all(v.c is not NOC and v.k == 'str' for v in its): return vconst(o.c.join(v.c for v in its)).dep(d)
        return vstr(d, term('join', o.t, *[v.t for v in its]) if its is not None and all(v.t is not None for v in its) else None)
    if name == 'encode':
        e = args[0] if args else kw.get('encoding', vconst('utf-8'))
        return V('bytes', deps=d, t=X.encterm(o, e, args[1] if len(args) > 1 else kw.get('errors')))
    if name in ('split', 'rsplit', 'splitlines'):
        if known:
            return I.list_(st, node, items=[vconst(q).dep(d) for q in getattr(o.c, name)(*[a.c for a in args])])
        return I.list_(st, node, elem=vstr(d))
    if name in ('partition', 'rpartition'):
        if known: return V('tuple', c=tuple(vconst(q).dep(d) for q in getattr(o.c, name)(args[0].c)))
        return V('tuple', c=(vstr(d), vstr(d), vstr(d)))
    return None
def decterm(o, e):
    if isinstance(o.t, tuple) and o.t and o.t[0] == 'enc' and o.t[2] == e.t: return o.t[1]
    return term('dec', o.t, e.t)
def m_bytes(I, o, name, args, kw, st, node):
    d = argdeps(I, st, [o] + list(args), kw)[0]
    if name == 'decode':
        e = args[0] if args else kw.get('encoding', vconst('utf-8'))
        return vstr(d, decterm(o, e))
    if name == 'hex':
        if isinstance(o.t, tuple) and o.t[:1] == ('hash',) and o.t[2] == 'digest': return vstr(d, ('hash', o.t[1], 'hexdigest') + o.t[3:])
        return vstr(d, term('hex', o.t))
    if name in ('startswith', 'endswith'):
        t = o.t
        p = args[0].c if args[0].c is not NOC else None
        if name == 'startswith' and isinstance(p, bytes) and isinstance(t, tuple) and t:
            if p[:2] == b'\x1f\x8b' and len(p) <= 3: 
                if t[0] == 'gzip': return vbool(True, d)
                if t[0] == 'pickle': return vbool(False, d)
        return vbool(None, d)
    if name in ('strip', 'lstrip', 'rstrip', 'replace'): return V('bytes', deps=d)
    return None
def m_tuple(I, o, name, args, kw, st, node):
    if name in ('index', 'count'):
        if isinstance(o.c, tuple) and args and args[0].c is not NOC and all(x.c is not NOC for x in o.c):
            cs = [x.c for x in o.c]
            if name == 'count': return vconst(cs.count(args[0].c))
            if args[0].c in cs: return vconst(cs.index(args[0].c)).dep(args[0].deps)
            I.raise_(st, 'ValueError', node); return []
        if name == 'index': I.may_raise(st, 'ValueError', node)
        return V('num', dt=DI, iv=(0, True, INF, False), deps=argdeps(I, st, [o] + list(args), {})[0])
    return None
def m_num(I, o, name, args, kw, st, node):
    if name in ('conjugate', 'conj'): return sun('conj', o)
    if name in ('item', 'copy', '__float__', 'squeeze', 'ravel', 'flatten') and not args: return o
    if name in ('sum', 'mean', 'max', 'min', 'prod') : return o.r(k='num')
    if name == 'astype' and args:
        dt = todt(I, args[0])
        return o.r(k='num', dt=dt, c=convc(o.c, dt)) if dt is not None else V('num', dt=None, deps=o.deps, lin=o.lin)
    if name == 'is_integer':
        if isnumc(o): return vbool(float(o.c).is_integer(), o.deps)
        if o.dt == DI: return vbool(True, o.deps)
        return vbool(None, o.deps, cmplin(o))
    if name in ('any', 'all'): return vbool(truth(I, o, st), o.deps, cmplin(o))
    if name == 'round': return X.CALLS['numpy.round'](I, 'numpy.round', [o] + list(args), kw, st, node)
    if name == 'clip': return X.CALLS['numpy.clip'](I, 'numpy.clip', [o] + list(args), kw, st, node)
    if name in ('dot',): return binop(I, 'Mult', o, args[0], st, node)
    if name == 'tolist': return o
    if name == 'bit_length': return V('num', dt=DI, deps=o.deps, iv=(0, True, INF, False))
    if name in ('title', 'upper', 'lower', 'strip', 'append', 'split'): I.raise_(st, 'AttributeError', node); return []
    return None

# ------------------------------------------------------------------ external objects
LOGM = {'trace': 'TRACE', 'debug': 'DEBUG', 'info': 'INFO', 'success': 'SUCCESS', 'warning': 'WARNING', 'error': 'ERROR', 'critical': 'CRITICAL', 'exception': 'ERROR'}
LG = 'ext:loguru'
def handlers(I, st):
    c = I.cell(st, LG)
    return c.attrs['handlers'].c if c is not None else ('h0',)
def sethandlers(I, st, hs):
    c = I.cell(st, LG) or Cell('obj', attrs={})
    at = dict(c.attrs); at['handlers'] = V('str', c=tuple(hs)); I.setcell(st, LG, c.r(attrs=at))
def logcall(I, st, node, lv, msg):
    I.event('log', node, level=lv, msg=msg, locks=st.locks, state=st, handlers=handlers(I, st))
    st.trace = st.trace + (('log', lv, msg.t if msg is not None else None),)
    I.tr(st, 'emit', 'logger', node)
def logtext(st, msg, args, kw):
    """Text of an entry which is given arguments: the text is a format."""
    if msg is None: return None
    if isinstance(msg.c, str):
        if msg.c == '{}' and len(args) == 1 and not kw and args[0].k == 'str': return args[0]
        if all(v.c is not NOC for v in list(args) + list(kw.values())):
            try: return vconst(msg.c.format(*[v.c for v in args], **{k: v.c for k, v in kw.items()})).r(deps=msg.deps)
            except Exception: return vstr(msg.deps, term('fmt', msg.t))
        if msg.c.count('{') == 0: return msg
        return None
    return vstr(msg.deps, term('fmt', msg.t))
def fails(I, what, args, kw, st, node):
    if I.fail_calls:
        x = I.fail_calls(what, args, kw, st, node)
        if x: I.may_raise(st, x, node, ext=what)
def m_ext(I, o, name, args, kw, st, node):
    k = o.c[0]
    if k == 'logger': return m_logger(I, o, name, args, kw, st, node)
    X.extevent(I, f'{k}.{name}', args, kw, st, node)
    if k in ('RLock', 'Lock'):
        tok = 'lock:' + str(o.c[1])
        if name == 'acquire':
            if k == 'Lock' and tok in st.locks: I.event('deadlock', node, lock=tok)
            st.locks = st.locks + (tok,); I.event('lock', node, lock=tok, locks=st.locks); I.tr(st, 'acquire', tok, node)
            return vbool(True) if not args and not kw else vbool(None)
        if name == 'release':
            if tok not in st.locks: I.raise_(st, 'RuntimeError', node); return []
            st.locks = X.drop(st.locks, tok); I.tr(st, 'release', tok, node); return NONE
        return None
    if k == 'gmm':
        l = next(iter(o.locs), None); c = I.cell(st, l) if l else None
        if name == 'fit':
            fails(I, 'gmm.fit', args, kw, st, node)
            d, _ = argdeps(I, st, args, kw)
            for l in o.locs:
                c = I.cell(st, l)
                I.event('gmmfit', node, loc=l, args=args, state=st)
                I.effect(st, l, 'fit', node)
                at = X.gmmfitted(I, st, node, c, args[0] if args else kw.get('X', NONE), (c.elem.deps if c.elem is not None else E0) | d) if len(o.locs) == 1 and not c.multi else None
                I.setcell(st, l, c.r(elem=V('num', dt=DF, deps=(c.elem.deps if c.elem is not None else E0) | d, lin='U'), flag=c.flag | {'fitted'}, attrs=at if at is not None else {n: v for n, v in (c.attrs or {}).items() if n == '#kw'}))
            return o
        if name in ('predict', 'score', 'score_samples', 'predict_proba', 'sample', 'bic', 'aic'):
            fails(I, 'gmm.' + name, args, kw, st, node)
            if c is None or 'fitted' not in c.flag: I.raise_(st, 'NotFittedError', node); return []
            return vany(argdeps(I, st, args, kw)[0] | (c.elem.deps if c.elem is not None else E0))
        return vany(argdeps(I, st, args, kw)[0])
    if k == 'response':
        if name == 'raise_for_status':
            s = st.copy(); s.trace = s.trace + ('badstatus',)
            I.sinks[-1].append(X.Out('raise', s, V('exc', c='HTTPError', deps=st.pc, t=('ext', 'raise_for_status')), node))
            st.trace = st.trace + ('goodstatus',)
            return NONE
        if name == 'close': return NONE
        return vany(o.deps)
    if k == 'session':
        attrs = {}
        if name == 'request':
            kw = dict(kw)
            for n, a in zip(['method', 'url'], args): kw[n] = a
            m = kw.pop('method', NONE); u = kw.pop('url', NONE)
            return send(I, st, node, m, u, merged(I, st, o, kw), 'session.request')
        if name in X.VERBS:
            kw = dict(kw)
            for n, a in zip(['url'], args): kw[n] = a
            u = kw.pop('url', NONE)
            return send(I, st, node, vconst(name.upper()), u, merged(I, st, o, kw), 'session.' + name)
        if name in ('close', 'mount'): return NONE
        raise Unsupported('session.' + name)
    if k == 'sessattr':
        s, attr = o.c[1], o.c[2]
        if name == 'update' and args:
            for l in s.locs:
                c = I.cell(st, l); at = dict(c.attrs); at[attr] = args[0].r(t=term('merged', args[0].t)); I.setcell(st, l, c.r(attrs=at))
            return NONE
        return vany()
    if k == 'bytesio':
        if name in ('getvalue', 'getbuffer'): return X.bdata(I, st, o)
        if name == 'read':
            return X.bdata(I, st, o) if not args else V('bytes', deps=X.bdata(I, st, o).deps)
        if name == 'write':
            old = X.bdata(I, st, o); v = args[0]
            X.bset(I, st, o, v if old.c == b'' else V('bytes', deps=v.deps | old.deps, t=term('cat', old.t, v.t)))
            return V('num', dt=DI, deps=v.deps)
        return NONE if name in ('seek', 'close', 'flush') else vany(o.deps)
    if k == 'hash':
        l = next(iter(o.locs)); c = I.cell(st, l); data = c.attrs['data']
        if name == 'update':
            X.bset(I, st, o, args[0] if data.c == b'' else V('bytes', deps=args[0].deps | data.deps, t=term('cat', data.t, args[0].t))); return NONE
        if name in ('hexdigest', 'digest'):
            I.event('hash', node, name=o.c[1], data=data, how=name)
            return V('str' if name == 'hexdigest' else 'bytes', deps=data.deps | o.deps, t=term('hash', o.c[1], name, data.t) if not args else None)
        if name == 'copy': return vany(o.deps)
        return None
    if k == 'stream2':
        what, sargs = o.c[1], o.c[2]
        if what == 'pickle.Pickler' and name == 'dump': return X.CALLS['pickle.dump'](I, 'pickle.dump', [args[0], sargs[0]], {}, st, node)
        if what == 'pickle.Unpickler' and name == 'load': return X.CALLS['pickle.load'](I, 'pickle.load', [sargs[0]], {}, st, node)
        raise Unsupported(f'{what}.{name}')
    if k == 'level': return vany(o.deps)
    if k == 'stream':
        I.event('extcall', node, name='stream.' + name, args=args, kw=kw, locks=st.locks, state=st)
        return vany()
    return None
def merged(I, st, o, kw):
    """Keyword arguments of a session request, with the settings of the session."""
    kw = dict(kw)
    for l in o.locs:
        c = I.cell(st, l)
        for a, b in (('proxies', 'proxies'), ('headers', 'headers'), ('auth', 'auth'), ('params', 'params')):
            if c is not None and c.attrs and a in c.attrs and b not in kw: kw[b] = c.attrs[a]
    return kw
def m_logger(I, o, name, args, kw, st, node):
    X.extevent(I, 'logger.' + name, args, kw, st, node)
    if name == 'level':
        n = args[0] if args else kw.get('name', NONE)
        rest = [a for a in args[1:] if a.k != 'none'] + [v for q, v in kw.items() if q != 'name' and v.k != 'none']
        if rest:
            I.event('levelchange', node, name=n); return V('ext', c=('level', None, None), deps=argdeps(I, st, args, kw)[0])
        if n.c is not NOC:
            if n.k == 'str' and n.c in LEVELS:
                return V('ext', c=('level', n.c, LEVELS[n.c]), deps=n.deps, t=('level', n.c))
            I.raise_(st, 'ValueError' if n.k == 'str' else 'TypeError', node); return []
        I.may_raise(st, 'ValueError', node, ext='logger.level')
        return V('ext', c=('level', None, None), deps=n.deps, t=term('level', n.t))
    if name == 'add':
        sink = args[0] if args else kw.get('sink', NONE)
        fails(I, 'logger.add', args, kw, st, node)
        n = sum(1 for x in st.trace if isinstance(x, tuple) and x[0] == 'add') + 1
        I.event('addhandler', node, sink=sink, args=args, kw=kw, locks=st.locks, state=st)
        st.trace = st.trace + (('add', n, sink.t),)
        I.tr(st, 'install', 'handler', node)
        sethandlers(I, st, handlers(I, st) + (f'h{n}',))
        return V('num', dt=DI, iv=(1, True, INF, False), t=('handler', n), mv=frozenset(['const']))
    if name == 'remove':
        h = args[0] if args else kw.get('handler_id', NONE)
        I.event('removehandler', node, handler=h, locks=st.locks, state=st)
        I.tr(st, 'uninstall', 'handler', node)
        fails(I, 'logger.remove', args, kw, st, node)
        hs = handlers(I, st)
        if h.k == 'none':
            st.trace = st.trace + (('remove', 'all'),); sethandlers(I, st, ()); return NONE
        q = 'h0' if h.c == 0 and h.c is not NOC else (f'h{h.t[1]}' if isinstance(h.t, tuple) and h.t and h.t[0] == 'handler' else None)
        if q is None:
            I.may_raise(st, 'ValueError', node); st.trace = st.trace + (('remove', '?'),); return NONE
        if q in hs:
            sethandlers(I, st, tuple(x for x in hs if x != q)); st.trace = st.trace + (('remove', q),); return NONE
        I.raise_(st, 'ValueError', node); return []
    if name == 'log':
        lv = args[0] if args else NONE
        msg = args[1] if len(args) > 1 else None
        if len(args) > 2 or kw: msg = logtext(st, msg, args[2:], kw)
        if isinstance(o.t, tuple) and o.t[:1] == ('opt',) and msg is not None: msg = vstr(msg.deps, term('fmt', msg.t))
        if lv.k == 'str' and lv.c is not NOC:
            if lv.c not in LEVELS: I.raise_(st, 'ValueError', node); return []
            logcall(I, st, node, lv.c, msg)
        elif isnumc(lv): logcall(I, st, node, lv.c, msg)
        else:
            I.may_raise(st, 'ValueError', node); logcall(I, st, node, ('?', lv.t), msg)
        return NONE
    if name in LOGM:
        logcall(I, st, node, LOGM[name], args[0] if args else None); return NONE
    if name == 'opt' and any(k in ('colors', 'ansi', 'raw') and X.truth(I, v, st) is not False for k, v in kw.items()): return o.r(t=('opt', 'colors'))
    if name in ('opt', 'bind', 'patch', 'contextualize'): return o
    if name in ('complete',): return NONE
    if name in ('configure', 'disable', 'enable'):
        I.event('logconfig', node, name=name); st.trace = st.trace + (('config', name),); return vany()
    return None

def m_any(I, o, name, args, kw, st, node):
    if name in ('acquire', 'release', '__enter__', '__exit__', 'wait'): I.tr(st, 'unknownctx', '?', node)
    return None
METHODS = {'arr': m_arr, 'list': m_list, 'set': m_list, 'dict': m_dict, 'str': m_str, 'bytes': m_bytes, 'tuple': m_tuple, 'num': m_num, 'bool': m_num, 'ext': m_ext, 'any': m_any}
