"""Abstract interpreter over the source of the package (no import, no execution of the package)."""
import ast, os, functools, builtins as _bi
from .dom import *
from . import poly

class Unsupported(Exception): pass
class AnchorMissing(Exception): pass
class Budget(Exception): pass

@functools.lru_cache(maxsize=None)
def tsize(t):
    if not isinstance(t, tuple): return 1
    return 1 + sum(tsize(x) for x in t)
def term(*a):
    if any(x is None for x in a): return None
    if NORMAL and (r := poly.fold(*a)) is not None: return r
    if tsize(a) > TERMSIZE: return None
    return a
BOUND = 0  # a loop over a range which is longer than MAXITEMS is cut after this many iterations ( 0: fixpoint instead )
SPLIT = 0  # trace partitioning: states are kept apart by the conditions of the path, up to this many
NORMAL, TERMSIZE = False, 400  # canonical polynomials instead of expression trees
COMM = {'add', 'mul'}
def tnorm(op, *a):
    if any(x is None for x in a): return None
    if op in COMM: a = tuple(sorted(a, key=repr))
    return term(op, *a)

class Cell:
    __slots__ = ('kind', 'elem', 'items', 'attrs', 'multi', 'flag', 'cls')
    def __init__(s, kind, elem=None, items=None, attrs=None, multi=False, flag=E0, cls=None):
        s.kind = kind; s.elem = elem; s.items = items; s.attrs = attrs; s.multi = multi; s.flag = flag; s.cls = cls
    def r(s, **kw):
        n = Cell(s.kind, s.elem, s.items, s.attrs, s.multi, s.flag, s.cls)
        for a, b in kw.items(): setattr(n, a, b)
        return n
    def __eq__(s, o):
        return s is o or (isinstance(o, Cell) and s.kind == o.kind and s.elem == o.elem and s.items == o.items and s.attrs == o.attrs and s.multi == o.multi and s.flag == o.flag)
    __hash__ = None
    def __repr__(s): return f'Cell({s.kind},{s.elem},{s.items},{s.attrs},{"multi" if s.multi else ""},{set(s.flag) or ""})'

def cjoin(a, b, vj=vjoin):
    if a is b or a == b: return a
    el = a.elem if b.elem is None else b.elem if a.elem is None else vj(a.elem, b.elem)
    it = None
    if a.items is not None and b.items is not None:
        if a.kind == 'dict':
            it = {k: (vj(a.items[k], b.items[k]) if k in a.items and k in b.items else a.items.get(k, b.items.get(k))) for k in list(a.items) + [k for k in b.items if k not in a.items]}
        elif len(a.items) == len(b.items):
            it = tuple(vj(x, y) for x, y in zip(a.items, b.items))
        else:
            for x in a.items + b.items: el = x if el is None else vj(el, x)
    elif a.items is not None or b.items is not None:
        its = a.items if a.items is not None else b.items
        for x in (its.values() if isinstance(its, dict) else its): el = x if el is None else vj(el, x)
    at = None
    if a.attrs is not None or b.attrs is not None:
        aa, bb = a.attrs or {}, b.attrs or {}
        at = {k: (vj(aa[k], bb[k]) if k in aa and k in bb else aa.get(k, bb.get(k))) for k in list(aa) + [k for k in bb if k not in aa]}
    return Cell(a.kind if a.kind == b.kind else 'any', el, it, at, a.multi or b.multi, a.flag | b.flag, a.cls if a.cls == b.cls else None)

class State:
    __slots__ = ('env', 'heap', 'pc', 'sig', 'locks', 'eff', 'facts', 'trace', 'exc', 'path')
    def __init__(s): s.path = (); s.env = {}; s.heap = {}; s.pc = E0; s.sig = ''; s.locks = (); s.eff = E0; s.facts = E0; s.trace = (); s.exc = None
    def copy(s):
        n = State(); n.env = dict(s.env); n.heap = dict(s.heap); n.pc = s.pc; n.sig = s.sig; n.locks = s.locks; n.eff = s.eff; n.facts = s.facts; n.trace = s.trace; n.exc = s.exc; n.path = s.path
        return n
    def same(s, o):
        return s.env == o.env and s.heap == o.heap and s.pc == o.pc and s.locks == o.locks and s.eff == o.eff and s.trace == o.trace and s.facts == o.facts and s.sig == o.sig

class Out:
    __slots__ = ('kind', 'st', 'v', 'node')
    def __init__(s, kind, st, v=None, node=None): s.kind = kind; s.st = st; s.v = v; s.node = node
    def __repr__(s): return f'Out({s.kind},{s.v},line {getattr(s.node, "lineno", None)})'

class Func:
    __slots__ = ('node', 'mod', 'cls', 'closure', 'defaults', 'kwdefaults', 'name')
    def __init__(s, node, mod, cls, closure, defaults, kwdefaults, name):
        s.node = node; s.mod = mod; s.cls = cls; s.closure = closure; s.defaults = defaults; s.kwdefaults = kwdefaults; s.name = name
    def __repr__(s): return f'Func({s.mod}.{s.cls or ""}.{s.name})'

class Prop:
    def __init__(s, get=None, set=None): s.get = get; s.set = set
class ClassInfo:
    def __init__(s, name, mod, node, bases): s.name = name; s.mod = mod; s.node = node; s.bases = bases; s.members = {}; s.loc = f'cls:{name}'
    def __repr__(s): return f'Class({s.name})'

class Event:
    __slots__ = ('kind', 'file', 'line', 'func', 'd')
    def __init__(s, kind, file, line, func, d): s.kind = kind; s.file = file; s.line = line; s.func = func; s.d = d
    def __getattr__(s, n):
        try: return s.d[n]
        except KeyError: raise AttributeError(n)
    def __repr__(s): return f'{s.kind}@{s.file}:{s.line} in {s.func} {s.d}'

NONE = V('none', c=None, t=('c', None))
def vconst(v):
    if v is None: return NONE
    if isinstance(v, bool): return V('bool', c=v, dt=DB, iv=ivpoint(int(v)), lin='K' if v else 'Z', mv=frozenset(['const']), t=('c', v), d=Dim(int(v)))
    if isinstance(v, int): return V('num', c=v, dt=DI, iv=ivpoint(v), lin='K' if v else 'Z', mv=frozenset(['const']), t=('c', v), d=Dim(v))
    if isinstance(v, float): return V('num', c=v, dt=DF, iv=ivpoint(v) if v == v else None, lin='K' if v else 'Z', mv=frozenset(['const']), t=('c', v))
    if isinstance(v, complex): return V('num', c=v, dt=DC, lin='K' if v else 'Z', mv=frozenset(['const']), t=('c', v))
    if isinstance(v, str): return V('str', c=v, t=('c', v))
    if isinstance(v, bytes): return V('bytes', c=v, t=('c', v))
    if isinstance(v, tuple): return V('tuple', c=tuple(vconst(x) for x in v))
    if v is Ellipsis: return V('ellipsis')
    raise Unsupported(f'constant {v!r}')
def vany(deps=E0, lin=None, **kw):
    return V('any', deps=deps, lin=lin or ('U' if deps else 'K'), **kw)
def vnum(dt=DF, **kw): return V('num', dt=dt, **kw)
def vdim(d, deps=E0, **kw):
    l = d.low()
    h = Dim(0).sub(d).low()
    if d.const is not None: return vconst(d.const).dep(deps)
    return V('num', dt=DI, d=d, deps=deps, iv=(l if l is not None else -INF, l is not None, -h if h is not None else INF, h is not None), mv=frozenset(['const']), t=('dim', repr(d)))

MAXITEMS = 8
RECUR = 4  # activations of one function
def _size(shape):
    n = 1
    for q in shape: n *= q.const
    return n

class Interp:
    def __init__(self, root, package='diamondback'):
        self.root = root; self.package = package
        self.modules = {}       # name -> ast
        self.paths = {}
        self.base = {}          # heap shared by every scenario: modules, classes, tables
        self.classes = {}       # name -> ClassInfo
        self.events = []; self.record = True
        self.sinks = []
        self.stack = []         # ( Func, call node )
        self.op = 'init'
        self.ctx = ()
        self.inlined = set(); self.calls_seen = 0; self.branches = 0; self.stmts = 0; self.unknown_calls = {}
        self.block_mode = False
        self.loops = []         # active loop descriptors
        self.carry_init = {}
        self.lenlabel = {}      # atom -> label
        self.budget = 3_000_000
        self.fstubs = {}  # functions replaced by assumed results, by ( class, name )
        self.stubs = {}  # constructors replaced by assumed designs
        self.backedge_hook = None
        self.tracing = False    # record lock, class state and module state accesses in the path trace
        self.fail_calls = None  # callable( name, V args ) -> exception class name or None
        self.ext_hook = None
        self.marks = {}         # id of a value -> ( value, what makes it unpicklable )
        self.tracked = set()    # names of external functions recorded in state.trace
        self.tmp = 0
        self.loading = set()
        self.limit_states = 40
        from . import ext
        self.ext = ext
        self.load()

    # ------------------------------------------------------------------ loading
    def load(self):
        pk = os.path.join(self.root, self.package)
        if not os.path.isdir(pk): raise AnchorMissing(pk)
        for d, _, fs in sorted(os.walk(pk)):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    m = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if m.endswith('.__init__'): m = m[:-9]
                    with open(p) as fh: src = fh.read()
                    self.modules[m] = ast.parse(src, p)
                    self.paths[m] = os.path.relpath(p, self.root)
        self.modstate = {}; self.loadskips = []
        for m in sorted(self.modules): self.load_module(m)
        self.nodes_total = sum(1 for t in self.modules.values() for _ in ast.walk(t))

    def load_module(self, m):
        if m in self.modstate or m in self.loading: return
        self.loading.add(m)
        st = State(); st.heap = self.base
        loc = 'mod:' + m
        self.base[loc] = Cell('mod', attrs={'__name__': vconst(m), '__file__': vconst(self.paths[m])})
        f = Func(self.modules[m], m, None, None, [], {}, '<module>')
        self.stack.append((f, None)); self.sinks.append([])
        save = self.op, self.ctx
        self.op, self.ctx = 'tab:' + m.rsplit('.', 1)[-1], ()
        st.env = None
        try:
            outs = self.block(self.modules[m].body, st)
        finally:
            self.op, self.ctx = save
            self.sinks.pop(); self.stack.pop()
        for o in outs:
            if o.kind == 'next' and o.st.heap is not self.base:
                self.base.update(o.st.heap)
        self.modstate[m] = True; self.loading.discard(m)

    # ------------------------------------------------------------------ reporting
    def where(self, node=None):
        f = self.stack[-1][0] if self.stack else None
        n = node
        return (self.paths.get(f.mod, '?') if f else '?', getattr(n, 'lineno', 0), (f'{f.cls}.{f.name}' if f.cls else f.name) if f else '?')
    def event(self, kind, node, **d):
        if not self.record: return
        a, b, c = self.where(node)
        d['nl'] = len(self.loops)
        self.events.append(Event(kind, a, b, c, d))

    # ------------------------------------------------------------------ heap
    def cell(self, st, loc):
        c = st.heap.get(loc)
        return c if c is not None else self.base.get(loc)
    def setcell(self, st, loc, c): st.heap[loc] = c
    def newloc(self, node, tag=''):
        return f'{self._pre()}:{self._cx()}:{getattr(node, "lineno", 0)}:{getattr(node, "col_offset", 0)}:{getattr(node, "end_lineno", 0)}.{getattr(node, "end_col_offset", 0)}{tag}'
    def _pre(self): return self.op if self.op.startswith(('tab:', 'def:')) else 'new:' + self.op
    def _cx(self):
        return '/'.join(map(str, self.ctx))
    def alloc(self, st, node, cell, tag=''):
        loc = self.newloc(node, tag)
        if st.pc or st.sig:
            if cell.elem is not None: cell = cell.r(elem=self.pcv(st, cell.elem))
        old = st.heap.get(loc)
        if old is not None:
            cell = cjoin(old, cell).r(multi=True)
        st.heap[loc] = cell
        return loc
    def pcv(self, st, v):
        if st.pc and not st.pc <= v.deps: v = v.r(deps=v.deps | st.pc)
        if st.sig and v.lin != 'Z': v = v.r(lin='N' if st.sig == 'N' and v.lin not in ('U',) else 'U')
        return v
    def arr(self, st, node, elem, shape, dt=None, items=None, tag='', deps=E0, t=None):
        """Allocates an array."""
        dt = elem.dt if dt is None else dt
        elem = elem.r(k='num', c=elem.c if isinstance(elem.c, (int, float, complex)) else NOC, dt=dt, cur=None, d=None, shape=None, locs=E0)
        if items is not None:
            items = tuple(x.r(k='num', dt=dt) if x.k in ('num', 'bool') else vnum(dt, deps=x.deps, lin='U') for x in items)
            if not shape or any(q is None or q.const is None for q in shape) or len(items) > (MAXITEMS if len(shape) == 1 else max(MAXITEMS, 32)): items = None
            elif len(shape) > 1 and len(items) != _size(shape): items = None
        loc = self.alloc(st, node, Cell('arr', elem=elem, items=items), tag)
        return V('arr', dt=dt, shape=shape, locs=frozenset([loc]), deps=deps, lin='K', t=t)
    def list_(self, st, node, items=None, elem=None, length=None, kind='list', tag='', deps=E0):
        if items is not None and len(items) > max(64, MAXITEMS):
            e = None
            for x in items: e = x if e is None else vjoin(e, x)
            items, elem, length = None, e, Dim(len(items))
        sh = (D(len(items)),) if items is not None else ((length,) if length is not None else (None,))
        loc = self.alloc(st, node, Cell(kind, elem=elem, items=tuple(items) if items is not None else None), tag)
        c = st.heap[loc]
        if c.multi and items is not None and c.items is None: sh = (None,)
        return V(kind, shape=sh, locs=frozenset([loc]), deps=deps)
    def content(self, st, v, mode='red'):
        """Summary of the elements of an array / list / tuple / scalar; reference dependences included."""
        if v.k in ('num', 'bool', 'str', 'none', 'exc', 'bytes', 'func', 'cls', 'dtype'): return v
        if v.k == 'tuple' and isinstance(v.c, tuple):
            r = None
            for x in v.c:
                x = self.content(st, x, mode)
                r = x if r is None else vjoin(r, x)
            return (r or V('num', dt=DF, lin='Z')).dep(v.deps)
        r = None
        for l in v.locs:
            c = self.cell(st, l)
            if c is None: continue
            e = c.elem
            if c.items is not None:
                its = list(c.items.values()) if isinstance(c.items, dict) else c.items
                e = None
                for x in its: e = x if e is None else vjoin(e, x)
                if e is None and not its: e = V('num', dt=v.dt or DF, lin='Z', mv=E0)
            if e is not None:
                if e.k in ('arr', 'list', 'tuple'): e = self.content(st, e, mode)
                if 'looped' in c.flag and mode != 'grow' and self.loops: e = e.dep(frozenset(['carry:' + l]))
                r = e if r is None else vjoin(r, e)
        if r is None: r = vany(v.deps)
        rd = r.deps
        if isinstance(v.c, tuple) and v.k == 'arr' and v.c and v.c[0] == 'rel' and v.c[1] != 'el': rd = self.relabel(rd, v.c[1])
        deps = rd | v.deps
        if mode in ('red', 'unk', 'cur'): deps = self.relabel(deps, {'red': 'blk', 'unk': 'unk', 'cur': 'cur'}[mode])
        r = r.r(deps=deps)
        if v.k == 'arr':
            r = r.r(k='num' if r.k != 'any' else 'num', dt=v.dt)
        return r
    def relabel(self, deps, to):
        if any(isinstance(d, str) and d.startswith('el:') for d in deps):
            return frozenset((to + d[2:]) if isinstance(d, str) and d.startswith('el:') else d for d in deps)
        return deps
    def items(self, st, v):
        """Tuple of element values if individually known."""
        if v.k == 'tuple' and isinstance(v.c, tuple): return v.c
        if v.k in ('arr', 'list', 'set') and len(v.locs) == 1:
            c = self.cell(st, next(iter(v.locs)))
            if c is not None and isinstance(c.items, tuple):
                if v.k in ('list', 'set'): return c.items
                if v.shape and len(v.shape) == 1 and v.shape[0] is not None and v.shape[0].const is None and not self.isview(v): return c.items
                if v.shape and len(v.shape) == 1 and (p := self.vpos(st, v)) is not None: return tuple(c.items[i] for i in p)
        if v.k == 'range' and isinstance(v.c, tuple):
            a, b, s = v.c
            if None not in (a, b, s) and a.const is not None and b.const is not None and s.const:
                r = range(a.const, b.const, s.const)
                if len(r) <= MAXITEMS: return tuple(vconst(i) for i in r)
        return None
    def vpos(self, st, v):
        """Flat positions of the elements of an array in its allocation, row by row, or None."""
        if v.k != 'arr' or len(v.locs) != 1 or v.shape is None or any(q is None or q.const is None for q in v.shape): return None
        c = self.cell(st, next(iter(v.locs)))
        if c is None or not isinstance(c.items, tuple): return None
        n, m = len(c.items), _size(v.shape)
        if not self.isview(v): return tuple(range(n)) if n == m else None
        if not (isinstance(v.cur, tuple) and len(v.cur) == 2): return None
        k = v.cur[1]
        if k and k[0] == 'pos': r = k[1]
        else: r = tuple(range(n))[slice(*k)]
        return r if len(r) == m and all(i < n for i in r) else None
    def vitems(self, st, v):
        """Element values of an array of any rank, row by row, or None."""
        p = self.vpos(st, v)
        if p is None: return None
        its = self.cell(st, next(iter(v.locs))).items
        return tuple(its[i] for i in p)
    def isview(self, v): return v.cur == 'view' or (isinstance(v.cur, tuple) and v.cur and v.cur[0] == 'view')

    # ------------------------------------------------------------------ effects on objects
    def origin(self, loc):
        return loc.split(':', 1)[0]
    def effect(self, st, loc, what, node):
        st.eff = st.eff | {(loc, what)}
    def store_content(self, st, v, val, node, full=False, index=None, via='setitem', slc=None):
        """Writes val (element summary) into the array / list v."""
        val = self.pcv(st, val)
        strong = full and len(v.locs) == 1
        for l in v.locs:
            c = self.cell(st, l)
            if c is None: continue
            self.event('write', node, loc=l, target=v, value=val, index=index, via=via, locks=st.locks, state=st)
            self.effect(st, l, 'content', node)
            fl = c.flag
            if self.loops and 'wr' not in fl: fl = fl | {'wr'}
            if v.k == 'arr' or c.kind == 'arr':
                sv = val.r(k='num', c=NOC, dt=v.dt if v.dt is not None else val.dt, d=None, cur=None, shape=None, locs=E0) if val.k != 'num' or True else val
                if val.c is not NOC and isinstance(val.c, (int, float, complex)): sv.c = val.c
            else: sv = val
            if strong and not c.multi and not self.isview(v):
                items = None
                if c.items is not None and isinstance(c.items, tuple): items = tuple(sv for _ in c.items)
                nc = c.r(elem=sv, items=items, flag=fl)
            else:
                items = None
                if isinstance(c.items, tuple): items = tuple(vjoin(x, sv) for x in c.items)
                elif isinstance(c.items, dict): items = {k: vjoin(x, sv) for k, x in c.items.items()}
                nc = c.r(elem=sv if c.elem is None else vjoin(c.elem, sv), items=items, flag=fl)
            self.setcell(st, l, nc)
    def setattr_(self, st, o, name, val, node):
        """Assigns an attribute; may call property setters.  Returns states."""
        if o.k == 'inst':
            ci = o.c
            p = self.lookup(ci, name) if isinstance(ci, ClassInfo) else None
            if p is not None and p[1].k == 'prop':
                pr = p[1].c
                if pr.set is None: self.raise_(st, 'AttributeError', node); return []
                return [s for _, s in self.call_func(pr.set, [o, val], {}, st, node)]
            return self.setfield(st, o, name, val, node)
        if o.k == 'cls' and isinstance(o.c, ClassInfo):
            # resolve to the class object
            val = self.pcv(st, val)
            loc = o.c.loc
            self.event('classstore', node, cls=o.c.name, attr=name, value=val, locks=st.locks, state=st)
            self.tr(st, 'store', o.c.name + '.' + name, node)
            self.effect(st, loc, name, node)
            c = self.cell(st, loc); at = dict(c.attrs); at[name] = val
            self.setcell(st, loc, c.r(attrs=at)); return [st]
        if o.k == 'mod' and isinstance(o.c, str) and ('mod:' + o.c) in self.base:
            self.event('modstore', node, mod=o.c, attr=name, value=val, locks=st.locks)
            self.tr(st, 'store', o.c + '.' + name, node)
            loc = 'mod:' + o.c
            self.effect(st, loc, name, node)
            c = self.cell(st, loc); at = dict(c.attrs); at[name] = self.pcv(st, val)
            self.setcell(st, loc, c.r(attrs=at)); return [st]
        if o.k == 'any' and not o.locs: return [st]
        if o.k == 'arr' and name in ('shape', 'real', 'imag', 'flat'):
            self.store_content(st, o, self.content(st, val), node); return [st]
        if o.k in ('ext', 'mod'):
            self.event('extstore', node, target=o, attr=name, value=val)
            return [st]
        return self.setfield(st, o, name, val, node)
    def setfield(self, st, o, name, val, node):
        val = self.pcv(st, val)
        for l in o.locs:
            c = self.cell(st, l)
            if c is None: continue
            self.event('attrstore', node, loc=l, obj=o, attr=name, value=val, locks=st.locks, state=st)
            self.effect(st, l, name, node)
            at = dict(c.attrs or {})
            at[name] = val if (len(o.locs) == 1 and not c.multi) or name not in at else vjoin(at[name], val)
            self.setcell(st, l, c.r(attrs=at))
        return [st]

    # ------------------------------------------------------------------ raising
    def raise_(self, st, cls, node, v=None, certain=True, ext=None):
        exc = v if v is not None else V('exc', c=cls, deps=st.pc)
        self.sinks[-1].append(Out('raise', st, exc, node))
    def may_raise(self, st, cls, node, ext=None):
        s = st.copy()
        exc = V('exc', c=cls, deps=st.pc, t=('ext', ext) if ext else None)
        self.sinks[-1].append(Out('raise', s, exc, node))

    def exc_sub(self, name, handler):
        """True / False / None: exception class name is a subclass of handler class name."""
        if handler in ('BaseException',): return True
        if name == handler: return True
        chain = self.exc_mro(name)
        if chain is None:
            return True if handler == 'Exception' else None
        return handler in chain
    def exc_mro(self, name):
        if name is None or name == '?': return None
        table = {'BadGzipFile': OSError, 'LinAlgError': ValueError, 'RequestException': OSError, 'HTTPError': OSError, 'ConnectionError': OSError, 'Timeout': OSError, 'UnpicklingError': Exception, 'PicklingError': Exception, 'binascii.Error': ValueError, 'NotFittedError': ValueError, 'Empty': Exception, 'UFuncTypeError': TypeError}
        b = table.get(name) or getattr(_bi, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            r = [name] + [c.__name__ for c in b.__mro__]
            if name in ('HTTPError', 'ConnectionError', 'Timeout'): r.append('RequestException')
            return r
        ci = self.classes.get(name)
        if ci is not None:
            r = [name]
            for bb in ci.bases:
                n = bb.name if isinstance(bb, ClassInfo) else str(bb).rsplit('.', 1)[-1]
                m = self.exc_mro(n)
                r += m if m else [n]
            return r
        return None

    # ------------------------------------------------------------------ classes
    def mro(self, ci):
        out = [ci]
        for b in ci.bases:
            if isinstance(b, ClassInfo):
                for x in self.mro(b):
                    if x not in out: out.append(x)
        return out
    def lookup(self, ci, name, after=None):
        """( ClassInfo, V ) of a class member along the resolution order."""
        seen = after is None
        for c in self.mro(ci):
            if not seen:
                if c is after: seen = True
                continue
            cell = self.base.get(c.loc)
            if cell and name in cell.attrs: return c, cell.attrs[name]
        return None
    def lookup_live(self, st, ci, name, after=None):
        seen = after is None
        for c in self.mro(ci):
            if not seen:
                if c is after: seen = True
                continue
            cell = self.cell(st, c.loc)
            if cell and name in cell.attrs: return c, cell.attrs[name]
        return None

    # ------------------------------------------------------------------ statements
    def block(self, body, st):
        cur = [st]; outs = []
        for s in body:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c):
                    (nxt.append(o.st) if o.kind == 'next' else outs.append(o))
            cur = self.merge(nxt)
            if not cur: break
        return outs + [Out('next', s) for s in cur]

    def stmt(self, s, st):
        self.stmts += 1
        self.budget -= 1
        if self.budget < 0: raise Budget()
        self.sinks.append([])
        try:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None: raise Unsupported(type(s).__name__)
            outs = m(s, st)
        except (Unsupported, Budget) as e:
            if not self.stack or self.stack[-1][0].name not in ('<module>', '<class>') or not self.loading: raise
            # definitions that cannot be interpreted become unknown values
            self.loadskips.append((self.stack[-1][0].mod, getattr(s, 'lineno', 0), str(e)))
            for q in ast.walk(s):
                if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store): self.setname(st, q.id, vany(), q)
            outs = [Out('next', st)]
        finally:
            sink = self.sinks.pop()
        return outs + sink
    def s_Pass(self, s, st): return [Out('next', st)]
    def s_Import(self, s, st):
        for a in s.names:
            self.setname(st, a.asname or a.name.split('.')[0], self.modv(a.name if a.asname else a.name.split('.')[0]), s)
        return [Out('next', st)]
    def modv(self, name):
        if name in self.modules: self.load_module(name)
        return V('mod', c=name)
    def s_ImportFrom(self, s, st):
        m = s.module or ''
        if s.level:
            cur = self.stack[-1][0].mod
            parts = cur.split('.')
            ispkg = self.paths[cur].endswith('__init__.py')
            parts = parts[:len(parts) - s.level + (1 if ispkg else 0)]
            m = '.'.join(parts + ([m] if m else []))
        for a in s.names:
            if m in self.modules:
                self.load_module(m)
                if m + '.' + a.name in self.modules: v = self.modv(m + '.' + a.name)
                else:
                    c = self.base.get('mod:' + m)
                    v = c.attrs.get(a.name) if c else None
                    if v is None:
                        v = vany()
            else: v = self.ext.resolve(self, m + '.' + a.name)
            self.setname(st, a.asname or a.name, v, s)
        return [Out('next', st)]
    def tr(self, st, what, name, node):
        if self.tracing: st.trace = st.trace + ((what, name, getattr(node, 'lineno', 0), st.locks),)
    def setname(self, st, name, v, node):
        if st.env is None or name in st.env.get('$global', ()):
            m = 'mod:' + self.stack[-1][0].mod
            if st.env is not None:
                self.event('modstore', node, mod=m[4:], attr=name, value=v, locks=st.locks)
                self.tr(st, 'store', m[4:] + '.' + name, node)
                self.effect(st, m, name, node)
            c = self.cell(st, m); at = dict(c.attrs); at[name] = v
            self.setcell(st, m, c.r(attrs=at))
        else:
            if '$nonlocal' in st.env and name in st.env['$nonlocal']: raise Unsupported('nonlocal')
            st.env[name] = self.pcv(st, v) if v.k in ('num', 'bool', 'str', 'none') else (v.dep(st.pc) if st.pc else v)
    def s_Global(self, s, st):
        st.env['$global'] = tuple(st.env.get('$global', ())) + tuple(s.names); return [Out('next', st)]
    def s_Nonlocal(self, s, st):
        raise Unsupported('nonlocal')
    def s_Expr(self, s, st):
        return [Out('next', x) for _, x in self.ev(s.value, st)]
    def s_Assign(self, s, st):
        outs = []
        for v, x in self.ev(s.value, st):
            xs = [x]
            for t in s.targets:
                xs = [z for y in xs for z in self.assign(t, v, y, s)]
            outs += [Out('next', z) for z in xs]
        return outs
    def s_AnnAssign(self, s, st):
        if s.value is None: return [Out('next', st)]
        return [Out('next', z) for v, x in self.ev(s.value, st) for z in self.assign(s.target, v, x, s)]
    def s_AugAssign(self, s, st):
        outs = []
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            for a, x in self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st):
                for b, y in self.ev(s.value, x):
                    for r, z in self.inplace(op, a, b, y, s):
                        self.setname(z, t.id, r, s); outs.append(Out('next', z))
        elif isinstance(t, ast.Attribute):
            for o, x in self.ev(t.value, st):
                for a, y in self.getattr_(o, t.attr, x, t):
                    for b, z in self.ev(s.value, y):
                        for r, w in self.inplace(op, a, b, z, s):
                            outs += [Out('next', q) for q in self.setattr_(w, o, t.attr, r, s)]
        elif isinstance(t, ast.Subscript):
            for o, x in self.ev(t.value, st):
                for i, y in self.ev(t.slice, x):
                    for a, z in self.getitem(o, i, y, t):
                        for b, w in self.ev(s.value, z):
                            for r, u in self.inplace(op, a, b, w, s):
                                if self.isview(a) and a.k == 'arr' and r is a:
                                    outs.append(Out('next', u))   # written through the view
                                else:
                                    outs += [Out('next', q) for q in self.setitem(o, i, r, u, s)]
        else: raise Unsupported('augassign target')
        return outs
    def inplace(self, op, a, b, st, node):
        """a op= b; arrays are modified in place."""
        if a.k == 'arr':
            return self.ext.inplace_arr(self, op, a, b, st, node)
        if a.k == 'list' and op == 'Add':
            return self.ext.list_extend(self, a, b, st, node)
        return self.binop(op, a, b, st, node)
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v, node); return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, node)
        if isinstance(t, ast.Attribute):
            return [y for o, x in self.ev(t.value, st) for y in self.setattr_(x, o, t.attr, v, node)]
        if isinstance(t, ast.Subscript):
            return [z for o, x in self.ev(t.value, st) for i, y in self.ev(t.slice, x) for z in self.setitem(o, i, v, y, node)]
        if isinstance(t, ast.Starred): return self.assign(t.value, v, st, node)
        raise Unsupported('assign target')
    def unpack(self, elts, v, st, node):
        its = self.items(st, v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if its is not None and not star and len(its) == len(elts): vs = [x.dep(v.deps) for x in its]
        elif its is not None and star and len(its) >= len(elts) - 1:
            i = star[0]; k = len(its) - (len(elts) - 1)
            vs = list(its[:i]) + [self.list_(st, node, items=list(its[i:i + k]), tag='star')] + list(its[i + k:])
        elif its is not None and not star:
            self.raise_(st, 'ValueError', node); return []
        elif v.k == 'arr' and v.shape and len(v.shape) > 1:
            vs = [self.ext.getitem(self, v, vconst(i), st, node) for i in range(len(elts))] if not star and self.vpos(st, v) is not None and v.shape[0] is not None and v.shape[0].const == len(elts) else None
            vs = [q[0][0] for q in vs] if vs is not None and all(len(q) == 1 for q in vs) else [self.ext.subview(self, v, v.shape[1:]) for _ in elts]
        else:
            e = self.content(st, v, 'unk') if v.k in ('arr', 'list', 'tuple') else vany(v.deps, v.lin if v.lin in ('K', 'Z') else 'U')
            vs = [e if i not in star else self.list_(st, node, elem=e, tag='star') for i in range(len(elts))]
        xs = [st]
        for e, w in zip(elts, vs):
            xs = [z for y in xs for z in self.assign(e, w, y, node)]
        return xs
    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name) and st.env is not None: st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                r = []
                for o, x in self.ev(t.value, st):
                    for i, y in self.ev(t.slice, x):
                        if o.k in ('list', 'dict'):
                            for l in o.locs:
                                self.event('write', s, loc=l, target=o, value=NONE, index=i, via='del', locks=y.locks, state=y)
                                self.effect(y, l, 'content', s)
                                c = self.cell(y, l)
                                if isinstance(c.items, dict) and i.c is not NOC and i.c in c.items:
                                    it = dict(c.items); it.pop(i.c); self.setcell(y, l, c.r(items=it))
                        r.append(y)
                st = r[0] if r else st
            elif isinstance(t, ast.Attribute):
                for o, x in self.ev(t.value, st):
                    if o.k == 'inst':
                        for l in o.locs:
                            c = self.cell(x, l); at = dict(c.attrs or {}); at.pop(t.attr, None)
                            self.effect(x, l, t.attr, s); self.setcell(x, l, c.r(attrs=at))
                    st = x
        return [Out('next', st)]
    def s_Return(self, s, st):
        if s.value is None: return [Out('return', st, NONE, s)]
        return [Out('return', x, v, s) for v, x in self.ev(s.value, st)]
    def s_Break(self, s, st): return [Out('break', st)]
    def s_Continue(self, s, st): return [Out('continue', st)]
    def s_Raise(self, s, st):
        if s.exc is None:
            return [Out('raise', st, st.exc or V('exc', c='?'), s)]
        outs = []
        for v, x in self.ev(s.exc, st):
            if v.k == 'cls':
                n = v.c.name if isinstance(v.c, ClassInfo) else str(v.c).rsplit('.', 1)[-1]
                v = V('exc', c=n)
            elif v.k == 'inst' and isinstance(v.c, ClassInfo): v = V('exc', c=v.c.name)
            elif v.k != 'exc': v = V('exc', c='?')
            ys = [x]
            if s.cause is not None: ys = [y for _, y in self.ev(s.cause, x)]
            outs += [Out('raise', y, v.dep(y.pc), s) for y in ys]
        return outs
    def s_Assert(self, s, st):
        outs = []
        for v, x in self.evtest(s.test, st):
            t = self.truth(v, x)
            if t is not True:
                y = x if t is False else x.copy()
                y.pc = y.pc | v.deps
                outs.append(Out('raise', y, V('exc', c='AssertionError', deps=v.deps), s))
            if t is not False: outs.append(Out('next', x))
        return outs
    def s_If(self, s, st):
        outs = []
        for v, x in self.evtest(s.test, st):
            t = self.truth(v, x)
            self.branches += 1
            self.event('branch', s, cond=v, truth=t, state=x)
            if t is not None:
                ctl = v.deps - x.pc if self.known(s.test, v) else E0
                pc = x.pc; x.pc = pc | ctl
                os = self.block(s.body, x) if t else self.block(s.orelse, x) if s.orelse else [Out('next', x)]
                if ctl:
                    for o in os:
                        if o.kind == 'next': o.st.pc = pc
                outs += os
            else: outs += self.fork(v, x, s.test, lambda y: self.block(s.body, y), lambda y: self.block(s.orelse, y) if s.orelse else [Out('next', y)])
        return outs
    def known(self, e, v):
        """A name which an earlier condition decided: what follows still depends on it."""
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e = e.operand
        return isinstance(e, (ast.Name, ast.Attribute)) and bool(v.deps) and v.t is not None and v.t[:1] != ('c',)
    def sigmark(self, v):
        if v.lin == 'N' or v.lin == 'L' or isinstance(v.lin, tuple): return 'N'
        return 'U' if v.lin == 'U' else ''
    def fork(self, v, st, test, fa, fb):
        pc, sig = st.pc, st.sig
        a, b = st, st.copy()
        a.pc = b.pc = pc | v.deps
        m = self.sigmark(v)
        if m: a.sig = b.sig = 'N' if 'N' in (m, sig) else 'U'
        self.onpath(a, v, True); self.onpath(b, v, False)
        fa_ok = self.refine(test, a, True); fb_ok = self.refine(test, b, False)
        oa = [o for z in self.ext.abssplit(self, test, a) for o in fa(z)] if fa_ok else []
        ob = fb(b) if fb_ok else []
        def leaves(os): return any(o.kind in ('return', 'break', 'continue') for o in os)
        def goes(os): return any(o.kind != 'raise' for o in os)
        sticky = leaves(oa) or leaves(ob)
        both = goes(oa) and goes(ob)
        for o in oa + ob:
            if o.kind == 'next' and not (sticky and both): o.st.pc, o.st.sig = pc, sig
            elif o.kind in ('return', 'break', 'continue') and not both:
                o.st.pc, o.st.sig = (o.st.pc - (v.deps - pc)), sig
        return oa + ob
    def refine(self, test, st, val):
        """Refines variables under test == val; False if infeasible."""
        try: return self.ext.refine(self, test, st, val)
        except Unsupported: return True
    def s_Match(self, s, st): raise Unsupported('match')
    def s_FunctionDef(self, s, st):
        outs = []
        for fv, x in self.mkfunc(s, st, s.name):
            for d in reversed(s.decorator_list):
                fv = self.decorate(d, fv, x, s)
            self.setname(x, s.name, fv, s); outs.append(Out('next', x))
        return outs
    def mkfunc(self, s, st, name, cls=None):
        a = s.args
        save = self.op
        self.op = 'def:' + self.stack[-1][0].mod.rsplit('.', 1)[-1] if not self.op.startswith('new') and st.env is None or cls else self.op
        ds = []
        for d in a.defaults: ds.append(self.ev(d, st)[0][0])
        kd = {}
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: kd[n.arg] = self.ev(d, st)[0][0]
        self.op = save
        clo = dict(st.env) if st.env is not None else None
        f = Func(s, self.stack[-1][0].mod, cls or (self.stack[-1][0].cls if self.stack[-1][0].name != '<module>' else None), clo, ds, kd, name)
        v = V('func', c=('user', f, None))
        if clo is not None and name: clo[name] = v
        return [(v, st)]
    def decorate(self, d, fv, st, node):
        n = d.id if isinstance(d, ast.Name) else None
        if n in ('property', 'staticmethod', 'classmethod'):
            if n == 'property': return V('prop', c=Prop(get=fv))
            return V('func', c=(n, fv.c[1], None)) if fv.k == 'func' and fv.c[0] == 'user' else (V('func', c=('swrap', fv, None)) if n == 'staticmethod' else V('func', c=('cwrap', fv, None)))
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            base = self.ev(d.value, st)[0][0]
            if base.k == 'prop':
                p = Prop(base.c.get, base.c.set)
                if d.attr == 'setter': p.set = fv
                elif d.attr == 'getter': p.get = fv
                return V('prop', c=p)
        dv, _ = self.ev(d, st)[0]
        r = self.call(dv, [fv], {}, st, node)
        if len(r) != 1: raise Unsupported('decorator')
        return r[0][0]
    s_AsyncFunctionDef = None
    def s_ClassDef(self, s, st):
        bases = []
        for b in s.bases:
            v = self.ev(b, st)[0][0]
            bases.append(v.c if v.k == 'cls' else 'unknown')
        mod = self.stack[-1][0].mod
        ci = ClassInfo(s.name, mod, s, bases)
        self.classes.setdefault(s.name, ci)
        self.base[ci.loc] = Cell('cls', attrs={'__name__': vconst(s.name), '__module__': vconst(mod)})
        f = Func(s, mod, s.name, None, [], {}, '<class>')
        save = self.op, st.env
        self.op = 'tab:' + s.name
        env = {}
        outer = st.env
        st.env = env
        cellattrs = env
        self.stack.append((f, None))
        try:
            for d in s.body:
                if isinstance(d, ast.FunctionDef):
                    fv = V('func', c=('user', Func(d, mod, s.name, None, *self.defaults(d, st), d.name), None))
                    try:
                        for dec in reversed(d.decorator_list): fv = self.decorate(dec, fv, st, d)
                    except Unsupported as e: self.loadskips.append((mod, d.lineno, str(e))); fv = vany()
                    env[d.name] = fv
                else:
                    outs = [o for o in self.stmt(d, st) if o.kind == 'next']
                    if outs: st = outs[0].st; env = st.env
        finally:
            self.stack.pop()
            self.op = save[0]
        at = dict(self.base[ci.loc].attrs); at.update({k: v for k, v in env.items() if not k.startswith('$')})
        self.base[ci.loc] = Cell('cls', attrs=at)
        if st.heap is not self.base: st.heap[ci.loc] = self.base[ci.loc]
        st.env = outer
        cv = V('cls', c=ci)
        for dec in reversed(s.decorator_list): pass
        self.setname(st, s.name, cv, s)
        return [Out('next', st)]
    def defaults(self, d, st):
        save = self.op
        self.op = 'def:' + (self.stack[-1][0].cls or self.stack[-1][0].mod)
        try:
            ds = [self.ev(x, st)[0][0] for x in d.args.defaults]
            kd = {n.arg: self.ev(x, st)[0][0] for n, x in zip(d.args.kwonlyargs, d.args.kw_defaults) if x is not None}
        finally: self.op = save
        return ds, kd

    # --- try / with
    def s_Try(self, s, st):
        outs = self.block(s.body, st)
        res = []
        for o in outs:
            if o.kind == 'next' and s.orelse: res += self.block(s.orelse, o.st)
            elif o.kind != 'raise': res.append(o)
            else: res += self.handle(s, o)
        if s.finalbody:
            fin = []
            for o in res:
                for f in self.block(s.finalbody, o.st):
                    if f.kind == 'next': fin.append(Out(o.kind, f.st, o.v, o.node))
                    else: fin.append(f)
            res = fin
        return res
    s_TryStar = s_Try
    def handle(self, s, o):
        res = []
        live = o
        for h in s.handlers:
            m = self.match_handler(h.type, o.v, o.st)
            if m is False: continue
            x = o.st if m is True else o.st.copy()
            old = x.exc
            x.exc = o.v
            if h.name: self.setname(x, h.name, o.v, h)
            for q in self.block(h.body, x):
                q.st.exc = old
                res.append(q)
            if m is True: return res
        res.append(live)
        return res
    def match_handler(self, t, exc, st):
        if t is None: return True
        v = self.ev(t, st)[0][0]
        vs = v.c if v.k == 'tuple' else (v,)
        r = False
        for x in vs:
            n = (x.c.name if isinstance(x.c, ClassInfo) else str(x.c).rsplit('.', 1)[-1]) if x.k == 'cls' else None
            m = self.exc_sub(exc.c if exc.c is not NOC else '?', n) if n else None
            if m is True: return True
            if m is None: r = None
        return r
    def s_With(self, s, st): return self.with_(s, 0, st)
    def with_(self, s, i, st):
        if i == len(s.items): return self.block(s.body, st)
        it = s.items[i]
        outs = []
        for v, x in self.ev(it.context_expr, st):
            for ent, y, ex in self.ext.enter(self, v, x, it.context_expr):
                ys = [y]
                if it.optional_vars is not None: ys = self.assign(it.optional_vars, ent, y, s)
                for z in ys:
                    for o in self.with_(s, i + 1, z):
                        outs += ex(o)
        return outs

    # --- loops
    def s_For(self, s, st):
        outs = []
        for v, x in self.ev(s.iter, st):
            outs += self.for_(s, v, x)
        return outs
    def for_(self, s, v, st):
        its = self.iter_items(st, v)
        if its is None and BOUND and v.k == 'range' and isinstance(v.c, tuple) and None not in v.c and all(q.const is not None for q in v.c):
            its = tuple(vconst(i) for i in list(range(*[q.const for q in v.c]))[:BOUND])
        if its is not None and len(its) <= MAXITEMS:
            cur = [st]; outs = []
            pc0 = st.pc
            if v.deps and v.k in ('list', 'tuple', 'dict', 'set'): st = st.copy(); st.pc = pc0 | v.deps; cur = [st]
            cx = self.ctx
            for k, e in enumerate(its):
                nxt = []; self.ctx = cx + (f'#{k}',)
                for x in cur:
                    for y in self.assign(s.target, e, x, s):
                        for o in self.block(s.body, y):
                            if o.kind in ('next', 'continue'): nxt.append(o.st)
                            elif o.kind == 'break': outs.append(Out('next', o.st))
                            else: outs.append(o)
                cur = self.merge(nxt)
            self.ctx = cx
            for x in cur: x.pc = pc0
            for o in outs: o.st.pc = pc0
            for x in cur:
                outs += self.block(s.orelse, x) if s.orelse else [Out('next', x)]
            return outs
        elem, must, empty, info = self.iter_abs(st, v, s)
        if self.block_mode: info['sig'] = self.sigiter(st, v)
        if empty: return self.block(s.orelse, st) if s.orelse else [Out('next', st)]
        def step(x, n):
            r = []
            for y in self.assign(s.target, elem(x, n), x, s): r += self.block(s.body, y)
            return r
        return self.loop(s, st, step, must, info)
    def iter_items(self, st, v):
        its = self.items(st, v)
        if its is not None and v.k != 'range' and v.k != 'tuple' and v.locs:
            pass
        if its is None and v.k == 'dict' and len(v.locs) == 1:
            c = self.cell(st, next(iter(v.locs)))
            if isinstance(c.items, dict): its = tuple(vconst(k) for k in c.items)
        if its is None and v.k == 'iter' and isinstance(v.c, tuple) and v.c[0] == 'items': its = v.c[1]
        if its is None and NORMAL and v.k == 'arr' and v.shape and len(v.shape) > 1 and v.shape[0] is not None and v.shape[0].const is not None and v.shape[0].const <= MAXITEMS and self.vpos(st, v) is not None:
            rows = [self.ext.getitem(self, v, vconst(i), st, None) for i in range(v.shape[0].const)]     # rows of a matrix
            if all(len(r) == 1 for r in rows): its = tuple(r[0][0] for r in rows)
        return its
    def iter_abs(self, st, v, node):
        """( element function, must enter, surely empty, info )"""
        return self.ext.iter_abs(self, st, v, node)
    def loop(self, s, st, step, must, info, cond=None):
        """Fixpoint of a loop.  step( state, n ) runs the body; returns outcomes."""
        exits, outs = [], []
        self.loops.append(info)
        if self.block_mode: info['init'] = dict(st.env or {}); info['heap'] = dict(st.heap)
        pc0 = st.pc
        try:
            if not must: exits.append(st.copy())
            back = []
            def run(states, n):
                nb = []
                for x in states:
                    h0 = dict(x.env) if x.env is not None else {}
                    for o in step(x.copy(), n):
                        if o.kind in ('next', 'continue'):
                            self.backedge(o.st, h0, info)
                            if self.backedge_hook: self.backedge_hook(self, s, n, o.st)
                            if o.kind == 'continue': pass
                            nb.append(o.st)
                        elif o.kind == 'break': exits.append(o.st)
                        elif o.kind == 'exit': exits.append(o.st)
                        else: outs.append(o)
                return self.merge(nb, loop=True)
            head = run([st], 1)
            ex1 = [x.copy() for x in head] if not cond else []
            n = 1
            while head:
                n += 1
                nb = run(head, n)
                new = self.merge([x.copy() for x in head] + nb, loop=True, widen=n > 3)
                if len(new) == len(head) and all(any(a.same(b) for b in head) for a in new): break
                head = new
                if n > 30:
                    raise Unsupported('loop does not converge')
            if not cond: exits += head
        finally: self.loops.pop()
        exits = self.merge(exits)
        for x in exits: self.loopexit(x)
        for x in exits:
            outs += self.block(s.orelse, x) if getattr(s, 'orelse', None) else [Out('next', x)]
        return outs
    def sigiter(self, st, v, depth=0):
        """The iteration runs over the samples of a signal."""
        if any(isinstance(d, str) and d.startswith(('len:', 'el:')) for d in v.deps): return True
        if depth > 3: return False
        if v.k in ('arr', 'list'): return any(isinstance(d, str) and d.startswith('el:') for d in self.content(st, v, 'keep').deps)
        if v.k == 'iter' and isinstance(v.c, tuple):
            for w in v.c[1:]:
                for q in (w if isinstance(w, (tuple, list)) else (w,)):
                    if isinstance(q, V) and self.sigiter(st, q, depth + 1): return True
        return False
    def carried(self, k, info, v):
        i = self.carry_init.setdefault(k, set())
        if v is not None: i.update(v.deps)
    def backedge(self, st, h0, info):
        if not self.block_mode or st.env is None or not info.get('sig', True): return
        for k, v in st.env.items():
            if v.__class__ is V and v.k in ('num', 'bool') and v.cur is None:
                o = h0.get(k)
                if o is not v and (o is None or o != v) and v.c is NOC or (o is not None and o is not v and v.c is not NOC and o.c is not NOC and o.c != v.c):
                    st.env[k] = v.dep(frozenset(['carry:' + k])); self.carried(k, info, info.get('init', {}).get(k))
        for l, c in list(st.heap.items()):
            if c.kind in ('arr', 'list') and 'wr' in c.flag and 'looped' not in c.flag and l.startswith(self._pre()):
                st.heap[l] = c.r(flag=c.flag | {'looped'}); q = info.get('heap', {}).get(l); self.carried(l, info, q.elem if q is not None else None)
    def loopexit(self, st):
        if not self.block_mode: return
        if self.loops: return
        for l, c in list(st.heap.items()):
            if 'wr' in c.flag or 'looped' in c.flag:
                e = c.elem
                if l.startswith(self._pre()) and e is not None and any(isinstance(d, str) and d.startswith('cur:') for d in e.deps):
                    e = e.r(deps=frozenset(('el' + d[3:]) if isinstance(d, str) and d.startswith('cur:') else d for d in e.deps))
                st.heap[l] = c.r(flag=c.flag - {'wr', 'looped'}, elem=e)
    def unroll(self, s, st):
        """Iterations of a loop whose condition is decided every time, or None."""
        cur, outs, n, save = [st.copy()], [], 0, (self.ctx, len(self.events), len(self.sinks[-1]))
        try:
            while cur:
                n += 1
                if n > max(60, MAXITEMS) or len(cur) > 8: del self.events[save[1]:]; del self.sinks[-1][save[2]:]; return None
                nxt = []
                self.ctx = save[0] + (f'#{n}',) if isinstance(save[0], tuple) else save[0]
                for y in cur:
                    for cv, z in self.evtest(s.test, y):
                        tt = self.truth(cv, z)
                        if tt is None and BOUND:
                            w = z.copy()
                            self.onpath(w, cv, False); self.onpath(z, cv, True)
                            if self.refine(s.test, w, False): outs += self.block(s.orelse, w) if s.orelse else [Out('next', w)]
                            if n > BOUND or not self.refine(s.test, z, True): continue
                            tt = True
                        elif tt is None: del self.events[save[1]:]; del self.sinks[-1][save[2]:]; return None
                        if not tt: outs += self.block(s.orelse, z) if s.orelse else [Out('next', z)]; continue
                        for o in self.block(s.body, z):
                            if o.kind in ('next', 'continue'): nxt.append(o.st)
                            elif o.kind == 'break': outs.append(Out('next', o.st))
                            else: outs.append(o)
                cur = nxt
        finally: self.ctx = save[0]
        return outs
    def s_While(self, s, st):
        if SPLIT and not self.block_mode:
            r = self.unroll(s, st)
            if r is not None: return r
        elif self.ext.while_count(self, s, st) <= MAXITEMS:
            r = self.unroll(s, st)
            if r is not None: return r
        cursor = self.ext.while_cursor(self, s, st)
        info = {'node': s, 'kind': 'while', 'cursor': cursor}
        # enter at least once?
        outs = []
        firsts = []
        for v, x in self.evtest(s.test, st):
            if self.block_mode: info['sig'] = info.get('sig') or any(isinstance(d, str) and d.startswith('len:') for d in v.deps)
            t = self.truth(v, x)
            if t is True: firsts.append((x, True, v))
            elif t is False:
                outs += self.block(s.orelse, x) if s.orelse else [Out('next', x)]
            else: firsts.append((x, None, v))
        for x, t, v in firsts:
            def step(y, n):
                r = []
                if cursor: self.ext.set_cursor(self, s, y, cursor, n)
                for cv, z in self.evtest(s.test, y):
                    tt = self.truth(cv, z)
                    if n == 1 and t is True: tt = True
                    if tt is False: r.append(Out('exit', z)); continue
                    if tt is None:
                        w = z.copy()
                        self.onpath(w, cv, False); self.onpath(z, cv, True)
                        if self.refine(s.test, w, False): r.append(Out('exit', w))
                        if not self.refine(s.test, z, True): continue
                        deps = cv.deps if not cursor else frozenset(d for d in cv.deps if not (isinstance(d, str) and (d.startswith('len:') or d.startswith('pos:') or d.startswith('carry:'))))
                        pc, sg = z.pc, z.sig
                        z.pc = z.pc | deps
                        m = self.sigmark(cv)
                        if m: z.sig = 'N' if 'N' in (m, z.sig) else 'U'
                        for o in self.block(s.body, z):
                            if o.kind in ('next', 'continue'): o.st.pc, o.st.sig = pc, sg
                            r.append(o)
                    else: r += self.block(s.body, z)
                return r
            outs += self.loop(s, x, step, True, info, cond=True)
        return outs

    # ------------------------------------------------------------------ merging
    def vsig(self, v, loop):
        if v.k in ('none', 'bool', 'str', 'func', 'cls', 'mod', 'bytes'):
            c = v.c
            if v.k == 'bool' and loop: c = None
            if v.k in ('str', 'bytes') and loop: c = None
            if v.k == 'func': c = id(v.c[1]) if isinstance(v.c, tuple) else repr(v.c)
            return (v.k, v.deps if v.k == 'none' and False else None, repr(c) if v.k != 'func' else c)
        if v.k == 'tuple': return ('tuple', tuple(self.vsig(x, loop) for x in v.c)) if isinstance(v.c, tuple) else ('tuple',)
        if v.k == 'num': return ('num',) if loop else ('num', v.dt)
        if loop: return (v.k,)
        return (v.k, v.dt, len(v.shape) if v.shape is not None else None)
    def ssig(self, st, loop):
        e = tuple(sorted((k, self.vsig(v, loop)) for k, v in st.env.items() if v.__class__ is V)) if st.env is not None else ()
        h = []
        for l, c in st.heap.items():
            if c.kind == 'inst' and c.attrs:
                h.append((l, tuple(sorted((k, self.vsig(v, loop)) for k, v in c.attrs.items()))))
        h.sort()
        if SPLIT and not loop: return (repr(e) + repr(st.path), repr(h), st.locks, st.eff, st.trace, st.exc.c if st.exc is not None else None)
        return (repr(e), repr(h), st.locks, st.eff if not loop else frozenset(x for x in st.eff), st.trace, st.exc.c if st.exc is not None else None)
    def merge(self, states, loop=False, widen=False):
        if len(states) <= 1: return states
        groups = {}
        for s in states: groups.setdefault(self.ssig(s, loop), []).append(s)
        if len(groups) > (SPLIT or self.limit_states):
            groups2 = {}
            for k, g in groups.items(): groups2.setdefault(k[2:], []).extend(g)
            groups = groups2
        out = []
        for g in groups.values():
            s = g[0]
            for o in g[1:]: s = self.join(s, o, widen)
            out.append(s)
        return out
    def join(self, a, b, widen=False):
        vj = vwiden if widen else vjoin
        n = State()
        if a.env is None: n.env = None
        else:
            n.env = {}
            for k in list(a.env) + [k for k in b.env if k not in a.env]:
                if k in a.env and k in b.env:
                    x, y = a.env[k], b.env[k]
                    n.env[k] = x if x is y else (vj(x, y) if x.__class__ is V else x)
                else:
                    x = a.env.get(k, b.env.get(k))
                    n.env[k] = x   # possibly unbound on one side
        n.heap = dict(a.heap)
        for l, c in b.heap.items():
            o = n.heap.get(l)
            if o is None:
                bo = self.base.get(l)
                n.heap[l] = c if bo is None else cjoin(bo, c, vj)
            elif o is not c: n.heap[l] = cjoin(o, c, vj)
        for l in a.heap:
            if l not in b.heap and l in self.base and a.heap[l] is not self.base[l]:
                n.heap[l] = cjoin(self.base[l], a.heap[l], vj)
        n.pc = a.pc | b.pc; n.sig = a.sig if a.sig == b.sig else ('N' if 'N' in (a.sig, b.sig) else 'U')
        n.locks = a.locks; n.eff = a.eff | b.eff; n.facts = a.facts & b.facts; n.trace = a.trace; n.exc = a.exc
        if a.path == b.path: n.path = a.path
        else:
            i = 0
            while i < min(len(a.path), len(b.path)) and a.path[i] == b.path[i]: i += 1
            n.path = a.path[:i]
        return n
    def onpath(self, st, v, val):
        """Record the outcome of an undecided condition."""
        if SPLIT: st.path = st.path + ((v.t, val),)

    # ------------------------------------------------------------------ expressions: list of ( V, State )
    def ev(self, e, st):
        self.budget -= 1
        if self.budget < 0: raise Budget()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported(type(e).__name__)
        return m(e, st)
    def evs(self, es, st):
        cur = [([], st)]
        for e in es:
            nxt = []
            for vs, x in cur:
                if isinstance(e, ast.Starred):
                    for v, y in self.ev(e.value, x):
                        its = self.iter_items(y, v)
                        if its is None: raise Unsupported('starred')
                        nxt.append((vs + list(its), y))
                else:
                    for v, y in self.ev(e, x): nxt.append((vs + [v], y))
            cur = nxt
        return cur
    def e_Constant(self, e, st): return [(vconst(e.value), st)]
    def e_Name(self, e, st):
        v = self.name(e.id, st)
        if v is None:
            self.raise_(st, 'NameError' if st.env is None else 'UnboundLocalError', e); return []
        return [(v, st)]
    def name(self, n, st):
        if st.env is not None:
            v = st.env.get(n)
            if v is not None: return v
            f = self.stack[-1][0]
            if f.closure and n in f.closure: return f.closure[n]
        c = self.cell(st, 'mod:' + self.stack[-1][0].mod)
        v = c.attrs.get(n)
        if v is not None:
            if self.tracing and v.k not in ('cls', 'func', 'mod') and st.env is not None: self.tr(st, 'load', self.stack[-1][0].mod + '.' + n, None)
            return v
        return self.ext.builtin(self, n)
    def e_Tuple(self, e, st):
        return [(V('tuple', c=tuple(vs)), x) for vs, x in self.evs(e.elts, st)]
    def e_List(self, e, st):
        return [(self.list_(x, e, items=vs), x) for vs, x in self.evs(e.elts, st)]
    def e_Set(self, e, st):
        return [(self.list_(x, e, items=vs, kind='set'), x) for vs, x in self.evs(e.elts, st)]
    def e_Dict(self, e, st):
        out = []
        ks = [k for k in e.keys]
        if any(k is None for k in ks):
            for vs, x in self.evs(e.values, st):
                it = {}; ok = True
                for k, v in zip(ks, vs):
                    if k is None:
                        d = self.ext.dict_items(self, x, v)
                        if d is None: ok = False
                        else: it.update(d)
                    else:
                        kv = self.ev(k, x)[0][0]
                        if kv.c is NOC: ok = False
                        else: it[kv.c] = v
                out.append((self.mkdict(x, e, it if ok else None, vs), x))
            return out
        for kv, x in self.evs(ks, st):
            for vs, y in self.evs(e.values, x):
                it = {k.c: v for k, v in zip(kv, vs)} if all(k.c is not NOC and _hashable(k.c) for k in kv) else None
                out.append((self.mkdict(y, e, it, vs), y))
        return out
    def mkdict(self, st, node, items, vs=(), tag=''):
        el = None
        if items is None:
            for v in vs: el = v if el is None else vjoin(el, v)
        loc = self.alloc(st, node, Cell('dict', elem=el, items=items), tag)
        return V('dict', locs=frozenset([loc]), shape=(D(len(items)),) if items is not None else (None,))
    def e_JoinedStr(self, e, st):
        out = []
        for vs, x in self.evs([v for v in e.values], st):
            deps = E0.union(*[v.deps for v in vs]) if vs else E0
            if all(v.c is not NOC for v in vs):
                try: out.append((vconst(''.join(str(v.c) for v in vs)).dep(deps), x)); continue
                except Unsupported: pass
            out.append((V('str', deps=deps, t=term('fmt', *[v.t for v in vs])), x))
        return out
    def e_FormattedValue(self, e, st):
        out = []
        for v, x in self.ev(e.value, st):
            if v.c is not NOC and v.k in ('str', 'num', 'bool', 'none') and e.format_spec is None and e.conversion == -1:
                out.append((V('str', c=str(v.c), deps=v.deps, t=v.t), x))
            else:
                d = v.deps | (self.content(x, v, 'unk').deps if v.k in ('arr', 'list') else E0)
                out.append((V('str', deps=d, t=v.t if e.format_spec is None else None), x))
        return out
    def e_Attribute(self, e, st):
        return [r for o, x in self.ev(e.value, st) for r in self.getattr_(o, e.attr, x, e)]
    def getattr_(self, o, name, st, node):
        if o.k == 'inst' and isinstance(o.c, ClassInfo):
            p = self.lookup_live(st, o.c, name)
            if p is not None and p[1].k == 'prop':
                if p[1].c.get is None: self.raise_(st, 'AttributeError', node); return []
                return self.call_func(p[1].c.get, [o], {}, st, node)
            r = None
            for l in o.locs:
                c = self.cell(st, l)
                if c and c.attrs and name in c.attrs:
                    r = c.attrs[name] if r is None else vjoin(r, c.attrs[name])
            if r is not None:
                self.event('attrload', node, loc=o.locs, attr=name, locks=st.locks)
                return [(r.dep(o.deps), st)]
            if name == '__class__': return [(V('cls', c=o.c), st)]
            if name == '__dict__':
                c = self.cell(st, next(iter(o.locs))) if len(o.locs) == 1 else None
                if c is None or c.multi: return [(vany(), st)]
                return [(self.mkdict(st, node, dict(c.attrs or {})).r(t=('selfdict', next(iter(o.locs)))), st)]
            if p is not None: return [(self.bind(p[1], o, p[0]), st)]
            if any(not isinstance(b, ClassInfo) and b not in ('object', 'builtins.object') for k in self.mro(o.c) for b in k.bases):
                return [(vany(o.deps), st)]
            self.raise_(st, 'AttributeError', node); return []
        if o.k == 'super':
            cls, inst = o.c
            p = self.lookup_live(st, inst.c, name, after=cls)
            if p is None:
                return [(V('func', c=('noop', name, None)), st)]
            if p[1].k == 'prop': return self.call_func(p[1].c.get, [inst], {}, st, node)
            return [(self.bind(p[1], inst, p[0]), st)]
        if o.k == 'cls' and isinstance(o.c, ClassInfo):
            p = self.lookup_live(st, o.c, name)
            if p is not None:
                self.event('classload', node, cls=p[0].name, attr=name, locks=st.locks, value=p[1])
                if self.tracing and p[1].k != 'func': self.tr(st, 'load', p[0].name + '.' + name, node)
                v = p[1]
                if v.k == 'func' and v.c[0] == 'classmethod': return [(V('func', c=('bound', v.c[1], o)), st)]
                if v.k == 'func' and v.c[0] == 'cwrap': return [(V('func', c=('partial', v.c[1], ((o,), {}))), st)]
                if v.k == 'func' and v.c[0] in ('staticmethod',): return [(V('func', c=('user', v.c[1], None)), st)]
                if v.k == 'func' and v.c[0] == 'swrap': return [(v.c[1], st)]
                return [(v, st)]
            if name == '__name__': return [(vconst(o.c.name), st)]
            if any(not isinstance(b, ClassInfo) and b not in ('object', 'builtins.object') for k in self.mro(o.c) for b in k.bases): return [(vany(), st)]
            self.raise_(st, 'AttributeError', node); return []
        if o.k == 'mod':
            if o.c in self.modules:
                c = self.cell(st, 'mod:' + o.c)
                if c and name in c.attrs:
                    if self.tracing and c.attrs[name].k not in ('cls', 'func', 'mod'): self.tr(st, 'load', o.c + '.' + name, node)
                    return [(c.attrs[name], st)]
                if o.c + '.' + name in self.modules: return [(self.modv(o.c + '.' + name), st)]
                self.raise_(st, 'AttributeError', node); return []
            return [(self.ext.resolve(self, o.c + '.' + name), st)]
        return self.ext.getattr_(self, o, name, st, node)
    def bind(self, v, o, cls):
        if v.k == 'func':
            k = v.c[0]
            if k == 'user': return V('func', c=('bound', v.c[1], o))
            if k == 'staticmethod': return V('func', c=('user', v.c[1], None))
            if k == 'classmethod': return V('func', c=('bound', v.c[1], V('cls', c=o.c)))
            if k == 'swrap': return v.c[1]
            if k == 'cwrap': return V('func', c=('partial', v.c[1], ((V('cls', c=o.c),), {})))
            if k in ('partial', 'cached', 'bound'): return V('func', c=('partial', v, ((o,), {})))
        return v
    def e_Subscript(self, e, st):
        return [r for o, x in self.ev(e.value, st) for i, y in self.ev(e.slice, x) for r in self.getitem(o, i, y, e)]
    def getitem(self, o, i, st, node): return self.ext.getitem(self, o, i, st, node)
    def setitem(self, o, i, v, st, node): return self.ext.setitem(self, o, i, v, st, node)
    def e_Slice(self, e, st):
        out = []
        for vs, x in self.evs([z if z is not None else ast.copy_location(ast.Constant(None), e) for z in (e.lower, e.upper, e.step)], st):
            out.append((V('slice', c=tuple(vs), deps=E0.union(*[v.deps for v in vs])), x))
        return out
    def e_Starred(self, e, st): raise Unsupported('starred')
    def e_UnaryOp(self, e, st):
        return [r for v, x in self.ev(e.operand, st) for r in self.unop(type(e.op).__name__, v, x, e)]
    def unop(self, op, v, st, node): return self.ext.unop(self, op, v, st, node)
    def e_BinOp(self, e, st):
        return [r for a, x in self.ev(e.left, st) for b, y in self.ev(e.right, x) for r in self.binop(type(e.op).__name__, a, b, y, e)]
    def binop(self, op, a, b, st, node): return self.ext.binop(self, op, a, b, st, node)
    def evtest(self, e, st):
        """A condition, of which only the truth matters."""
        if isinstance(e, ast.BoolOp): return self.e_BoolOp(e, st, True)
        return self.ev(e, st)
    def e_BoolOp(self, e, st, testing=False):
        isand = isinstance(e.op, ast.And)
        res = []
        cur = [(None, st)]
        for i, sub in enumerate(e.values):
            nxt = []
            for acc, x in cur:
                for v, y in (self.evtest(sub, x) if testing else self.ev(sub, x)):
                    t = self.truth(v, y)
                    stop = (t is False) if isand else (t is True)
                    w = v if acc is None else v.dep(acc)
                    if i == len(e.values) - 1: res.append((w if t is not None or acc is None else w, y))
                    elif stop: res.append((w, y))
                    elif t is not None: nxt.append(((acc or E0) | v.deps, y) if acc or v.deps else (None, y))
                    else:
                        # both: short circuit, or continue
                        z = y.copy()
                        d = (acc or E0) | v.deps
                        self.onpath(z, v, not isand); self.onpath(y, v, isand)
                        if self.refine(sub, z, not isand):
                            res.append((V('bool', c=(not isand), dt=DB, deps=d, lin=v.lin) if v.k == 'bool' or testing and v.k in ('num', 'any') else v.dep(d) if not isand or v.k != 'num' or not v.dt else v.r(c=0.0 if 'f' in v.dt else 0, t=('c', 0.0), iv=(0, True, 0, True), d=None).dep(d), z))
                        if self.refine(sub, y, isand): nxt.append((d, y))
            cur = nxt
        # recombine boolean outcomes on equal states, to keep a single undecided condition
        if len(res) > 1 and not SPLIT and all(v.k == 'bool' or testing and v.k in ('num', 'any') for v, _ in res):
            if all(x.same(res[0][1]) for _, x in res[1:]):
                deps = E0.union(*[v.deps for v, _ in res])
                cs = {v.c if v.c is not NOC else None for v, _ in res}
                lin = res[0][0].lin
                for v, _ in res[1:]: lin = 'N' if 'N' in (lin, v.lin) else ('U' if 'U' in (lin, v.lin) else (v.lin if lin in ('K','Z') else lin))
                c = cs.pop() if len(cs) == 1 else None
                return [(V('bool', c=NOC if c is None else c, dt=DB, deps=deps, lin=lin), res[0][1])]
        return res
    def e_Compare(self, e, st):
        cur = [(None, None, st)]
        out = []
        for left, x in self.ev(e.left, st):
            acc = [(left, None, x)]
            for op, c in zip(e.ops, e.comparators):
                nxt = []
                for l, res, y in acc:
                    for r, z in self.ev(c, y):
                        for v, w in self.ext.compare(self, type(op).__name__, l, r, z, e):
                            if res is not None: v = self.ext.band(v, res)
                            nxt.append((r, v, w))
                acc = nxt
            out += [(v, w) for _, v, w in acc]
        return out
    def e_IfExp(self, e, st):
        out = []
        for v, x in self.evtest(e.test, st):
            t = self.truth(v, x)
            if t is not None:
                d = v.deps if self.known(e.test, v) else E0
                out += [(w.dep(d), q) for w, q in self.ev(e.body if t else e.orelse, x)]
            else:
                pc, sig = x.pc, x.sig
                y = x.copy()
                m = self.sigmark(v)
                r = []
                for sub, z, val in ((e.body, x, True), (e.orelse, y, False)):
                    self.onpath(z, v, val)
                    if not self.refine(e.test, z, val): continue
                    z.pc = pc | v.deps
                    if m: z.sig = 'N' if 'N' in (m, sig) else 'U'
                    for w, q in self.ev(sub, z):
                        w = self.pcv(q, w) if w.k in ('num', 'bool', 'str') else w.dep(q.pc)
                        q.pc, q.sig = pc, sig
                        r.append((w, q))
                out += self.mergev(r)
        return out
    def mergev(self, r):
        if len(r) <= 1: return r
        groups = {}
        for v, s in r: groups.setdefault((repr(self.vsig(v, False)), self.ssig(s, False)), []).append((v, s))
        out = []
        for g in groups.values():
            v, s = g[0]
            for w, q in g[1:]: v = vjoin(v, w); s = self.join(s, q)
            out.append((v, s))
        return out
    def e_Lambda(self, e, st):
        return self.mkfunc(e, st, None)
    def e_NamedExpr(self, e, st):
        out = []
        for v, x in self.ev(e.value, st):
            self.setname(x, e.target.id, v, e); out.append((v, x))
        return out
    def e_ListComp(self, e, st): return self.comp(e, st, 'list')
    def e_SetComp(self, e, st): return self.comp(e, st, 'set')
    def e_GeneratorExp(self, e, st): return self.comp(e, st, 'gen')
    def e_DictComp(self, e, st): return self.comp(e, st, 'dict')
    def comp(self, e, st, kind):
        out = []
        saved = None if st.env is None else dict(st.env)
        isnone = st.env is None
        if isnone: st.env = {}
        def elt(x):
            if kind == 'dict':
                return [((k, v), z) for k, y in self.ev(e.key, x) for v, z in self.ev(e.value, y)]
            return self.ev(e.elt, x)
        def gen(i, x, exact):
            """list of ( list of element values or None, summary, length, state )"""
            if i == len(e.generators):
                return [([v], y) for v, y in elt(x)]
            g = e.generators[i]
            res = []
            for it, y in self.ev(g.iter, x):
                its = self.iter_items(y, it)
                if its is not None and len(its) <= MAXITEMS:
                    cur = [([], y)]; cx = self.ctx
                    for k, el in enumerate(its):
                        nxt = []; self.ctx = cx + (f'#{k}',)
                        for acc, z in cur:
                            for w in self.assign(g.target, el, z, e):
                                ok = [(True, w)]
                                for c in g.ifs:
                                    nk = []
                                    for t, q in ok:
                                        if t is False: nk.append((t, q)); continue
                                        for cv, q2 in self.ev(c, q):
                                            tv = self.truth(cv, q2)
                                            nk.append((t if tv is True else (False if tv is False else None), q2))
                                    ok = nk
                                for t, q in ok:
                                    if t is False: nxt.append((acc, q))
                                    else:
                                        for sub, q2 in gen(i + 1, q, exact):
                                            if t is None: nxt.append((('fuzzy', acc, sub), q2))
                                            else: nxt.append((acc + sub if isinstance(acc, list) and isinstance(sub, list) else ('fuzzy', acc, sub), q2))
                        cur = nxt
                    self.ctx = cx
                    res += cur
                else:
                    elem, must, empty, info = self.iter_abs(y, it, e)
                    if empty: res.append(([], y)); continue
                    self.loops.append(info)
                    try:
                        for w in self.assign(g.target, elem(y, 2), y, e):
                            qs = [w]; filt = False
                            for c in g.ifs:
                                nq = []
                                for q in qs:
                                    for cv, q2 in self.ev(c, q):
                                        tv = self.truth(cv, q2)
                                        if tv is not False: nq.append(q2)
                                        if tv is not True: filt = True
                                qs = nq
                            for q in qs:
                                for sub, q2 in gen(i + 1, q, False):
                                    res.append((('many', sub, None if filt else info.get('length'), must and not filt), q2))
                    finally: self.loops.pop()
            return res
        for acc, x in gen(0, st, True):
            if isnone: x.env = None
            else:
                for g in e.generators:
                    for n in ast.walk(g.target):
                        if isinstance(n, ast.Name):
                            if n.id in saved: x.env[n.id] = saved[n.id]
                            else: x.env.pop(n.id, None)
            out.append((self.mkcomp(x, e, acc, kind), x))
        return out
    def mkcomp(self, st, e, acc, kind):
        def flat(a):
            if isinstance(a, list): return a
            if a[0] == 'many': return flat(a[1])
            return flat(a[1]) + flat(a[2])
        if isinstance(acc, list):
            if kind == 'dict':
                if all(k.c is not NOC and _hashable(k.c) for k, _ in acc): return self.mkdict(st, e, {k.c: v for k, v in acc})
                return self.mkdict(st, e, None, [v for _, v in acc])
            return self.marked(self.list_(st, e, items=acc, kind='list' if kind == 'gen' else kind), 'a generator' if kind == 'gen' else None)
        vals = flat(acc)
        length = None; must = False
        if acc[0] == 'many' and isinstance(acc[1], list) and len(acc[1]) == 1: length = acc[2]; must = acc[3]
        if kind == 'dict': return self.mkdict(st, e, None, [v for _, v in vals])
        el = None
        for v in vals: el = v if el is None else vjoin(el, v)
        if el is not None:
            el = el.r(deps=frozenset('el' + d[3:] if isinstance(d, str) and d.startswith('cur:') else d for d in el.deps), cur=el.cur if self.isview(el) else None)
        lv = self.list_(st, e, elem=el, length=length if kind != 'set' else None, kind='list' if kind == 'gen' else kind)
        return self.marked(lv, 'a generator' if kind == 'gen' else None)
    def marked(self, v, what):
        """Remembers that this very value is something pickle refuses."""
        if what: self.marks[id(v)] = (v, what)
        return v
    def e_Call(self, e, st):
        out = []
        # zero argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = self.stack[-1][0]
            selfname = f.node.args.args[0].arg if f.node.args.args else None
            o = st.env.get(selfname)
            if o is not None and o.k == 'cls': return [(V('super', c=(self.classes[f.cls], V('inst', c=o.c))), st)]
            return [(V('super', c=(self.classes[f.cls], o)), st)]
        for fv, x in self.ev(e.func, st):
            for args, y in self.evs(e.args, x):
                kws = [([], y)]
                for kw in e.keywords:
                    nk = []
                    for acc, z in kws:
                        for v, w in self.ev(kw.value, z):
                            if kw.arg is None:
                                d = self.ext.dict_items(self, w, v)
                                nk.append((acc + (list(d.items()) if d is not None else [('**', v)]), w))
                            else: nk.append((acc + [(kw.arg, v)], w))
                    kws = nk
                for kl, z in kws:
                    out += self.call(fv, list(args), dict(kl), z, e)
        return out if len(out) <= 1 else self.mergev(out)
    def call(self, fv, args, kw, st, node):
        self.calls_seen += 1
        if fv.k == 'func':
            k = fv.c[0]
            if k in ('user', 'bound', 'staticmethod'):
                a = ([fv.c[2]] if k == 'bound' else []) + args
                return self.call_func(V('func', c=('user', fv.c[1], None)), a, kw, st, node)
            if k == 'noop': return [(NONE, st)]
            if k == 'partial':
                pa, pk = fv.c[2]
                return self.call(fv.c[1], list(pa) + args, {**pk, **kw}, st, node)
            if k == 'cached':
                r = self.call(fv.c[1], args, kw, st, node)
                return [(self.ext.mark_cached(self, v, s, node), s) for v, s in r]
            if k == 'method': return self.ext.method(self, fv.c[1], fv.c[2], args, kw, st, node)
            if k == 'ext': return self.ext.call(self, fv.c[1], args, kw, st, node)
            if k == 'wrapper': return [(args[0], st)] if args else [(vany(), st)]
            raise Unsupported(f'call {k}')
        if fv.k == 'cls':
            if isinstance(fv.c, ClassInfo): return self.construct(fv.c, args, kw, st, node)
            return self.ext.call(self, fv.c, args, kw, st, node)
        if fv.k == 'inst' and isinstance(fv.c, ClassInfo):
            p = self.lookup_live(st, fv.c, '__call__')
            if p: return self.call(self.bind(p[1], fv, p[0]), args, kw, st, node)
        return self.ext.unknown_call(self, fv, args, kw, st, node)
    def construct(self, ci, args, kw, st, node, stubbed=False):
        if not stubbed and ci.name in self.stubs: return self.stubs[ci.name](self, ci, args, kw, st, node)
        mro = self.exc_mro(ci.name)
        if mro and 'BaseException' in mro: return [(V('exc', c=ci.name), st)]
        loc = self.alloc(st, node, Cell('inst', attrs={}, cls=ci.name), tag='I' + ci.name)
        o = V('inst', c=ci, locs=frozenset([loc]))
        p = self.lookup_live(st, ci, '__init__')
        if p is None: return [(o, st)]
        return [(o, s) for _, s in self.call_func(self.bind(p[1], o, p[0]), args, kw, st, node)]
    def call_func(self, fv, args, kw, st, node):
        if fv.k != 'func': return self.call(fv, args, kw, st, node)
        k = fv.c[0]
        if k == 'bound': args = [fv.c[2]] + args
        elif k in ('partial', 'cached', 'ext', 'noop', 'swrap', 'cwrap'): return self.call(fv, args, kw, st, node)
        f = fv.c[1]
        if self.fstubs and (f.cls, f.name) in self.fstubs: return self.fstubs[f.cls, f.name](self, f, args, kw, st, node)
        if sum(1 for g, _ in self.stack if g.node is f.node) >= RECUR or len(self.stack) > 24:
            self.event('recursion', node, func=f.name)
            return self.ext.unknown_call(self, fv, args, kw, st, node)
        env = self.bindargs(f, args, kw, st, node)
        if env is None: return []
        self.inlined.add((f.mod, f.cls, f.name))
        caller_env, pc, sig, exc = st.env, st.pc, st.sig, st.exc
        st.env = env
        self.stack.append((f, node)); self.sinks.append([])
        ctx = self.ctx
        self.ctx = ctx + (f'{getattr(node, "lineno", 0)}.{getattr(node, "col_offset", 0)}',) if len(ctx) < 4 * RECUR else ctx
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [Out('return', x, v) for v, x in self.ev(f.node.body, st)]
            else:
                if self.isgen(f.node): raise Unsupported('generator')
                outs = self.block(f.node.body, st)
        finally:
            sink = self.sinks.pop(); self.stack.pop(); self.ctx = ctx
        res = []
        for o in outs + sink:
            o.st.env = dict(caller_env) if caller_env is not None else None
            if o.kind == 'raise': self.sinks[-1].append(o); continue
            v = o.v if o.kind == 'return' else NONE
            if v.k in ('num', 'bool', 'str'): v = self.pcv(o.st, v)
            elif o.st.pc - pc: v = v.dep(o.st.pc)
            o.st.pc, o.st.sig, o.st.exc = pc, sig, exc
            res.append((v, o.st))
        return self.mergev(res)
    def isgen(self, n):
        g = getattr(n, '_isgen', None)
        if g is None:
            g = False
            work = list(n.body)
            while work:
                x = work.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)): g = True; break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
                work += list(ast.iter_child_nodes(x))
            n._isgen = g
        return g
    def bindargs(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        rest = kw.pop('**', None)
        if len(args) > len(names):
            if not a.vararg: self.raise_(st, 'TypeError', node); return None
        for n, v in zip(names, args): env[n] = v
        if a.vararg: env[a.vararg.arg] = V('tuple', c=tuple(args[len(names):]))
        for n in list(kw):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in env: self.raise_(st, 'TypeError', node); return None
                env[n] = kw.pop(n)
        if a.kwarg: env[a.kwarg.arg] = self.mkdict(st, node, kw, tag='kw')
        elif kw: self.raise_(st, 'TypeError', node); return None
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            if n not in env: env[n] = d
        for n in [x.arg for x in a.kwonlyargs]:
            if n not in env and n in f.kwdefaults: env[n] = f.kwdefaults[n]
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if rest is not None: env[n] = vany(rest.deps)
                else: self.raise_(st, 'TypeError', node); return None
        return env
    def e_Await(self, e, st): raise Unsupported('await')
    def e_Yield(self, e, st): raise Unsupported('yield')

    def truth(self, v, st): return self.ext.truth(self, v, st)

def _hashable(x):
    try: hash(x); return True
    except TypeError: return False
