"""Transfer functions of builtins and external libraries."""
import ast, cmath, math, operator
from .dom import *
from . import interp as _ip, poly
ip = _ip

def _m():
    return _ip
Unsupported = None
def _late():
    global Unsupported, ClassInfo, term, tnorm, vconst, vnum, vany, vdim, NONE, Cell, Func, Out
    Unsupported = _ip.Unsupported; ClassInfo = _ip.ClassInfo; term = _ip.term; tnorm = _ip.tnorm; vconst = _ip.vconst; vnum = _ip.vnum
    vany = _ip.vany; vdim = _ip.vdim; NONE = _ip.NONE; Cell = _ip.Cell; Func = _ip.Func; Out = _ip.Out

_late()
NUMT = (int, float, complex)
def isnumc(v): return v.c is not NOC and isinstance(v.c, NUMT)
def vbool(b=None, deps=E0, lin='K', t=None):
    if b is None: return V('bool', dt=DB, iv=(0, True, 1, True), deps=deps, lin=lin, t=t)
    return vconst(bool(b)).r(deps=deps, lin='K', t=t if t is not None else ('c', bool(b)))
def vstr(deps=E0, t=None): return V('str', deps=deps, t=t)
def dj(*vs):
    r = E0
    for v in vs:
        if v is not None: r = r | v.deps
    return r
def cmplin(*vs):
    ls = [v.lin for v in vs]
    if all(l in ('Z', 'K') for l in ls): return 'K'
    return 'U' if 'U' in ls else 'N'
def func(name): return V('func', c=('ext', name))

# ------------------------------------------------------------------ names
MODS = {'numpy', 'numpy.fft', 'numpy.linalg', 'numpy.random', 'numpy.lib', 'numpy.lib.stride_tricks', 'numpy.polynomial', 'numpy.polynomial.polynomial', 'numpy.typing', 'numpy.ma', 'numpy.testing', 'scipy', 'scipy.signal', 'scipy.signal.windows', 'scipy.fft', 'scipy.linalg', 'scipy.stats', 'scipy.special',
        'sklearn', 'sklearn.mixture', 'math', 'cmath', 'warnings', 'os', 'os.path', 'sys', 're', 'json', 'io', 'gzip', 'zlib', 'bz2', 'lzma', 'base64', 'hashlib', 'pickle', 'copy', 'time', 'datetime', 'random', 'threading', 'contextlib', 'functools', 'itertools', 'operator', 'pathlib', 'typing', 'collections', 'collections.abc',
        'requests', 'requests.exceptions', 'requests.adapters', 'requests.auth', 'urllib', 'urllib.parse', 'logging', 'binascii', 'traceback', 'importlib', 'importlib.metadata', 'abc', 'enum', 'dataclasses', 'types', 'inspect', 'weakref', 'secrets', 'uuid', 'socket', 'tempfile', 'shutil', 'subprocess', 'glob', 'numbers', 'builtins', 'fractions', 'decimal', 'string', 'textwrap', 'struct', 'array', 'heapq', 'bisect', 'statistics', 'codecs', 'locale', 'gc', 'atexit', 'signal', 'multiprocessing', 'concurrent', 'concurrent.futures', 'queue', 'hmac', 'cloudpickle', 'dill', 'atexit', '__future__'}
CONSTS = {'math.pi': math.pi, 'math.e': math.e, 'math.tau': math.tau, 'math.inf': math.inf, 'math.nan': math.nan, 'cmath.pi': math.pi, 'numpy.pi': math.pi, 'numpy.e': math.e, 'numpy.inf': math.inf, 'numpy.Inf': math.inf, 'numpy.nan': math.nan, 'numpy.newaxis': None, 'numpy.euler_gamma': 0.5772156649015329,
          'pickle.HIGHEST_PROTOCOL': 5, 'pickle.DEFAULT_PROTOCOL': 4, 'sys.maxsize': 2 ** 63 - 1, 'numpy.True_': True, 'numpy.False_': False}
DTYPES = {}
for _n in 'float float_ float64 float32 float16 float128 longdouble double single half floating'.split(): DTYPES[_n] = DF
for _n in 'int int_ int64 int32 int16 int8 intp long longlong integer signedinteger uint uint8 uint16 uint32 uint64 uintp unsignedinteger'.split(): DTYPES[_n] = DI
for _n in 'complex complex_ complex128 complex64 complex256 cdouble csingle clongdouble complexfloating'.split(): DTYPES[_n] = DC
for _n in 'bool bool_ bool8'.split(): DTYPES[_n] = DB
ABST = {'numpy.number': 'ifc', 'numpy.inexact': 'fc', 'numpy.integer': 'i', 'numpy.signedinteger': 'i', 'numpy.unsignedinteger': '', 'numpy.floating': 'f', 'numpy.complexfloating': 'c', 'numpy.bool_': 'b', 'numpy.generic': 'bifc', 'numpy.ndarray': '',
        'builtins.float': 'f', 'builtins.complex': 'c', 'builtins.int': 'i', 'builtins.bool': 'b', 'numbers.Number': 'bifc', 'numbers.Complex': 'bifc', 'numbers.Real': 'bif', 'numbers.Integral': 'bi', 'numbers.Rational': 'bi', 'builtins.object': 'bifc'}
CLSN = {'numpy.ndarray', 'numpy.generic', 'numpy.dtype', 'collections.abc.Callable', 'collections.abc.Sequence', 'collections.abc.Iterable', 'collections.abc.Mapping', 'typing.Any', 'typing.ClassVar', 'typing.Callable', 'requests.Response', 'requests.Session', 'threading.RLock', 'threading.Lock', 'sklearn.mixture.GaussianMixture', 'pathlib.Path', 'io.BytesIO', 'io.StringIO', 'io.IOBase', 'io.TextIOBase', 'numpy.number', 'numpy.inexact',
        'requests.exceptions.RequestException', 'requests.RequestException', 'requests.exceptions.HTTPError', 'requests.HTTPError', 'requests.exceptions.ConnectionError', 'requests.ConnectionError', 'requests.exceptions.Timeout', 'requests.Timeout', 'gzip.BadGzipFile', 'zlib.error', 'pickle.UnpicklingError', 'pickle.PicklingError', 'binascii.Error', 'numpy.linalg.LinAlgError', 'warnings.catch_warnings', 'contextlib.suppress', 'functools.partial', 'collections.OrderedDict', 'collections.defaultdict', 'collections.deque', 'abc.ABC', 'enum.Enum', 'types.MappingProxyType', 'array.array', 'sklearn.exceptions.NotFittedError', 'typing.NamedTuple', 'numbers.Number', 'numbers.Real', 'numbers.Complex', 'numbers.Integral'}
CACHE = {}
def resolve(I, name):
    if name.startswith(I.package + '.') or name == I.package: return vany()
    for a, b in (('numpy.core.', 'numpy.'), ('numpy._core.', 'numpy.'), ('scipy.signal.windows.', 'scipy.signal.'), ('numpy.polynomial.polynomial.', 'numpy.polynomial.')):
        if name.startswith(a) and name not in MODS: name = b + name[len(a):]
    if name in CONSTS: return vconst(CONSTS[name])
    if name in MODS: return V('mod', c=name)
    if name in CLSN: return V('cls', c=name)
    m, _, n = name.rpartition('.')
    if m == 'numpy' and n in DTYPES: return V('cls', c='numpy.' + n)
    if name in ('sys.stdout', 'sys.stderr', 'sys.stdin'): return V('ext', c=('stream', n), t=('ext', name))
    if name == 'loguru.logger': return V('ext', c=('logger', 'logger'), t=('ext', name))
    if name in ('os.environ', 'sys.argv', 'sys.path', 'sys.modules'): I.event('extcall', None, name=name, args=[], kw={}, locks=(), state=None); return vany(frozenset(['env']))
    if m == 'typing' or m == 'collections.abc': return V('cls', c=name)
    if n[:1].isupper() and n.endswith(('Error', 'Exception', 'Warning')): return V('cls', c=name)
    return func(name)

BUILTIN_FUNCS = set('abs all any bin callable chr delattr divmod enumerate exec eval filter format getattr globals hasattr hash hex id input isinstance issubclass iter len locals map max min next oct open ord pow print range repr reversed round setattr sorted sum vars zip __import__ breakpoint compile dir memoryview'.split())
BUILTIN_CLS = set('bool bytearray bytes complex dict float frozenset int list object set slice str tuple type property staticmethod classmethod'.split())
def builtin(I, name):
    if name in BUILTIN_FUNCS: return func('builtins.' + name)
    if name in BUILTIN_CLS: return V('cls', c='builtins.' + name)
    if name in ('True', 'False'): return vconst(name == 'True')
    if name == 'NotImplemented' or name == 'Ellipsis': return V('ellipsis')
    import builtins as b
    x = getattr(b, name, None)
    if isinstance(x, type) and issubclass(x, BaseException): return V('cls', c='builtins.' + name)
    if name in ('__name__', '__file__', '__doc__'): return vstr()
    return None

def todt(I, v):
    """Element kinds denoted by a dtype expression, or None."""
    if v is None or v.k == 'none': return None
    if v.k == 'dtype': return v.dt
    if v.k == 'cls' and isinstance(v.c, str): return DTYPES.get(v.c.rsplit('.', 1)[-1])
    if v.k == 'str' and v.c is not NOC:
        s = v.c.lstrip('<>=|')
        return {'f': DF, 'i': DI, 'u': DI, 'c': DC, 'b': DB, 'F': DC, 'D': DC, 'd': DF, 'l': DI, '?': DB}.get(s[:1]) if s not in DTYPES else DTYPES[s]
    if v.k == 'func' and v.c[0] == 'ext': return DTYPES.get(v.c[1].rsplit('.', 1)[-1])
    return None
def isdtf(n): return n.rsplit('.', 1)[-1] in DTYPES or n.rsplit('.', 1)[-1][:1].isupper() or 'typing' in n or n.startswith(('builtins.', 'collections.'))
def isdt(v): return v.k in ('dtype', 'cls') or (v.k == 'str') or (v.k == 'func' and v.c[0] == 'ext')

# ------------------------------------------------------------------ scalars
PYOP = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow,
        'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift}
OPN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'FloorDiv': 'fdiv', 'Mod': 'mod', 'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'shl', 'RShift': 'shr'}
def asnum(v):
    if v.k in ('num', 'bool'): return v
    return V('num', dt=v.dt, deps=v.deps, lin='U' if v.lin not in ('K', 'Z') or v.deps else v.lin, t=v.t)
def sbin(op, a, b):
    a, b = asnum(a), asnum(b)
    deps = a.deps | b.deps
    if isnumc(a) and isnumc(b):
        try:
            r = PYOP[op](a.c, b.c)
            if isinstance(r, NUMT) and not (isinstance(r, int) and abs(r) > 1 << 70):
                v = vconst(r)
                return v.r(deps=deps, t=v.t, mv=frozenset(['const']) if not (a.mv == 'A' or b.mv == 'A') else 'A')
        except Exception: pass
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
        dt = promote(a.dt, b.dt)
        if dt == DB:
            c = None
            if op == 'BitAnd' and (a.c is False or b.c is False) and a.c is not NOC or op == 'BitAnd' and b.c is False: c = False
            if op == 'BitOr' and (a.c is True or b.c is True): c = True
            return vbool(c, deps, cmplin(a, b), tnorm(OPN[op], a.t, b.t))
        return V('num', dt=dt, deps=deps, lin=cmplin(a, b), t=tnorm(OPN[op], a.t, b.t), mv='A', d=None, iv=(0, True, b.c, True) if op == 'BitAnd' and isnumc(b) and b.c >= 0 else None)
    dt = promote(a.dt, b.dt)
    if dt is not None and op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod', 'Pow'): dt = atleast(dt, 'i')
    if op == 'Div': dt = atleast(dt, 'f')
    if op == 'Pow' and dt == DI and not (isnumc(b) and b.c >= 0) and not (b.iv is not None and b.iv[0] >= 0): dt = frozenset('if')
    iv = d = None
    cplx = dt is not None and 'c' in dt
    if op == 'Add': lin = ladd(a.lin, b.lin); iv = ivadd(a.iv, b.iv)
    elif op == 'Sub': lin = ladd(a.lin, b.lin); iv = ivsub(a.iv, b.iv)
    elif op == 'Mult': lin = lmul(a.lin, b.lin); iv = ivmul(a.iv, b.iv)
    elif op == 'Div':
        lin = ldiv(a.lin, b.lin); iv = ivdiv(a.iv, b.iv)
        if iv is None and b.dt == DI and b.iv is not None and b.iv[0] >= 0 and a.iv is not None and a.iv[0] >= 0: iv = (0.0, True, INF, False)  # a count is not negative
    elif op == 'Pow':
        iv = None
        if a.lin == 'Z': lin = 'Z' if isnumc(b) and (b.c > 0 if not isinstance(b.c, complex) else False) else 'K'
        elif a.lin == 'K': lin = lnon(b.lin)
        elif a.lin in ('U', 'N'): lin = a.lin
        elif b.c is not NOC and isinstance(b.c, (int, float)): lin = a.lin if b.c == 1 else ('A', deg(a.lin) * b.c)
        elif b.lin in ('K', 'Z') and b.t is not None: lin = ('A', ('*', deg(a.lin), b.t))
        else: lin = 'U'
        if isinstance(lin, tuple) and isinstance(lin[1], float) and lin[1] == int(lin[1]): lin = ('A', int(lin[1]))
        if a.iv is not None:
            if isnumc(b) and isinstance(b.c, int) and b.c > 0 and b.c % 2 == 0:
                m = ivabs(a.iv)
                try: iv = (m[0] ** b.c, m[1], m[2] ** b.c if m[2] < 1e100 else INF, m[3])
                except OverflowError: iv = (0.0, True, INF, False)
            elif a.iv[0] > 0: iv = (0.0, True, INF, False) if not (isnumc(b) and b.c == 0.5) else (a.iv[0] ** 0.5, a.iv[1], INF if a.iv[2] == INF else a.iv[2] ** 0.5, a.iv[3])
            elif a.iv[0] >= 0: iv = (0.0, True, INF, False)
        elif not cplx and isnumc(b) and isinstance(b.c, int) and b.c % 2 == 0 and b.c > 0: iv = (0.0, True, INF, False)
    else:
        lin = lnon('K' if a.lin in ('K','Z') and b.lin in ('K','Z') else ('U' if 'U' in (a.lin, b.lin) else 'N')) if not isinstance(a.lin, tuple) and not isinstance(b.lin, tuple) else 'N'
        if op == 'Mod' and isnumc(b) and b.c > 0: iv = (0, True, b.c - 1, True) if dt == DI else (0.0, True, b.c, False)
        elif op == 'FloorDiv' and a.iv is not None and isnumc(b) and b.c > 0 and not isinstance(b.c, complex):
            iv = (a.iv[0] // b.c if abs(a.iv[0]) != INF else a.iv[0], abs(a.iv[0]) != INF, a.iv[2] // b.c if abs(a.iv[2]) != INF else a.iv[2], abs(a.iv[2]) != INF)
    if cplx: iv = None
    if a.d is not None and b.d is not None and (dt is None or dt == DI):
        if op == 'Add': d = a.d.add(b.d)
        elif op == 'Sub': d = a.d.sub(b.d)
        elif op == 'Mult': d = a.d.mul(b.d)
        elif op == 'FloorDiv' and b.d.const: d = a.d.fdiv(b.d.const)
        elif op == 'Mod' and b.d.const and b.d.const > 0: d = a.d.mod(b.d.const) or Dim(0, {('nn', 'mod', a.d, b.d.const): 1})
        elif op == 'Pow' and a.d.const == 2: d = Dim(0, {('nn', 'pow2', b.d): 1})
        if d is not None and d.const is not None and op not in ('Pow',):
            return vconst(d.const).r(deps=deps, mv='A')
        if d is not None and iv is None:
            l = d.low()
            if l is not None: iv = (l, True, INF, False)
    if dt is not None and dt == DI and iv is not None:
        lo, loc, hi, hic = iv
        if abs(lo) != INF and lo == int(lo) and not loc: lo, loc = int(lo) + 1, True
        if abs(hi) != INF and hi == int(hi) and not hic: hi, hic = int(hi) - 1, True
        iv = (lo, loc, hi, hic)
    mv = None if a.mv is None or b.mv is None else 'A'
    if mv == 'A' and a.mv == frozenset(['const']) and b.mv == a.mv: mv = a.mv
    return V('num', dt=dt, iv=iv, deps=deps, lin=lin, mv=mv, t=tnorm(OPN[op], a.t, b.t), d=d)

CMPF = {'Lt': ('<', operator.lt), 'LtE': ('<=', operator.le), 'Gt': ('>', operator.gt), 'GtE': ('>=', operator.ge), 'Eq': ('==', operator.eq), 'NotEq': ('!=', operator.ne)}
CMPLOG = []       # when a list is appended, compared values are recorded ( client C07 )
def scmp(op, a, b):
    if CMPLOG: CMPLOG[-1].append((a, b))
    sym, f = CMPF[op]
    deps = a.deps | b.deps
    lin = cmplin(a, b)
    t = tnorm(op, a.t, b.t)
    if a.c is not NOC and b.c is not NOC and isinstance(a.c, NUMT) and isinstance(b.c, NUMT):
        try: return vbool(f(a.c, b.c), deps, lin, t)
        except TypeError: pass
    r = None
    if a.d is not None and b.d is not None:
        c = dcmp(a.d, b.d)
        if c == 0: r = sym in ('<=', '>=', '==')
        elif c == -1: r = sym in ('<', '<=', '!=')
        elif c == 1: r = sym in ('>', '>=', '!=')
        elif c == 'le' and sym in ('<=', '>'): r = sym == '<='
        elif c == 'ge' and sym in ('>=', '<'): r = sym == '>='
    if r is None: r = ivcmp(sym, a.iv, b.iv)
    return vbool(r, deps, lin, t)

# unary elementwise functions:  name -> ( kind rule, lin rule, interval rule )
def _ivnn(a): return (0.0, True, INF, False)
UN = {}
def _un(names, kd, ln, iv=None):
    for n in names.split(): UN[n] = (kd, ln, iv)
same = lambda d: d
flt = lambda d: atleast(d, 'f')
real = lambda d: None if d is None else frozenset('f' if x == 'c' else x for x in d)
lsame = lambda l: l
_un('negative', same, lsame, ivneg)
_un('positive conjugate conj copy', same, lsame, lambda a: a)
_un('absolute abs fabs', real, labs, ivabs)
_un('real imag', real, lsame)
_un('exp', flt, lnon, lambda a: None if a is None else (0.0, False, INF, False))
_un('exp2 expm1 log log2 log10 log1p sin cos tan arcsin arccos arctan asin acos atan sinh cosh tanh asinh acosh atanh arcsinh arccosh arctanh sinc deg2rad rad2deg degrees radians erf gamma lgamma', flt, lnon)
_un('sqrt', flt, lambda l: l if l in ('Z', 'K', 'U', 'N') else ('A', _half(deg(l))), lambda a: (0.0, True, INF, False))
_un('cbrt', flt, lambda l: lnon(l))
_un('square', same, lambda l: l if l in ('Z', 'K', 'U', 'N') else ('A', 2 * deg(l)), lambda a: None if a is None else (0.0, True, INF, False))
_un('reciprocal', flt, lambda l: ldiv('K', l))
def _ivsign(a):
    if a is None: return (-1, True, 1, True)
    lo = 1 if a[0] > 0 or (a[0] == 0 and not a[1]) else 0 if a[0] == 0 else -1
    hi = -1 if a[2] < 0 or (a[2] == 0 and not a[3]) else 0 if a[2] == 0 else 1
    return (lo, True, hi, True)
_un('sign', real, lambda l: lnon(l), _ivsign)
_un('floor ceil rint trunc fix nan_to_num', same, lnon, None)
_un('angle phase', lambda d: DF, lnon, lambda a: (-math.pi, True, math.pi, True))
_un('signbit isnan isinf isfinite isposinf isneginf logical_not iscomplex isreal', lambda d: DB, lnon, lambda a: (0, True, 1, True))
def _half(d):
    if isinstance(d, (int, float)):
        r = d / 2
        return int(r) if r == int(r) else r
    return ('*', d, ('c', 0.5))
def sun(name, v, t=None):
    kd, ln, iv = UN[name]
    v = asnum(v)
    c = NOC
    if isnumc(v):
        f = getattr(math, name, None) if not isinstance(v.c, complex) else getattr(cmath, name, None)
        if name in ('negative',): f = operator.neg
        elif name in ('absolute', 'abs', 'fabs'): f = abs
        elif name in ('conjugate', 'conj', 'positive', 'copy'): f = (lambda x: x.conjugate()) if name.startswith('conj') else (lambda x: x)
        elif name == 'real': f = lambda x: x.real
        elif name == 'imag': f = lambda x: x.imag
        elif name == 'square': f = lambda x: x * x
        elif name == 'sign': f = lambda x: (x > 0) - (x < 0)
        elif name in ('logical_not',): f = lambda x: not x
        if f is not None:
            try:
                r = f(v.c)
                if isinstance(r, NUMT): return vconst(r).r(deps=v.deps)
            except Exception: pass
    if name in ('iscomplex', 'isreal') and v.dt is not None and v.dt and 'c' not in v.dt: return vconst(name == 'isreal').r(deps=v.deps)
    dt = kd(v.dt)
    r = iv(v.iv) if iv else None
    if v.dt is not None and 'c' in v.dt and name not in ('absolute', 'abs', 'angle', 'phase', 'isnan', 'isfinite', 'isinf'): r = None
    if name in ('absolute', 'abs') and v.dt is not None and 'c' in v.dt: r = (0.0, True, INF, False)
    if name == 'imag' and v.dt is not None and 'c' not in v.dt: return vconst(0.0).r(deps=v.deps)
    mv = None if v.mv is None else ('A' if name not in ('positive', 'copy') else v.mv)
    k = 'bool' if dt == DB else 'num'
    tt = term(name, v.t) if name not in ('positive', 'copy') else v.t
    if name in ('absolute', 'fabs'): tt = term('abs', v.t)
    if name in ('conj',): tt = term('conjugate', v.t)
    d = None
    if name == 'negative' and v.d is not None: d = Dim(0).sub(v.d)
    return V(k, dt=dt, iv=r, deps=v.deps, lin=ln(v.lin), mv=mv, t=tt, d=d)

# ------------------------------------------------------------------ arrays
def elem(I, st, v):
    """Element summary of an array-like operand without relabelling (aligned, elementwise)."""
    if v.k in ('num', 'bool'): return v
    e = I.content(st, v, 'keep')
    if v.k == 'arr' and I.isview(v): e = e.r(t=viewterm(I, st, v, e))
    return e
def viewterm(I, st, v, e):
    if v.t is not None and isinstance(v.t, tuple) and len(v.t) > 1 and v.t[0] == 'view' and v.t[1] == e.t and e.t is not None: return term(*v.t)
    return None
def shp(v):
    if v.k in ('num', 'bool'): return ()
    if v.k == 'tuple' and isinstance(v.c, tuple): return (D(len(v.c)),) + (shp(v.c[0]) or () if v.c and v.c[0].k in ('tuple', 'list', 'arr') and shp(v.c[0]) is not None else ())
    return v.shape
def length(I, st, v):
    """Dim or None."""
    if v.k == 'tuple' and isinstance(v.c, tuple): return D(len(v.c))
    if v.k in ('str', 'bytes'): return D(len(v.c)) if v.c is not NOC else None
    if v.k in ('list', 'set', 'dict'):
        if len(v.locs) == 1:
            c = I.cell(st, next(iter(v.locs)))
            if c is not None:
                if c.items is not None: return D(len(c.items))
                if 'grown' in c.flag: return None
        return v.shape[0] if v.shape else None
    if v.k == 'arr': return v.shape[0] if v.shape else None
    if v.k == 'range':
        a, b, s = v.c
        return rlen(a, b, s)
    if v.k == 'iter' and isinstance(v.c, tuple):
        if v.c[0] == 'items': return D(len(v.c[1]))
        if v.c[0] in ('enumerate', 'reversed', 'map'): return length(I, st, v.c[1])
        if v.c[0] == 'zip':
            ls = [length(I, st, x) for x in v.c[1]]
            if ls and all(l == ls[0] for l in ls): return ls[0]
            if ls and all(l is not None for l in ls):
                for l in ls:
                    if all(dcmp(l, q) in (0, -1, 'le') for q in ls): return l
    return None
def rlen(a, b, s):
    if a is None or b is None or s is None or s.const is None or s.const == 0: return None
    k = s.const
    if k < 0: a, b, k = b.add(Dim(1)), a.add(Dim(1)), -k
    n = b.sub(a)
    l = n.low(); h = Dim(0).sub(n).low()
    if h is not None and h >= 0: return Dim(0)
    if l is None or l < 0:
        if k == 1: return None
        # ceiling of a possibly negative length
        return None
    return n.add(Dim(k - 1)).fdiv(k)
def bshape(I, st, a, b, node):
    """Broadcast shape; None unknown, False incompatible."""
    if a is None or b is None: return None
    n = max(len(a), len(b))
    x = (Dim(1),) * (n - len(a)) + a; y = (Dim(1),) * (n - len(b)) + b
    o = []
    for p, q in zip(x, y):
        if p is None or q is None:
            r = p if q is None else q
            o.append(r if r is not None and r.const != 1 else None)
        elif p == q: o.append(p)
        elif p.const == 1: o.append(q)
        elif q.const == 1: o.append(p)
        else:
            c = dcmp(p, q)
            if c in (1, -1):
                l, h = (p, q) if c == -1 else (q, p)
                ll = l.low()
                if ll is not None and ll >= 2: return False
            o.append(None)
    return tuple(o)

def binop(I, op, a, b, st, node):
    if a.k in ('num', 'bool') and b.k in ('num', 'bool'):
        r = sbin(op, a, b)
        if op in ('Div', 'FloorDiv', 'Mod') and b.iv is not None and b.iv[0] == b.iv[2] == 0 and a.mv == frozenset(['const']) and isnumc(a):
            I.raise_(st, 'ZeroDivisionError', node); return []
        return [(r, st)]
    ks = {a.k, b.k}
    if 'none' in ks and ks <= {'none', 'num', 'bool', 'str', 'list', 'tuple', 'arr', 'dict'}:
        I.raise_(st, 'TypeError', node); return []
    if op == 'MatMult': return matmul(I, [a, b], st, node)
    if 'arr' in ks and ks <= {'arr', 'num', 'bool', 'list', 'tuple', 'any'}:
        return elementwise(I, st, node, [a, b], lambda x, y: sbin(op, x, y))
    if a.k == 'str' or b.k == 'str':
        d = dj(a, b)
        for x in (a, b):
            if x.k in ('list', 'tuple', 'arr'): d = d | I.content(st, x, 'unk').deps
        if op == 'Add':
            if a.k == b.k == 'str':
                if a.c is not NOC and b.c is not NOC: return [(vconst(a.c + b.c).dep(d), st)]
                return [(vstr(d, term('cat', *(cat(a.t) + cat(b.t))) if a.t is not None and b.t is not None else None), st)]
            if ks & {'num', 'bool', 'none', 'list', 'tuple', 'dict'}: I.raise_(st, 'TypeError', node); return []
            return [(vstr(d), st)]
        if op == 'Mult' and a.c is not NOC and b.c is not NOC:
            try: return [(vconst(a.c * b.c).dep(d), st)]
            except TypeError: pass
        return [(vstr(d, term(OPN[op], a.t, b.t)), st)]
    if a.k == 'bytes' or b.k == 'bytes':
        if op == 'Add' and a.k == b.k:
            if a.c is not NOC and b.c is not NOC: return [(vconst(a.c + b.c).dep(dj(a, b)), st)]
            return [(V('bytes', deps=dj(a, b), t=term('cat', a.t, b.t)), st)]
        return [(V('bytes', deps=dj(a, b)), st)]
    if op == 'Add' and a.k == b.k and a.k in ('list', 'tuple'):
        x, y = I.items(st, a), I.items(st, b)
        if x is not None and y is not None:
            if a.k == 'tuple': return [(V('tuple', c=tuple(x) + tuple(y), deps=dj(a, b)), st)]
            return [(I.list_(st, node, items=list(x) + list(y), deps=dj(a, b)), st)]
        la, lb = length(I, st, a), length(I, st, b)
        e = I.content(st, a, 'unk'); f = I.content(st, b, 'unk')
        return [(I.list_(st, node, elem=rawelem(I, st, a, b) or vjoin(e, f), length=la.add(lb) if la is not None and lb is not None else None, deps=dj(a, b)), st)]
    if op == 'Mult' and ('list' in ks or 'tuple' in ks):
        l, n = (a, b) if a.k in ('list', 'tuple') else (b, a)
        x = I.items(st, l)
        if x is not None and isnumc(n) and isinstance(n.c, int) and len(x) * n.c <= max(64, _ip.MAXITEMS):
            if l.k == 'tuple': return [(V('tuple', c=tuple(x) * n.c, deps=dj(a, b)), st)]
            return [(I.list_(st, node, items=list(x) * n.c, deps=dj(a, b)), st)]
        ll = length(I, st, l)
        return [(I.list_(st, node, elem=I.content(st, l, 'unk'), length=ll.mul(n.d) if ll is not None and n.d is not None else None, deps=dj(a, b)), st)]
    if a.k == 'dict' and b.k == 'dict' and op == 'BitOr':
        x, y = dict_items(I, st, a), dict_items(I, st, b)
        if x is not None and y is not None: return [(I.mkdict(st, node, {**x, **y}), st)]
        return [(I.mkdict(st, node, None, [I.content(st, a), I.content(st, b)]), st)]
    if op == 'BitOr' and ks & {'cls', 'none'}: return [(vany(), st)]
    if a.k == 'inst' or b.k == 'inst':
        nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'MatMult': '__matmul__'}.get(op)
        if a.k == 'inst' and nm:
            p = I.lookup_live(st, a.c, nm)
            if p: return I.call(I.bind(p[1], a, p[0]), [b], {}, st, node)
    if ks & {'set'}:
        q = constset(I, st, node, {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference', 'BitXor': 'symmetric_difference'}.get(op), [a, b])
        if q is not None: return [(q, st)]
        return [(I.list_(st, node, elem=vjoin(I.content(st, a, 'unk'), I.content(st, b, 'unk')), kind='set', deps=dj(a, b)), st)]
    # unknown
    ls = []; d = dj(a, b); dt = None
    for x in (a, b):
        e = I.content(st, x, 'keep') if x.k in ('arr', 'list', 'tuple', 'dict') else x
        d = d | e.deps; ls.append(e.lin)
    if ks <= {'any', 'num', 'bool'} or op in ('Sub', 'Mult', 'Div', 'Add'):
        return [(V('any', deps=d, lin=lunk(ls), t=tnorm(OPN[op], a.t, b.t)), st)]
    return [(vany(d, lunk(ls)), st)]
def cat(t): return t[1:] if isinstance(t, tuple) and t and t[0] == 'cat' else (t,)
def rawelem(I, st, *vs):
    r = None
    for v in vs:
        for l in v.locs:
            c = I.cell(st, l)
            if c is None: return None
            es = list(c.items) if isinstance(c.items, tuple) else ([c.elem] if c.elem is not None else [])
            for e in es: r = e if r is None else vjoin(r, e)
    return r

def elementwise(I, st, node, vs, f, dt=None, t=None):
    """Broadcasting elementwise function of operands; f maps scalar abstract values to a scalar abstract value."""
    deps = E0
    sh = ()
    for v in vs:
        if v.k == 'arr' or v.k in ('list', 'tuple'):
            deps = deps | v.deps
            s = shp(v)
            if v.k == 'list' and s is not None:
                ln = length(I, st, v); s = (ln,) + tuple(s[1:])
                its = I.items(st, v)
                if its and all(x.k in ('list', 'tuple', 'arr') for x in its): s = (ln,) + (shp(its[0]) or (None,))
        elif v.k in ('num', 'bool'): s = ()
        else: s = None
        if s is None: sh = None
        elif sh is not None: sh = bshape(I, st, sh, s, node)
        if sh is False:
            I.raise_(st, 'ValueError', node); return []
    es = [elem(I, st, v) for v in vs]
    if all(v.k in ('num', 'bool') for v in vs):
        r = f(*es)
        if dt is not None: r = r.r(dt=dt)
        return [(r, st)]
    r = f(*es)
    if dt is not None: r = r.r(dt=dt)
    if t is not None: r = r.r(t=t)
    if not any(v.k == 'arr' for v in vs) and any(v.k == 'any' for v in vs) and not any(v.k in ('list', 'tuple') for v in vs):
        return [(V('any', deps=r.deps | deps, lin=r.lin, dt=r.dt, t=r.t), st)]
    items = None
    n = csize(sh)
    if n is not None and n <= (_ip.MAXITEMS if len(sh) == 1 else max(_ip.MAXITEMS, 32)):
        its = []
        for v, e in zip(vs, es):
            if v.k in ('num', 'bool'): its.append((e,) * n); continue
            x = flat(I, st, v)
            if x is None and v.shape == (Dim(1),): x = (e,)
            if x is not None and len(sh) > 1: x = spread(x, shp(v) if v.k != 'list' else None, sh, I, st, v)
            elif x is not None and len(x) == 1 and n > 1: x = tuple(x) * n
            its.append(x)
        if all(x is not None and len(x) == n for x in its): items = [f(*z) if dt is None else f(*z).r(dt=dt) for z in zip(*its)]
    if st.sig: r = r
    return [(I.arr(st, node, r, sh, items=items, deps=deps), st)]

def csize(sh):
    if sh is None or not len(sh) or any(q is None or q.const is None for q in sh): return None
    n = 1
    for q in sh: n *= q.const
    return n
def flat(I, st, v):
    """Element values row by row of an array, list or tuple ( nested as well ), or None."""
    if v.k == 'arr': return I.vitems(st, v) if v.shape is None or len(v.shape) != 1 else I.items(st, v)
    its = I.items(st, v)
    if its is None: return None
    if all(x.k in ('num', 'bool') for x in its): return tuple(its)
    out = ()
    for x in its:
        y = flat(I, st, x) if x.k in ('arr', 'list', 'tuple') else None
        if y is None: return None
        out += y
    return out
def spread(x, src, dst, I, st, v):
    """Broadcast row by row values of shape src to shape dst."""
    if src is None: src = nested(I, st, v)[1]
    if csize(src) != len(x): return tuple(x) * csize(dst) if len(x) == 1 else None
    src = [q.const for q in src]; d = [q.const for q in dst]
    src = [1] * (len(d) - len(src)) + src
    if len(src) != len(d) or any(a not in (1, b) for a, b in zip(src, d)): return None
    out = []
    for i in range(csize(dst)):
        k = i; ix = []
        for q in reversed(d): ix.append(k % q); k //= q
        ix.reverse()
        p = 0
        for q, j in zip(src, ix): p = p * q + (0 if q == 1 else j)
        out.append(x[p])
    return tuple(out)
def subpos(shape, pos, idx):
    """Positions selected by constant indices, slices, ellipsis and None, or None."""
    used = sum(1 for x in idx if x.k not in ('none', 'ellipsis'))
    lists = []; k = 0
    for x in idx:
        if x.k == 'none': continue
        if x.k == 'ellipsis':
            for _ in range(len(shape) - used): lists.append(list(range(shape[k]))); k += 1
            continue
        if x.k == 'slice':
            c = consts(x)
            if c is None: return None
            lists.append(list(range(shape[k]))[slice(*c)]); k += 1
        elif isnumc(x) and isinstance(x.c, int) and not isinstance(x.c, bool) and -shape[k] <= x.c < shape[k]: lists.append([x.c % shape[k]]); k += 1
        else: return None
    while k < len(shape): lists.append(list(range(shape[k]))); k += 1
    out = [0]
    for n, l in zip(shape, lists): out = [o * n + j for o in out for j in l]
    return tuple(pos[i] for i in out)
def selpos(I, st, o, idx):
    p = I.vpos(st, o)
    if p is None or not all(x.k in ('none', 'ellipsis', 'slice', 'num', 'bool') for x in idx): return None
    try: return subpos([q.const for q in o.shape], p, idx)
    except IndexError: return None
def putitems(I, st, o, its, pos, vals):
    """Replaces the items at the positions after a write was recorded; its are the items before."""
    l = next(iter(o.locs)); c = I.cell(st, l)
    if c.multi: return
    its = list(its)
    for i, q in zip(pos, vals):
        q = I.pcv(st, q)
        its[i] = q.r(k='num', dt=o.dt, locs=E0, cur=None, shape=None) if q.k in ('num', 'bool') else q
    e = None
    for q in its: e = q if e is None else vjoin(e, q)
    I.setcell(st, l, c.r(items=tuple(its), elem=e if e is not None else c.elem))

def unop(I, op, v, st, node):
    if op == 'Not':
        t = truth(I, v, st)
        d = v.deps; l = v.lin
        if v.k in ('arr', 'list') : pass
        return [(vbool(None if t is None else not t, d, cmplin(v) if v.k in ('num', 'bool', 'any') else 'K', term('not', v.t)), st)]
    if v.k in ('num', 'bool'):
        if op == 'USub': return [(sun('negative', v), st)]
        if op == 'UAdd': return [(v, st)]
        if op == 'Invert':
            if v.dt == DB: return [(vbool(None if v.c is NOC else not v.c, v.deps, v.lin), st)]
            if type(v.c) is int: return [(vconst(~v.c).r(deps=v.deps), st)]
            return [(V('num', dt=v.dt, deps=v.deps, lin=cmplin(v)), st)]
    if v.k == 'none': I.raise_(st, 'TypeError', node); return []
    if v.k == 'arr':
        if op == 'UAdd': return elementwise(I, st, node, [v], lambda x: x)
        if op == 'USub': return elementwise(I, st, node, [v], lambda x: sun('negative', x))
        return elementwise(I, st, node, [v], lambda x: vconst(~x.c).r(deps=x.deps) if type(x.c) is int else V('num', dt=x.dt, deps=x.deps, lin=cmplin(x)))
    return [(vany(v.deps, lunk([v.lin])), st)]

def inplace_arr(I, op, a, b, st, node):
    eb = elem(I, st, b); ea = elem(I, st, a)
    # in place result must be castable to the kind of the target
    if op == 'MatMult':
        return binop(I, op, a, b, st, node)
    sb = () if b.k in ('num', 'bool') else shp(b) if b.k == 'arr' else (length(I, st, b),) if b.k in ('list', 'tuple') and (q := I.items(st, b)) is not None and all(x.k in ('num', 'bool') for x in q) else None
    if a.shape is not None and sb is not None:
        o = bshape(I, st, a.shape, sb, node)
        if o is False or o is not None and csize(o) is not None and csize(a.shape) is not None and csize(o) != csize(a.shape): I.raise_(st, 'ValueError', node); return []
    r = sbin(op, ea, eb)
    if a.dt is not None and r.dt is not None and r.dt and dmin(r.dt) > dmax(a.dt):
        I.event('incast', node, target=a, value=r)
        I.raise_(st, 'TypeError', node); return []
    if a.dt is not None and r.dt is not None and r.dt and dmax(r.dt) > dmin(a.dt): I.may_raise(st, 'TypeError', node)
    ia, ib = I.items(st, a), (I.items(st, b) if b.k not in ('num', 'bool') else None)
    if ia is not None and ib is not None and len(ib) == 1 and sb is not None and len(sb) == 1: ib = tuple(ib) * len(ia)
    if ia is not None and (b.k in ('num', 'bool') or ib is not None and len(ib) == len(ia)) and not I.isview(a):
        its = tuple(sbin(op, x, y) for x, y in zip(ia, ib if ib is not None else (b,) * len(ia)))
        store(I, st, a, r, node, full=True, items=its, via='inplace')
    elif (pos := I.vpos(st, a)) is not None and (ib := (b,) * len(pos) if b.k in ('num', 'bool') else (lambda x: None if x is None else spread(x, shp(b) if b.k == 'arr' else None, a.shape, I, st, b))(flat(I, st, b) if b.k in ('arr', 'list', 'tuple') else None)) is not None and len(ib) == len(pos):
        old = I.cell(st, next(iter(a.locs))).items
        its = tuple(sbin(op, old[i], y) for i, y in zip(pos, ib))
        store(I, st, a, r, node, via='inplace')
        putitems(I, st, a, old, pos, its)
    else: store(I, st, a, r, node, full=True, via='inplace')
    return [(a, st)]

def store(I, st, v, val, node, full=False, items=None, index=None, via='setitem'):
    """Writes element summary val into array / list v (through views)."""
    if v.k == 'arr' and v.dt is not None and val.dt is not None and val.dt:
        if dmin(val.dt) > dmax(v.dt): I.event('narrow', node, target=v, value=val, sure=True)
        elif dmax(val.dt) > dmin(v.dt): I.event('narrow', node, target=v, value=val, sure=False)
    I.store_content(st, v, val, node, full=full and not I.isview(v), index=index, via=via)
    if items is not None and len(v.locs) == 1 and not I.isview(v):
        l = next(iter(v.locs)); c = I.cell(st, l)
        if not c.multi and c.elem is not None:
            its = tuple(I.pcv(st, x).r(k='num', dt=v.dt if v.k == 'arr' else x.dt, locs=E0) for x in items) if v.k == 'arr' else tuple(items)
            I.setcell(st, l, c.r(items=its))

def subview(I, v, shape, t=None, cur=None):
    return v.r(shape=shape, cur=cur or ('view',), t=t, c=NOC, d=None)

# ------------------------------------------------------------------ comparison / truth
def band(a, b):
    """Conjunction of chained comparisons."""
    d = a.deps | b.deps
    if a.c is False or b.c is False: return vbool(False, d, 'K')
    if a.c is True and b.c is True: return vbool(True, d, 'K')
    return vbool(None, d, cmplin(a, b), term('and', a.t, b.t))

def compare(I, op, a, b, st, node):
    d = dj(a, b)
    if op in ('Is', 'IsNot'):
        r = None
        if a.k == 'none' and b.k == 'none': r = True
        elif 'none' in (a.k, b.k) and 'any' not in (a.k, b.k): r = False
        elif a.k == 'bool' and b.k == 'bool' and a.c is not NOC and b.c is not NOC: r = a.c is b.c
        elif a.k == b.k == 'cls' : r = a.c is b.c or a.c == b.c
        elif a.k in ('arr', 'list', 'inst', 'dict') and b.k == a.k and not (a.locs & b.locs): r = False
        elif a.k != b.k and 'any' not in (a.k, b.k): r = False
        if r is not None and op == 'IsNot': r = not r
        return [(vbool(r, d), st)]
    if op in ('In', 'NotIn'):
        r = contains(I, st, b, a)
        if b.k == 'dict' or b.k in ('list', 'tuple', 'set'): pass
        e = I.content(st, b, 'unk') if b.k in ('arr', 'list', 'set') else None
        dd = d | (e.deps if e is not None else E0)
        l = cmplin(a, e) if e is not None else cmplin(a) if a.k == 'num' else 'K'
        if r is not None and op == 'NotIn': r = not r
        if b.k in ('num', 'none', 'bool'): I.raise_(st, 'TypeError', node); return []
        return [(vbool(r, dd, l, term(op, a.t, b.t)), st)]
    if a.k in ('num', 'bool') and b.k in ('num', 'bool'): return [(scmp(op, a, b), st)]
    if a.k == 'arr' or b.k == 'arr':
        if 'none' in (a.k, b.k) and op in ('Eq', 'NotEq'):
            return [(vbool(op == 'NotEq', d), st)]
        return elementwise(I, st, node, [a, b], lambda x, y: scmp(op, asnum(x), asnum(y)).r(k='num'), dt=DB)
    if op in ('Eq', 'NotEq'):
        r = None
        if a.k == 'dtype' or b.k == 'dtype':
            x, y = todt(I, a), todt(I, b)
            if x is not None and y is not None and len(x) == 1 and len(y) == 1: r = x == y
        elif a.k == b.k and a.k in ('str', 'bytes', 'none', 'bool') and a.c is not NOC and b.c is not NOC: r = a.c == b.c
        elif a.k == b.k == 'tuple' or a.k == b.k == 'list':
            x, y = I.items(st, a), I.items(st, b)
            if x is not None and y is not None:
                if len(x) != len(y): r = False
                else:
                    rs = []
                    for p, q in zip(x, y):
                        q2 = compare(I, 'Eq', p, q, st, node)
                        rs.append(q2[0][0].c if q2 else NOC)
                        d = d | (q2[0][0].deps if q2 else E0)
                    if any(z is False for z in rs): r = False
                    elif all(z is True for z in rs): r = True
        elif a.k != b.k and 'any' not in (a.k, b.k) and {a.k, b.k} != {'num', 'bool'} and 'inst' not in (a.k, b.k) and 'ext' not in (a.k, b.k): r = False
        elif a.k == b.k == 'cls': r = a.c == b.c
        if a.t is not None and a.t == b.t and a.k == b.k == 'str': r = True
        if r is not None and op == 'NotEq': r = not r
        return [(vbool(r, d, t=tnorm(op, a.t, b.t)), st)]
    if a.k == b.k == 'str' and a.c is not NOC and b.c is not NOC: return [(vbool(CMPF[op][1](a.c, b.c), d), st)]
    if {'none'} & {a.k, b.k} and {a.k, b.k} <= {'none', 'num', 'bool', 'str', 'list', 'tuple', 'dict'}:
        I.raise_(st, 'TypeError', node); return []
    if {a.k, b.k} & {'str'} and {a.k, b.k} & {'num', 'bool', 'list', 'tuple', 'dict'}:
        I.raise_(st, 'TypeError', node); return []
    l = cmplin(asnum(a), asnum(b)) if a.k in ('num', 'any') and b.k in ('num', 'any') else 'K'
    return [(vbool(None, d, l, tnorm(op, a.t, b.t)), st)]
def contains(I, st, c, x):
    if c.k == 'dict':
        it = dict_items(I, st, c)
        if it is not None:
            if not it: return False
            if x.c is not NOC and x.k in ('str', 'num', 'bool', 'bytes', 'none'): return x.c in it
            if x.k not in ('any', 'str', 'num', 'bool', 'tuple'): return False
            if x.k == 'str' and all(not isinstance(k, str) for k in it): return False
            if x.k == 'num' and all(isinstance(k, str) for k in it): return False
            if x.k == 'num' and x.iv is not None and all(isinstance(k, (int, float)) and ivcmp('==', ivpoint(k), x.iv) is False for k in it): return False
        return None
    if c.k in ('str', 'bytes') and x.k == c.k:
        if c.c is not NOC and x.c is not NOC: return x.c in c.c
        return None
    if c.k == 'iter' and isinstance(c.c, tuple) and c.c[0] == 'items': its = c.c[1]
    elif c.k == 'range':
        a, b, s = c.c
        if None in (a, b, s): return None
        if x.c is not NOC and isinstance(x.c, int) and a.const is not None and b.const is not None and s.const: return x.c in range(a.const, b.const, s.const)
        if x.k == 'num' and s.const == 1 and x.iv is not None and a.const is not None and b.const is not None:
            if x.iv[2] < a.const or x.iv[0] > b.const - 1: return False
        return None
    else: its = I.items(st, c)
    if its is None: return None
    rs = []
    for q in its:
        if q.c is not NOC and x.c is not NOC and q.k in ('str', 'num', 'bool', 'bytes', 'none') and x.k in ('str', 'num', 'bool', 'bytes', 'none'): rs.append(q.c == x.c)
        elif q.k in ('num', 'bool') and x.k in ('num', 'bool'):
            r = scmp('Eq', q, x).c
            rs.append(None if r is NOC else r)
        elif q.k in ('cls', 'func') and x.k == q.k: rs.append(True if q.c is x.c or q.c == x.c else None)
        elif q.k != x.k and 'any' not in (q.k, x.k): rs.append(False)
        else: rs.append(None)
    if any(r is True for r in rs): return True
    if all(r is False for r in rs): return False
    return None

def truth(I, v, st):
    if v.k == 'none': return False
    if v.k in ('bool', 'num'):
        if v.c is not NOC:
            return bool(v.c)
        if v.iv is not None:
            if v.iv[0] == v.iv[2] == 0: return False
            if v.iv[0] > 0 or v.iv[2] < 0 or (v.iv[0] == 0 and not v.iv[1]) or (v.iv[2] == 0 and not v.iv[3]): return True
        if v.d is not None:
            l = v.d.low()
            if l is not None and l > 0: return True
        return None
    if v.k in ('str', 'bytes'):
        return bool(v.c) if v.c is not NOC else (True if v.t is not None and isinstance(v.t, tuple) and v.t[0] == 'cat' and any(isinstance(x, tuple) and x[0] == 'c' and x[1] for x in v.t[1:]) else None)
    if v.k in ('list', 'tuple', 'dict', 'set', 'range'):
        n = length(I, st, v)
        if n is not None:
            l = n.low()
            if n.const is not None: return n.const > 0
            if l is not None and l > 0: return True
        return None
    if v.k == 'arr':
        if v.shape is not None and all(x is not None and x.const == 1 for x in v.shape):
            return truth(I, elem(I, st, v), st)
        return None
    if v.k in ('func', 'cls', 'mod', 'iter', 'ellipsis', 'prop', 'exc', 'slice'): return True
    if v.k == 'inst':
        if I.lookup_live(st, v.c, '__bool__') is None and I.lookup_live(st, v.c, '__len__') is None: return True
        return None
    if v.k == 'ext':
        return True if v.c[0] in ('logger', 'RLock', 'level', 'bytesio', 'gmm', 'session', 'hash') else None
    return None

# ------------------------------------------------------------------ refinement of a condition
NEG = {'Lt': 'GtE', 'LtE': 'Gt', 'Gt': 'LtE', 'GtE': 'Lt', 'Eq': 'NotEq', 'NotEq': 'Eq', 'Is': 'IsNot', 'IsNot': 'Is'}
SWAP = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE', 'Eq': 'Eq', 'NotEq': 'NotEq'}
def refine(I, test, st, val):
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return refine(I, test.operand, st, not val)
    if isinstance(test, ast.BoolOp):
        conj = isinstance(test.op, ast.And) == val
        if conj:
            for x in test.values:
                if not refine(I, x, st, val): return False
        else:
            # exactly one undecided disjunct: refine it
            und = []
            for x in test.values:
                t = quick(I, x, st)
                if t is None: und.append(x)
                elif t == val: return True
            if len(und) == 1: return refine(I, und[0], st, val)
        return True
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 and isinstance(test.args[0], ast.Name) and st.env is not None:
        n = test.args[0].id
        v = st.env.get(n)
        if v is not None and v.k == 'any' and val:
            t = peek(I, test.args[1], st)
            if t is not None and t.k == 'cls':
                if t.c in ('numpy.ndarray',): st.env[n] = v.r(k='arr') if v.locs else v
                elif isinstance(t.c, str) and t.c.startswith('builtins.') and t.c[9:] in ('int', 'float', 'complex'): st.env[n] = V('num', dt=DTYPES[t.c[9:]], deps=v.deps, lin=v.lin, t=v.t)
                elif t.c == 'builtins.str': st.env[n] = V('str', deps=v.deps, t=v.t)
        return True
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = type(test.ops[0]).__name__
        l, r = test.left, test.comparators[0]
        if op not in NEG:
            return True
        if not val: op = NEG[op]
        a, b = peek(I, l, st), peek(I, r, st)
        if a is None or b is None: return True
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and 'none' in (a.k, b.k):
            for e, x, y in ((l, a, b), (r, b, a)):
                if y.k == 'none' and isinstance(e, ast.Name) and st.env is not None:
                    if op in ('Is', 'Eq') and x.k == 'any': st.env[e.id] = NONE.r(deps=x.deps)
            return True
        if op in ('Is', 'IsNot'): return True
        if a.k in ('num', 'bool') and b.k in ('num', 'bool'):
            res = scmp(op, a, b)
            if res.c is False: return False
            if a.t is not None and b.t is not None: st.facts = st.facts | {(op, a.t, b.t)}
            for e, x, y, o in ((l, a, b, op), (r, b, a, SWAP[op])):
                n = clip(x, o, y)
                if n is not None: assignval(I, e, n, st)
                ae = absarg(I, e, st)
                if ae is not None and o in ('Lt', 'LtE') and y.iv is not None and y.iv[2] != INF:
                    w = peek(I, ae, st)
                    if w is not None and w.k == 'num' and w.dt is not None and 'c' not in w.dt:
                        for q, sg in ((o, 1), (SWAP[o], -1)):
                            n = clip(w, q, y if sg > 0 else y.r(iv=ivneg(y.iv)))
                            if n is not None: w = n; assignval(I, ae, n, st)
        return True
    if isinstance(test, ast.Compare) and val and all(type(o).__name__ in NEG for o in test.ops):
        left = test.left
        for o, c in zip(test.ops, test.comparators):
            if not refine(I, ast.copy_location(ast.Compare(left, [o], [c]), test), st, True): return False
            left = c
        return True
    if isinstance(test, (ast.Name, ast.Attribute)):
        v = peek(I, test, st)
        if v is not None:
            t = truth(I, v, st)
            if t is not None and t != val: return False
            if v.k == 'bool': assignval(I, test, vbool(val, v.deps, v.lin, v.t), st)
            if v.k == 'any' and not val is True: pass
    return True
def quick(I, x, st):
    v = peek(I, x, st)
    return None if v is None else truth(I, v, st)
def pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm not in ('len', 'abs', 'isscalar', 'isinstance', 'min', 'max', 'int', 'float', 'bool', 'all', 'any', 'isclose', 'iscomplexobj', 'isrealobj', 'shape', 'size', 'ndim', 'absolute', 'fabs'): return False
        elif isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.NamedExpr, ast.Yield, ast.Await, ast.DictComp, ast.SetComp)): return False
    return True
def peek(I, e, st):
    """Value of an expression, evaluated on a copy without events; None if not a single outcome."""
    if not pure(e): return None
    rec, I.record = I.record, False
    I.sinks.append([])
    try: r = I.ev(e, st.copy())
    except Unsupported: return None
    finally: I.record = rec; I.sinks.pop()
    return r[0][0] if len(r) == 1 else None
def clip(x, op, y):
    """x narrowed under  x op y."""
    if y.iv is None or (x.dt is not None and 'c' in x.dt): return None
    xi = x.iv or IVTOP
    lo, lc, hi, hc = xi
    isint = x.dt == DI
    if op in ('Lt', 'LtE', 'Eq'):
        yh, yc = y.iv[2], y.iv[3] and op != 'Lt'
        if isint and not yc and yh not in (INF, -INF) and yh == int(yh): yh, yc = int(yh) - 1, True
        if yh < hi or (yh == hi and hc and not yc): hi, hc = yh, yc
    if op in ('Gt', 'GtE', 'Eq'):
        yl, yc = y.iv[0], y.iv[1] and op != 'Gt'
        if isint and not yc and yl not in (INF, -INF) and yl == int(yl): yl, yc = int(yl) + 1, True
        if yl > lo or (yl == lo and lc and not yc): lo, lc = yl, yc
    if (lo, lc, hi, hc) == xi: return None
    if lo > hi or (lo == hi and not (lc and hc)): return None
    return x.r(iv=(lo, lc, hi, hc))
def absarg(I, e, st):
    """The operand of abs( operand )."""
    if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], (ast.Name, ast.Attribute)):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if n in ('abs', 'absolute', 'fabs'): return e.args[0]
def abssplit(I, test, st):
    """States of a true branch  abs( x ) > c  split on the sign of x."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = type(test.ops[0]).__name__
        l, r = test.left, test.comparators[0]
        if absarg(I, l, st) is None: l, r, op = r, l, SWAP.get(op)
        ae = absarg(I, l, st)
        if ae is None or op not in ('Gt', 'GtE'): return [st]
        w, y = peek(I, ae, st), peek(I, r, st)
        if w is None or y is None or w.k != 'num' or y.k != 'num' or y.iv is None or y.iv[0] < 0 or w.dt is None or 'c' in w.dt: return [st]
        xi = w.iv or IVTOP
        if xi[0] >= -y.iv[0] or xi[2] <= y.iv[0]: return [st]
        a, b = st, st.copy()
        n1, n2 = clip(w, op, y), clip(w, SWAP[op], y.r(iv=ivneg(y.iv)))
        if n1 is None or n2 is None: return [st]
        assignval(I, ae, n1, a); assignval(I, ae, n2, b)
        return [a, b]
    return [st]
def assignval(I, e, v, st):
    if isinstance(e, ast.Name) and st.env is not None and e.id in st.env: st.env[e.id] = v
    elif isinstance(e, ast.Attribute):
        o = peek(I, e.value, st)
        if o is not None and o.k == 'inst' and len(o.locs) == 1 and isinstance(o.c, ClassInfo):
            name = e.attr
            l = next(iter(o.locs)); c = I.cell(st, l)
            if c is None or not c.attrs: return
            if name not in c.attrs:
                # trivial property getter
                p = I.lookup(o.c, name)
                if p is not None and p[1].k == 'prop' and p[1].c.get is not None and p[1].c.get.k == 'func':
                    b = [x for x in p[1].c.get.c[1].node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                    if len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) and isinstance(b[0].value.value, ast.Name): name = b[0].value.attr
            if name in c.attrs and c.attrs[name].k == v.k and not c.multi:
                at = dict(c.attrs); at[name] = v
                I.setcell(st, l, c.r(attrs=at))
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and len(e.args) == 1: pass

# ------------------------------------------------------------------ context managers
def enter(I, v, st, node):
    def plain(o): return [o]
    if v.k == 'ext':
        k = v.c[0]
        if k == 'RLock' or k == 'Lock':
            tok = 'lock:' + str(v.c[1])
            if k == 'Lock' and tok in st.locks: I.event('deadlock', node, lock=tok)
            st.locks = st.locks + (tok,)
            I.event('lock', node, lock=tok, locks=st.locks)
            I.tr(st, 'acquire', tok, node)
            def ex(o):
                o.st.locks = drop(o.st.locks, tok); I.tr(o.st, 'release', tok, node); return [o]
            return [(V('bool', c=True, dt=DB), st, ex)]
        if k == 'ctx':
            tok = 'ctx:' + v.c[1]
            st.locks = st.locks + (tok,)
            def ex(o):
                o.st.locks = drop(o.st.locks, tok); return [o]
            return [(v, st, ex)]
        if k == 'suppress':
            types = v.c[1]
            def ex(o):
                if o.kind != 'raise': return [o]
                r = False
                for t in types:
                    n = (t.c.name if isinstance(t.c, ClassInfo) else str(t.c).rsplit('.', 1)[-1]) if t.k == 'cls' else None
                    m = I.exc_sub(o.v.c if o.v.c is not NOC else '?', n) if n else None
                    if m is True: r = True; break
                    if m is None: r = None
                if r is True: return [Out('next', o.st)]
                if r is None: return [Out('next', o.st.copy()), o]
                return [o]
            return [(NONE, st, ex)]
        if k in ('bytesio', 'response', 'session', 'file'): return [(v, st, plain)]
        return [(v, st, plain)]
    if v.k == 'inst' and isinstance(v.c, ClassInfo):
        p, q = I.lookup_live(st, v.c, '__enter__'), I.lookup_live(st, v.c, '__exit__')
        if p and q:
            res = []
            for w, x in I.call(I.bind(p[1], v, p[0]), [], {}, st, node):
                def ex(o, v=v, q=q):
                    r = []
                    a = [NONE, NONE, NONE] if o.kind != 'raise' else [V('cls', c=str(o.v.c)), o.v, vany()]
                    for w2, y in I.call(I.bind(q[1], v, q[0]), a, {}, o.st, node):
                        if o.kind == 'raise' and truth(I, w2, y) is True: r.append(Out('next', y))
                        elif o.kind == 'raise' and truth(I, w2, y) is None: r += [Out('next', y.copy()), Out('raise', y, o.v, o.node)]
                        else: r.append(Out(o.kind, y, o.v, o.node))
                    return r
                res.append((w, x, ex))
            return res
    if v.k == 'any': I.tr(st, 'unknownctx', '?', node); return [(vany(v.deps, t=v.t), st, plain)]
    if v.k in ('none', 'num', 'str', 'list', 'arr', 'bool', 'tuple'): I.raise_(st, 'TypeError', node); return []
    return [(v, st, plain)]
def drop(t, x):
    t = list(t)
    for i in range(len(t) - 1, -1, -1):
        if t[i] == x: del t[i]; break
    return tuple(t)

# ------------------------------------------------------------------ iteration
def curdeps(deps):
    return frozenset('cur' + d[2:] if isinstance(d, str) and d.startswith('el:') else d for d in deps)
def eltcur(I, st, v):
    """Element of v at the running position of a loop (position aligned)."""
    if v.k == 'range':
        return None
    e = None
    for l in v.locs:
        c = I.cell(st, l)
        if c is None: continue
        x = c.elem
        if isinstance(c.items, tuple):
            x = None
            for q in c.items: x = q if x is None else vjoin(x, q)
        elif isinstance(c.items, dict):
            x = None
            for q in c.items: x = vconst(q) if x is None else vjoin(x, vconst(q))
        if x is not None: e = x if e is None else vjoin(e, x)
    if e is None: e = vany(v.deps)
    if v.k == 'arr':
        if v.shape is not None and len(v.shape) > 1: return subview(I, v, v.shape[1:])
        e = e.r(k='num', dt=v.dt)
    if e.k in ('num', 'bool'): e = e.r(t=term('at', e.t, 'cur') if e.c is NOC and e.t is not None else e.t, deps=curdeps(e.deps) | v.deps, iv=e.iv)
    else: e = e.dep(v.deps)
    return e
def iter_abs(I, st, v, node):
    n = length(I, st, v)
    lo = n.low() if n is not None else None
    must = lo is not None and lo >= 1
    empty = n is not None and n.const == 0
    key = (I.where(node)[0], getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
    info = {'node': node, 'kind': 'for', 'cursor': None, 'length': n, 'iter': v}
    if v.k == 'range':
        a, b, s = v.c
        d = opaque('cursor', *key)
        if s is not None and s.const == 1 and a is not None and a.const == 0 and b is not None:
            info['cursor'] = b
            h = Dim(0).sub(b).low()
            cv = V('num', dt=DI, d=d, cur=b, iv=(0, True, -h - 1 if h is not None else INF, h is not None), deps=frozenset(['pos:' + str(key[1])]) if I.block_mode else E0, t=('cursor',) + key, mv=frozenset(['const']))
        else:
            al = a.low() if a is not None else None
            if s is not None and s.const is not None and s.const < 0: al = b.low() + 1 if b is not None and b.low() is not None else None
            dd = opaque('index', *key)
            if al is not None and al > 0: dd = dd.add(Dim(al))
            elif al is None or al < 0: dd = None
            cv = V('num', dt=DI, d=dd, cur='part', iv=(al if al is not None else -INF, al is not None, INF, False), deps=(v.deps - frozenset(x for x in v.deps if isinstance(x, str) and x.startswith('len:'))) | (frozenset(['pos:' + str(key[1])]) if I.block_mode else E0), t=('cursor',) + key, mv=frozenset(['const']))
        cv = cv.dep(frozenset(x for x in v.deps if not (isinstance(x, str) and x.startswith('len:'))))
        return (lambda x, k: cv), must, empty, info
    def cursor():
        d = opaque('cursor', *key)
        return V('num', dt=DI, d=d, cur=n if n is not None else 'part', iv=(0, True, INF, False), deps=frozenset(['pos:' + str(key[1])]) if I.block_mode else E0, t=('cursor',) + key, mv=frozenset(['const']))
    if v.k == 'iter' and isinstance(v.c, tuple):
        k = v.c[0]
        if k == 'enumerate':
            inner = iter_abs(I, st, v.c[1], node)
            start = v.c[2]
            def f(x, j):
                i = cursor()
                if not (isnumc(start) and start.c == 0): i = sbin('Add', i, start)
                return V('tuple', c=(i, inner[0](x, j)))
            return f, must, empty, info
        if k == 'zip':
            inner = [iter_abs(I, st, q, node) if I.items(st, q) is None or q.k in ('arr',) else iter_abs_items(I, st, q, node) for q in v.c[1]]
            if any(i[2] for i in inner): empty = True
            if not empty: must = all(i[1] for i in inner)
            return (lambda x, j: V('tuple', c=tuple(i[0](x, j) for i in inner))), must, empty, info
        if k == 'reversed':
            w = v.c[1]
            if w.k == 'range':
                inner = iter_abs(I, st, w, node)
                return (lambda x, j: inner[0](x, j).r(cur='part')), must, empty, info
            def f(x, j):
                e = I.content(x, w, 'unk')
                return e
            return f, must, empty, info
        if k == 'map':
            fv = v.c[2]
            inner = iter_abs(I, st, v.c[1], node)
            def f(x, j):
                r = I.call(fv, [inner[0](x, j)], {}, x, node)
                if len(r) != 1: raise Unsupported('map outcomes')
                return r[0][0]
            return f, must, empty, info
        return (lambda x, j: vany(v.deps)), False, False, info
    if v.k in ('arr', 'list', 'set', 'tuple', 'dict', 'str', 'bytes'):
        info['cursor'] = n
        if v.k in ('str', 'bytes'): return (lambda x, j: vstr(v.deps) if v.k == 'str' else V('num', dt=DI, deps=v.deps)), must, empty, info
        if v.k == 'tuple': return iter_abs_items(I, st, v, node)
        if v.k == 'dict':
            def f(x, j):
                it = dict_items(I, x, v)
                if it:
                    r = None
                    for q in it: r = vconst(q) if r is None else vjoin(r, vconst(q))
                    return r
                return vany(v.deps)
            return f, must, empty, info
        def g(x, j):
            return eltcur(I, x, v)
        return g, must, empty, info
    if v.k in ('none', 'num', 'bool'):
        I.raise_(st, 'TypeError', node)
        return (lambda x, j: vany()), False, True, info
    return (lambda x, j: vany(v.deps, lunk([v.lin]))), False, False, info
def iter_abs_items(I, st, v, node):
    its = I.items(st, v)
    def f(x, j):
        r = None
        for q in its: r = q if r is None else vjoin(r, q)
        return r.dep(v.deps)
    return f, bool(its), not its, {'node': node, 'kind': 'for', 'cursor': None, 'length': D(len(its))}

def counters(s):
    """( name, bound expression, closed ) of comparisons name < bound in the condition of a loop"""
    tests = s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]
    for t in tests:
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, op = t.left, t.comparators[0], t.ops[0]
            if isinstance(op, (ast.Gt, ast.GtE)) or isinstance(op, ast.NotEq) and not isinstance(a, ast.Name): a, b = b, a; op = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(type(op), ast.NotEq)()
            if isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)) and isinstance(a, ast.Name): yield a.id, b, isinstance(op, ast.LtE)
def counted(s, n):
    """True if name n is increased by one, once in every iteration"""
    inc = 0
    for b in s.body:
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == n:
            if not (isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1): return False
            inc += 1
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == n:
            w = b.value
            if not (isinstance(w, ast.BinOp) and isinstance(w.op, ast.Add) and {(type(q).__name__, getattr(q, 'id', getattr(q, 'value', None))) for q in (w.left, w.right)} == {('Name', n), ('Constant', 1)}): return False
            inc += 1
        else:
            for q in ast.walk(b):
                if isinstance(q, ast.Name) and q.id == n and isinstance(q.ctx, ast.Store): return False
                if isinstance(q, ast.Continue): return False
    return inc == 1
def while_count(I, s, st):
    """Iterations of a loop counting from one constant to another, or infinity"""
    if st.env is None: return INF
    for n, bound, closed in counters(s):
        v = st.env.get(n)
        if v is None or v.k != 'num' or not isinstance(v.c, int) or isinstance(v.c, bool) or not counted(s, n): continue
        stop = peek(I, bound, st)
        if stop is None or stop.d is None or stop.d.const is None or stop.d.const != int(stop.d.const): continue
        return max(int(stop.d.const) - v.c + closed, 0)
    return INF
def while_cursor(I, s, st):
    if st.env is None: return None
    for n, bound, closed in counters(s):
        v = st.env.get(n)
        if closed or v is None or v.c is NOC or v.c != 0 or isinstance(v.c, bool) or not counted(s, n): continue
        stop = peek(I, bound, st)
        if stop is None or stop.d is None: continue
        return (n, stop.d)
    return None
def set_cursor(I, s, st, cursor, n):
    name, stop = cursor
    key = (I.where(s)[0], getattr(s, 'lineno', 0), getattr(s, 'col_offset', 0))
    st.env[name] = V('num', dt=DI, d=opaque('cursor', *key), cur=stop, iv=(0, True, INF, False), deps=frozenset(['pos:' + str(key[1])]) if I.block_mode else E0, t=('cursor',) + key, mv=frozenset(['const']))

# ------------------------------------------------------------------ subscripts
def dict_items(I, st, v):
    if v.k != 'dict': return None
    r = None
    for l in v.locs:
        c = I.cell(st, l)
        if c is None or not isinstance(c.items, dict): return None
        if r is None: r = dict(c.items)
        else: return None
    return r
def nopos(deps): return frozenset(d for d in deps if not (isinstance(d, str) and d.startswith('pos:')))
def idxdeps(I, st, o, i, e):
    """Dependences contributed by an index; aligned cursors contribute nothing."""
    if i.cur is not None and i.cur != 'part' and not (isinstance(i.cur, tuple)):
        al = any(isinstance(d, str) and d.startswith(('el:', 'cur:')) for d in e.deps) or (o.shape and o.shape[0] is not None and o.shape[0] == i.cur)
        if al: return nopos(i.deps)
    return i.deps
def slicedim(n, lo, hi, step):
    """Length of a slice of a dimension of length n; operands are Dim or None ( absent ); False = unknown operand."""
    if n is None or lo is False or hi is False or step is False:
        return None
    k = 1 if step is None else step.const
    if k is None: return None
    if k < 0:
        if lo is None and hi is None:
            return n.add(Dim(-k - 1)).fdiv(-k) if k != -1 else n
        return None
    def norm(x, default):
        if x is None: return default
        if x.const is not None and x.const < 0:
            y = n.add(x)
            l = y.low()
            if l is not None and l >= 0: return y
            h = Dim(0).sub(y).low()
            if h is not None and h >= 0: return Dim(0)
            return False
        l = x.low()
        if l is None or l < 0:
            return False
        c = dcmp(x, n)
        if c in (-1, 0, 'le'): return x
        if c in (1, 'ge'): return n
        return False
    a, b = norm(lo, Dim(0)), norm(hi, n)
    if a is False or b is False: return None
    m = b.sub(a)
    l = m.low(); h = Dim(0).sub(m).low()
    if h is not None and h >= 0: return Dim(0)
    if l is None or l < 0: return None
    return m if k == 1 else m.add(Dim(k - 1)).fdiv(k)
def sldims(i):
    def f(v):
        if v.k == 'none': return None
        if v.d is not None: return v.d
        return False
    return tuple(f(v) for v in i.c)
def consts(i):
    """Constant python slice triple or None."""
    o = []
    for v in i.c:
        if v.k == 'none': o.append(None)
        elif v.c is not NOC and isinstance(v.c, int): o.append(int(v.c))
        else: return None
    return tuple(o)

def getitem(I, o, i, st, node):
    d = o.deps | i.deps
    if o.k == 'tuple' and isinstance(o.c, tuple):
        if isnumc(i) and isinstance(i.c, int):
            if -len(o.c) <= i.c < len(o.c): return [(o.c[i.c].dep(d), st)]
            I.raise_(st, 'IndexError', node); return []
        if i.k == 'slice':
            c = consts(i)
            if c is not None: return [(V('tuple', c=o.c[slice(*c)], deps=d), st)]
        if i.k in ('num', 'bool') and o.c:
            c = list(o.c)
            if i.dt == DB: c = c[:2]
            r = None
            for x in c: r = x if r is None else vjoin(r, x)
            return [(r.dep(d), st)]
        return [(vany(d), st)]
    if o.k in ('str', 'bytes'):
        if o.c is not NOC and isnumc(i):
            try: return [(vconst(o.c[i.c]).dep(d), st)]
            except Exception: I.raise_(st, 'IndexError', node); return []
        if o.c is not NOC and i.k == 'slice' and consts(i) is not None: return [(vconst(o.c[slice(*consts(i))]).dep(d), st)]
        if o.k == 'bytes' and isinstance(o.t, tuple) and o.t[:1] in (('gzip',), ('pickle',)):
            p = b'\x1f\x8b\x08' if o.t[0] == 'gzip' else b'\x80\x04\x95'
            if isnumc(i) and i.c in (0, 1, 2): return [(vconst(p[i.c]).dep(d), st)]
            c = consts(i) if i.k == 'slice' else None
            if c is not None and c[0] in (None, 0, 1, 2) and c[1] in (0, 1, 2, 3) and c[2] in (None, 1): return [(vconst(p[slice(*c)]).dep(d), st)]
        return [((vstr(d) if o.k == 'str' else V('bytes' if i.k == 'slice' else 'num', deps=d)), st)]
    if o.k == 'dict':
        it = dict_items(I, st, o)
        if it is not None:
            if i.c is not NOC and i.k in ('str', 'num', 'bool', 'bytes', 'none'):
                if i.c in it: return [(it[i.c].dep(d), st)]
                I.raise_(st, 'KeyError', node, V('exc', c='KeyError', deps=d)); return []
            r = contains(I, st, o, i)
            if r is False: I.raise_(st, 'KeyError', node, V('exc', c='KeyError', deps=d)); return []
            vs = list(it.values())
            if not vs: I.raise_(st, 'KeyError', node); return []
            I.may_raise(st, 'KeyError', node)
            j = None
            for x in vs: j = x if j is None else vjoin(j, x)
            return [(j.dep(d), st)]
        I.may_raise(st, 'KeyError', node)
        r = None
        for l in o.locs:
            c = I.cell(st, l)
            if c is not None:
                es = list(c.items.values()) if isinstance(c.items, dict) else ([c.elem] if c.elem is not None else [])
                for x in es: r = x if r is None else vjoin(r, x)
        return [((r if r is not None else vany()).dep(d), st)]
    if o.k == 'list':
        its = I.items(st, o)
        if i.k == 'slice':
            c = consts(i)
            if its is not None and c is not None: return [(I.list_(st, node, items=list(its[slice(*c)]), deps=d), st)]
            n = slicedim(length(I, st, o), *sldims(i))
            e = rawelem(I, st, o)
            if e is not None and e.k in ('num', 'bool'): e = e.r(deps=I.relabel(e.deps, 'unk'), t=None, d=None)
            return [(I.list_(st, node, elem=e, length=n, deps=d), st)]
        if its is not None and isnumc(i) and isinstance(i.c, int):
            if -len(its) <= i.c < len(its): return [(its[i.c].dep(d), st)]
            I.raise_(st, 'IndexError', node); return []
        e = rawelem(I, st, o)
        if e is None:
            n = length(I, st, o)
            if n is not None and n.const == 0: I.raise_(st, 'IndexError', node); return []
            return [(vany(d), st)]
        if e.k in ('num', 'bool'): return [(idxread(I, st, o, i, e, node), st)]
        return [(e.dep(d), st)]
    if o.k == 'arr': return arrget(I, o, i, st, node)
    if o.k == 'inst' and isinstance(o.c, ClassInfo):
        p = I.lookup_live(st, o.c, '__getitem__')
        if p: return I.call(I.bind(p[1], o, p[0]), [i], {}, st, node)
    if o.k == 'cls': return [(o, st)]
    if o.k in ('none', 'num', 'bool', 'func'):
        if o.k == 'func' and o.c[0] == 'ext':
            if o.c[1] in ('numpy.r_', 'numpy.c_'):
                xs = list(i.c) if i.k == 'tuple' and isinstance(i.c, tuple) else [i]
                if all(x.k in ('num', 'bool', 'arr', 'list') and len(nested(I, st, x)[1] or (1, 1)) <= 1 for x in xs):
                    return call(I, 'numpy.hstack' if o.c[1] == 'numpy.r_' else 'numpy.column_stack', [I.list_(st, node, items=xs)], {}, st, node)
                dd, l = argdeps(I, st, xs, {}); return [(vany(dd, l), st)]
            if not isdtf(o.c[1]): return [(vany(d), st)]
            return [(o, st)]
        I.raise_(st, 'TypeError', node); return []
    if o.k == 'range' and isnumc(i):
        a, b, s = o.c
        if a is not None and s is not None and i.c >= 0 and s.const is not None and s.const: return [(vdim(a.add(Dim(s.const * i.c)), d), st)]
    if o.k == 'ext':
        return [(vany(d, t=term('item', o.t, i.t)), st)]
    return [(vany(d, lunk([o.lin]), t=term('item', o.t, i.t)), st)]

def ranks(its):
    """Keys of an ordering, or None."""
    from . import interp as ip
    if not ip.NORMAL or its is None or not 0 < len(its) <= 8 or any(q.t is None for q in its): return None
    return tuple(q.t for q in its)
def rankpos(its, k, deps=E0):
    """Position of the k-th smallest of the items."""
    return V('num', dt=DI, deps=deps, lin='N', iv=(0, True, len(its) - 1, True), mv=frozenset(['const']), t=('argsort', k, ranks(its)))
def picked(its, ix, deps=E0):
    """Element of the items at a position found by an ordering, or None."""
    from .interp import tsize
    if not isinstance(ix.t, tuple) or len(ix.t) != 3 or ix.t[0] != 'argsort' or ranks(its) is None: return None
    t = ('pick', ix.t, tuple(q.t for q in its))
    if tsize(t) > 6000: return None
    r = its[0]
    for q in its[1:]: r = vjoin(r, q)
    return r.r(t=t, c=NOC, d=None, cur=None, deps=r.deps | deps | ix.deps, lin=r.lin if r.lin in ('K', 'Z') else 'N')
def idxread(I, st, o, i, e, node):
    """Scalar read of element summary e at scalar index i."""
    q = picked(I.items(st, o), i, o.deps) if isinstance(i.t, tuple) and i.t[:1] == ('argsort',) else None
    if q is not None: return q
    dd = o.deps | idxdeps(I, st, o, i, e)
    t = term('at', e.t, i.t)
    if e.c is not NOC: t = e.t
    deps = e.deps
    if i.cur is not None and i.cur != 'part' and not isinstance(i.cur, tuple):
        if I.loops and o.k == 'arr':
            # the place of the current iteration: not carried from an earlier one
            for l in o.locs:
                q = I.cell(st, l)
                if q is not None and 'looped' in q.flag and ('carry:' + l) not in (q.elem.deps if q.elem is not None else E0): deps = deps - {'carry:' + l}
        deps = curdeps(deps)
    elif i.cur == 'part' : deps = I.relabel(deps, 'unk')
    elif o.shape is not None and o.shape and o.shape[0] is not None and o.shape[0].const == 1: pass
    else:
        # an index which depends on carried state only is arbitrary
        deps = I.relabel(deps, 'unk' if any(isinstance(x, str) and x.startswith(('st:', 'carry:')) for x in i.deps) else 'blk')
        if I.loops and any('looped' in (I.cell(st, l).flag if I.cell(st, l) is not None else ()) for l in o.locs):
            deps = deps | frozenset('carry:' + l for l in o.locs if 'looped' in I.cell(st, l).flag)
    return e.r(k='bool' if o.dt == DB and o.k == 'arr' else 'num', dt=o.dt if o.k == 'arr' else e.dt, deps=deps | dd, t=t, cur=None, d=e.d if o.k != 'arr' or e.c is not NOC else None, shape=None, locs=E0, c=e.c if isinstance(e.c, NUMT) else NOC)

def arrget(I, o, i, st, node):
    idx = i.c if i.k == 'tuple' and isinstance(i.c, tuple) else (i,)
    e0 = elem(I, st, o)
    if any(x.k in ('arr', 'list') for x in idx):
        return fancy(I, o, idx, st, node)
    if any(x.k == 'any' for x in idx):
        r = I.content(st, o, 'unk')
        return [(V('any', deps=r.deps | dj(*idx), lin=r.lin, dt=o.dt, locs=o.locs), st)]
    sh = o.shape
    if sh is None:
        if all(x.k in ('num', 'bool') for x in idx):
            # unknown rank: scalar or row view
            return [(subview(I, o, None).dep(dj(*idx)), st)]
        return [(subview(I, o, None).dep(dj(*idx)), st)]
    ns, k = [], 0
    view = False
    n_used = sum(1 for x in idx if x.k not in ('none', 'ellipsis'))
    if n_used > len(sh): I.raise_(st, 'IndexError', node); return []
    pos = []
    for x in idx:
        if x.k == 'none': ns.append(Dim(1)); view = True
        elif x.k == 'ellipsis':
            m = len(sh) - n_used
            ns += list(sh[k:k + m]); k += m; view = True
        elif x.k == 'slice':
            m = slicedim(sh[k], *sldims(x))
            if m is None and x.c[0].k == 'num' and x.c[1].k == 'num' and x.c[0].d is not None and x.c[1].d is not None and isinstance(x.c[0].cur, Dim):
                w = x.c[1].d.sub(x.c[0].d)
                if w.const == 1: m = w
            ns.append(m); k += 1; view = True; pos.append(x)
        elif x.k in ('num', 'bool'):
            if isnumc(x) and sh[k] is not None and sh[k].const is not None and not (-sh[k].const <= x.c < sh[k].const):
                I.raise_(st, 'IndexError', node); return []
            k += 1; pos.append(x)
        else: return [(vany(o.deps | dj(*idx), 'U'), st)]
    ns += list(sh[k:])
    if not ns:
        x = idx[0]
        its = I.items(st, o)
        if len(idx) == 1 and its is not None and isnumc(x) and isinstance(x.c, int):
            r = its[x.c]
            dd = I.relabel(r.deps, 'blk') if len(its) > 1 else r.deps
            return [(r.r(deps=dd | o.deps | x.deps, cur=None, k='bool' if o.dt == DB else 'num', dt=o.dt), st)]
        if len(idx) == 1:
            return [(idxread(I, st, o, x, e0, node), st)]
        sp = selpos(I, st, o, idx)
        if sp is not None and len(sp) == 1:
            r = I.cell(st, next(iter(o.locs))).items[sp[0]]
            return [(r.r(deps=I.relabel(r.deps, 'blk') | o.deps | dj(*idx), cur=None, k='bool' if o.dt == DB else 'num', dt=o.dt), st)]
        r = idxread(I, st, o, x, e0, node)
        for y in idx[1:]: r = r.dep(idxdeps(I, st, o, y, e0))
        return [(r.r(t=term('at', e0.t, *[y.t for y in idx]) if r.c is NOC else r.t), st)]
    # view
    t = None; cur = ('view',)
    full = True
    for x in idx:
        if x.k == 'slice':
            if any(v.k != 'none' for v in x.c): full = False
        elif x.k not in ('none', 'ellipsis'): full = False
    base = elem_base(I, st, o)
    if full and len(ns) == len(sh): v = o.r(shape=tuple(ns), cur=o.cur or ('view', (None, None, None)), c=NOC); return [(v.dep(dj(*idx)), st)]
    sp = selpos(I, st, o, idx)
    if base.t is not None and not I.isview(o):
        ts = []
        for x in idx:
            if x.k == 'slice': ts.append(term('sl', *[v.t if v.k != 'none' else 'x' for v in x.c]))
            else: ts.append(x.t)
        t = term('view', base.t, *ts) if all(q is not None for q in ts) else None
    elif I.isview(o) and viewterm(I, st, o, base) is not None: t = None
    c = consts(idx[0]) if len(idx) == 1 and idx[0].k == 'slice' else None
    if len(sh) == 1 and c is not None and not I.isview(o) and sh[0] is not None and sh[0].const is not None: cur = ('view', c)
    elif sp is not None and csize(ns) == len(sp): cur = ('view', ('pos', sp))
    lab = dj(*[nodeps_slice(x) for x in idx])
    v = subview(I, o, tuple(ns), t=t, cur=cur)
    # position labels of a slice: attached to the reference, relabel marker
    if I.block_mode and not full:
        sl = slicelabel(idx)
        if isinstance(o.c, tuple) and o.c and o.c[0] == 'rel' and o.c[1] != 'el': sl = 'unk' if sl != 'el' else o.c[1]
        v = v.r(deps=v.deps | lab, c=('rel', sl))
    else: v = v.r(deps=v.deps | lab)
    return [(v, st)]
def nodeps_slice(x):
    return x.r(deps=nopos(frozenset(d for d in x.deps if not (isinstance(d, str) and d.startswith('len:')))))
def slicelabel(idx):
    x = idx[0]
    if x.k == 'slice':
        a, b, s = x.c
        if a.k == 'num' and isinstance(a.cur, Dim) and b.k == 'num' and b.d is not None and a.d is not None and b.d.sub(a.d).const == 1: return 'cur'
        if all(v.k == 'none' for v in x.c): return 'el'
        return 'unk'
    if x.k == 'num' and isinstance(x.cur, Dim): return 'cur'
    return 'unk'
def elem_base(I, st, o):
    return I.content(st, o.r(cur=None, c=NOC), 'keep')
def rowsat(I, st, o, i, boolm):
    """Items of o[ i ] for an array i of known or ranked positions, or of known truth values."""
    if o.shape is None or not o.shape or o.k != 'arr' or i.k not in ('arr', 'list'): return None
    oi = I.vitems(st, o)
    ix = I.vitems(st, i) if i.k == 'arr' else I.items(st, i)
    if oi is None or ix is None or o.shape[0] is None or not o.shape[0].const: return None
    n = o.shape[0].const; w = len(oi) // n
    if boolm:
        if len(ix) != n or not all(q.c is not NOC and isinstance(q.c, (bool, int)) for q in ix): return None
        return [q for k, b in enumerate(ix) if b.c for q in oi[k * w:(k + 1) * w]]
    out = []
    for x in ix:
        if isnumc(x) and isinstance(x.c, int) and -n <= x.c < n: out += [q.dep(x.deps) for q in oi[(x.c % n) * w:(x.c % n + 1) * w]]
        elif w == 1 and (q := picked(oi, x)) is not None: out.append(q)
        else: return None
    return out
def fancy(I, o, idx, st, node):
    e = elem(I, st, o)
    dd = o.deps
    shape = None
    its = None
    lins = []
    for x in idx:
        if x.k in ('arr', 'list'):
            q = elem(I, st, x)
            dd = dd | x.deps | q.deps; lins.append(q.lin)
        else: dd = dd | x.deps
    i = idx[0]
    if len(idx) == 1 and i.k in ('arr', 'list'):
        q = elem(I, st, i)
        s = shp(i)
        if i.k == 'list': s = (length(I, st, i),)
        boolm = (i.dt if i.k == 'arr' else q.dt) == DB
        if boolm: shape = ((None,) + tuple(o.shape[len(s):]) if o.shape is not None and s is not None else None)
        elif s is not None and o.shape is not None: shape = tuple(s) + tuple(o.shape[1:])
        perm = q.t is not None and isinstance(q.t, tuple) and q.t[0] == 'argsort'
        lin = e.lin if all(l in ('K', 'Z') for l in lins) or e.lin in ('K', 'Z') else ('U' if 'U' in lins or e.lin == 'U' else 'N')
        if e.lin in ('K', 'Z') and not all(l in ('K', 'Z') for l in lins): lin = 'N' if 'U' not in lins else 'U'
        r = e.r(deps=I.relabel(e.deps, 'unk') | dd, lin=lin, t=term('gather', e.t, q.t), cur=None)
        I.event('gather', node, src=o, index=i, indexelem=q, elem=e)
        ii, oi = (I.items(st, i), I.items(st, o)) if not boolm else (None, None)
        its = rowsat(I, st, o, i, boolm)
        if its is not None and boolm and shape is not None: shape = (Dim(len(its) // max(1, len(I.vitems(st, o)) // o.shape[0].const)),) + tuple(o.shape[1:])
        if its is None and ii is not None and oi is not None:
            its = [oi[x.c] if isnumc(x) and isinstance(x.c, int) and -len(oi) <= x.c < len(oi) else picked(oi, x) for x in ii]
            if any(x is None for x in its): its = None
        return [(I.arr(st, node, r, shape, items=its, dt=o.dt, deps=dj(o, *idx)), st)]
    r = e.r(deps=I.relabel(e.deps, 'unk') | dd, t=None, cur=None, lin=e.lin if all(l in ('K', 'Z') for l in lins) else 'U')
    return [(I.arr(st, node, r, None, dt=o.dt, deps=dd), st)]

def setitem(I, o, i, v, st, node):
    if o.k == 'arr': return arrset(I, o, i, v, st, node)
    if o.k == 'list':
        v = I.pcv(st, v)
        its = I.items(st, o)
        for l in o.locs:
            c = I.cell(st, l)
            I.event('write', node, loc=l, target=o, value=v, index=i, via='setitem', locks=st.locks, state=st)
            I.effect(st, l, 'content', node)
            fl = c.flag | ({'wr'} if I.loops else E0)
            if isinstance(c.items, tuple) and isnumc(i) and isinstance(i.c, int) and len(o.locs) == 1 and not c.multi:
                if -len(c.items) <= i.c < len(c.items):
                    x = list(c.items); x[i.c] = v
                    I.setcell(st, l, c.r(items=tuple(x), flag=fl)); continue
                I.raise_(st, 'IndexError', node); return []
            vv = v if i.k != 'slice' else I.content(st, v, 'unk')
            if isinstance(c.items, tuple):
                if i.k == 'slice':
                    e = vv
                    for x in c.items: e = vjoin(e, x)
                    I.setcell(st, l, c.r(items=None, elem=e, flag=fl | {'grown'}))
                else: I.setcell(st, l, c.r(items=tuple(vjoin(x, vv) for x in c.items), flag=fl))
            else: I.setcell(st, l, c.r(elem=vv if c.elem is None else vjoin(c.elem, vv), flag=fl | ({'grown'} if i.k == 'slice' else E0)))
        return [st]
    if o.k == 'dict':
        v = I.pcv(st, v)
        if isinstance(o.t, tuple) and o.t[:1] == ('selfdict',):
            if not isinstance(i.c, str): raise _ip.Unsupported('__dict__')
            return I.setfield(st, V('inst', locs=frozenset([o.t[1]])), i.c, v, node)
        for l in o.locs:
            c = I.cell(st, l)
            I.event('write', node, loc=l, target=o, value=v, index=i, via='setitem', locks=st.locks, state=st)
            I.effect(st, l, 'content', node)
            if isinstance(c.items, dict):
                if i.c is not NOC and _ip._hashable(i.c) and i.k in ('str', 'num', 'bool', 'none'):
                    it = dict(c.items); it[i.c] = v if len(o.locs) == 1 and not c.multi or i.c not in it else vjoin(it[i.c], v)
                    I.setcell(st, l, c.r(items=it))
                else:
                    e = v
                    for x in c.items.values(): e = vjoin(e, x)
                    I.setcell(st, l, c.r(items=None, elem=e, flag=c.flag | {'grown'}))
            else: I.setcell(st, l, c.r(elem=v if c.elem is None else vjoin(c.elem, v), flag=c.flag | {'grown'}))
        return [st]
    if o.k == 'inst' and isinstance(o.c, ClassInfo):
        p = I.lookup_live(st, o.c, '__setitem__')
        if p: return [s for _, s in I.call(I.bind(p[1], o, p[0]), [i, v], {}, st, node)]
    if o.k in ('tuple', 'str', 'none', 'num', 'bool', 'bytes'):
        I.raise_(st, 'TypeError', node); return []
    for l in o.locs:
        I.event('write', node, loc=l, target=o, value=v, index=i, via='setitem', locks=st.locks, state=st)
        I.effect(st, l, 'content', node)
    I.event('extstore', node, target=o, attr='[]', value=v)
    return [st]
def arrset(I, o, i, v, st, node):
    idx = i.c if i.k == 'tuple' and isinstance(i.c, tuple) else (i,)
    if v.k == 'none': I.raise_(st, 'TypeError', node); return []
    if v.k == 'str':
        I.raise_(st, 'ValueError', node); return []
    val = elem(I, st, v)
    sh = o.shape
    scalar = len(idx) == 1 and idx[0].k in ('num', 'bool') and (sh is not None and len(sh) == 1)
    full = False
    if len(idx) == 1 and idx[0].k == 'slice': full = all(x.k == 'none' for x in idx[0].c)
    elif idx[0].k == 'ellipsis': full = len(idx) == 1
    elif all(x.k == 'slice' and all(y.k == 'none' for y in x.c) for x in idx): full = True
    x = idx[0]
    if len(idx) == 1 and sh is not None and len(sh) == 1 and v.k in ('arr', 'list', 'tuple') and x.k in ('num',):
        s = shp(v)
        if s is not None and len(s) and all(q is not None and (q.low() or 0) >= 2 for q in s): I.raise_(st, 'ValueError', node); return []
    its = I.items(st, o)
    items = None
    if its is not None and not I.isview(o) and len(o.locs) == 1 and len(idx) == 1:
        n = len(its)
        if x.k in ('num', 'bool') and isnumc(x) and isinstance(x.c, int):
            if not -n <= x.c < n: I.raise_(st, 'IndexError', node); return []
            items = list(its); items[x.c] = I.pcv(st, val)
        elif x.k == 'slice' and consts(x) is not None:
            pos = list(range(n))[slice(*consts(x))]
            if v.k in ('num', 'bool'): vs = [val] * len(pos)
            else:
                vs = I.items(st, v)
                if vs is not None and len(vs) == 1: vs = list(vs) * len(pos)
                if vs is not None and len(vs) != len(pos): I.raise_(st, 'ValueError', node); return []
            if vs is not None:
                items = list(its)
                for p, q in zip(pos, vs): items[p] = I.pcv(st, q)
        if items is not None and I.block_mode and v.k == 'arr' and isinstance(v.c, tuple): pass
    sp = old = None
    if items is None and len(o.locs) == 1 and not full or full and I.isview(o):
        sp = selpos(I, st, o, idx)
        if sp is not None:
            old = I.cell(st, next(iter(o.locs))).items
            if v.k in ('num', 'bool'): sv = [val] * len(sp)
            else:
                sv = flat(I, st, v) if v.k in ('arr', 'list', 'tuple') else None
                if sv is not None and len(sv) == 1: sv = list(sv) * len(sp)
                elif sv is not None and len(sv) != len(sp): sv = None if len(sp) % max(len(sv), 1) or v.k == 'arr' and (v.shape is None or len(v.shape) != 1) else list(sv) * (len(sp) // len(sv)) if len(sv) else None
            if sv is None: sp = None
    if sp is None and items is None and not full and _ip.NORMAL and len(o.locs) == 1 and len(idx) == 1 and x.k == 'arr' and x.dt == DB and v.k in ('arr', 'list', 'tuple'):
        # a mask of known values selects known places
        pos, ms, vs = I.vpos(st, o), flat(I, st, x), flat(I, st, v)
        its0 = I.cell(st, next(iter(o.locs))).items
        if pos is not None and ms is not None and vs is not None and isinstance(its0, tuple) and len(ms) == len(pos) and x.shape is not None and len(x.shape) == len(sh or ()) and all(m.c is True or m.c is False for m in ms):
            at = [p for m, p in zip(ms, pos) if m.c]
            if len(vs) == 1: vs = list(vs) * len(at)
            if len(vs) != len(at): I.raise_(st, 'ValueError', node); return []
            old, sp, sv = its0, at, list(vs)
    if sp is None and items is None and not full and _ip.NORMAL and len(o.locs) == 1 and len(idx) == 1 and x.k == 'arr' and v.k in ('num', 'bool'):
        pos, ms = I.vpos(st, o), flat(I, st, x)
        its0 = I.cell(st, next(iter(o.locs))).items
        if pos is not None and ms is not None and isinstance(its0, tuple):
            if x.dt == DB and len(ms) == len(pos) and x.shape is not None and len(x.shape) == len(sh or ()):
                old, sp = its0, pos; sv = [cond(m, val, its0[p]) for m, p in zip(ms, pos)]
            elif x.dt == DI and sh is not None and len(sh) == 1 and all(isnumc(m) and isinstance(m.c, int) and -len(pos) <= m.c < len(pos) for m in ms):
                old = its0; sp = [pos[m.c] for m in ms]; sv = [val] * len(sp)
    # shape check of slice assignment
    if len(idx) == 1 and x.k == 'slice' and sh is not None and len(sh) == 1 and v.k == 'arr' and v.shape is not None and len(v.shape) == 1:
        n = slicedim(sh[0], *sldims(x)); m = v.shape[0]
        if n is not None and m is not None and m.const != 1:
            c = dcmp(n, m)
            if c in (1, -1): I.raise_(st, 'ValueError', node); return []
    dd = E0
    for q in idx:
        if q.k in ('arr', 'list'): dd = dd | elem(I, st, q).deps
        else: dd = dd | frozenset(z for z in q.deps if not (isinstance(z, str) and z.startswith(('pos:', 'len:', 'carry:'))))
    if full or scalar: dd = E0 if full else dd
    masked = any(q.k in ('arr', 'list') for q in idx)
    if masked:
        ms = [elem(I, st, q) for q in idx if q.k in ('arr', 'list')]
        if not all(q.lin in ('K', 'Z') for q in ms): val = val.r(lin='U' if any(q.lin == 'U' for q in ms) or val.lin == 'U' else 'N')
    val = val.r(deps=val.deps | dd, cur=None, d=None) if dd else val.r(cur=None, d=None)
    if sp is not None:
        store(I, st, o, val.r(t=None), node, index=i)
        putitems(I, st, o, old, sp, sv)
    elif full: store(I, st, o, val, node, full=True, index=i, items=items)
    elif items is not None:
        store(I, st, o, val.r(t=None), node, index=i)
        l = next(iter(o.locs)); c = I.cell(st, l)
        if not c.multi:
            sv = tuple(q.r(k='num', dt=o.dt, locs=E0, cur=None, shape=None) if q.k == 'num' else q for q in items)
            e = None
            for q in sv: e = q if e is None else vjoin(e, q)
            I.setcell(st, l, c.r(items=sv, elem=e))
    else: store(I, st, o, val.r(t=val.t), node, index=i)
    return [st]
def relslice(I, deps, lab):
    if lab == 'el': return deps
    return frozenset((lab + d[2:]) if isinstance(d, str) and d.startswith('el:') else d for d in deps)

# ------------------------------------------------------------------ attributes
def dimv(I, d, deps=E0):
    if d is None: return V('num', dt=DI, iv=(0, True, INF, False), deps=deps, mv=frozenset(['const']))
    if I.lenlabel:
        for a in atoms(d):
            l = I.lenlabel.get(a)
            if l: deps = deps | {l}
    return vdim(d, deps)
def atoms(d):
    for a, _ in d.m:
        if isinstance(a, str): yield a
        else:
            yield a
            for x in a[1:]:
                if isinstance(x, Dim): yield from atoms(x)
def getattr_(I, o, name, st, node):
    if o.k == 'arr':
        if name == 'shape':
            if o.shape is None: return [(V('any', deps=o.deps, t=None), st)]
            return [(V('tuple', c=tuple(dimv(I, x, o.deps) for x in o.shape)), st)]
        if name == 'ndim': return [(vconst(len(o.shape)).dep(o.deps) if o.shape is not None else V('num', dt=DI, deps=o.deps, iv=(0, True, INF, False)), st)]
        if name == 'size':
            if o.shape is not None and all(x is not None for x in o.shape):
                d = Dim(1)
                for x in o.shape: d = d.mul(x)
                return [(dimv(I, d, o.deps), st)]
            return [(V('num', dt=DI, deps=o.deps, iv=(0, True, INF, False)), st)]
        if name == 'T': return [(transpose(I, o), st)]
        if name == 'dtype': return [(V('dtype', dt=o.dt, deps=frozenset(d for d in o.deps)), st)]
        if name in ('real', 'imag'):
            e = elem(I, st, o)
            I.event('part', node, part=name, value=e)
            if name == 'real' and o.dt is not None and 'c' not in o.dt: return [(o.r(cur=o.cur or ('view', (None, None, None))), st)]
            r = sun(name, e)
            its = flat(I, st, o)
            return [(I.arr(st, node, r, o.shape, items=[sun(name, q) for q in its] if its is not None else None, deps=o.deps, tag=name).r(cur=None), st)]
        if name == 'flat': return [(I.marked(subview(I, o, (None,)), 'an array iterator'), st)]
        if name in ('base', 'flags', 'strides', 'itemsize', 'nbytes', 'data', 'ctypes'): return [(vany(o.deps), st)]
        return [(V('func', c=('method', o, name)), st)]
    if o.k in ('num', 'bool'):
        if name in ('real', 'imag'):
            I.event('part', node, part=name, value=o)
            return [(sun(name, o), st)]
        if name == 'dtype': return [(V('dtype', dt=o.dt), st)]
        if name == 'shape': return [(V('tuple', c=()), st)]
        if name in ('ndim',): return [(vconst(0), st)]
        if name in ('size',): return [(vconst(1), st)]
        if name == 'T': return [(o, st)]
        if name in ('append', 'extend', 'keys', 'items', 'strip', 'title', 'upper', 'lower', 'write', 'shape_'): I.raise_(st, 'AttributeError', node); return []
        return [(V('func', c=('method', o, name)), st)]
    if o.k == 'none':
        if name in ('__class__', '__doc__'): return [(vany(), st)]
        I.raise_(st, 'AttributeError', node); return []
    if o.k == 'dtype':
        if name == 'type': return [(V('dtype', c='type', dt=o.dt, deps=o.deps), st)]
        if name in ('kind', 'char'):
            if o.dt is not None and len(o.dt) == 1 and name == 'kind': return [(vconst(next(iter(o.dt))).dep(o.deps), st)]
            return [(vstr(o.deps), st)]
        return [(vany(o.deps), st)]
    if o.k in ('list', 'tuple', 'dict', 'str', 'set', 'bytes', 'iter', 'range', 'slice'):
        if o.k in ('list', 'tuple', 'dict', 'str') and name in ('shape', 'dtype', 'ndim', 'size', 'T', 'real', 'imag', 'astype', 'any', 'all', 'sum', 'write', 'mean', 'dot'):
            I.raise_(st, 'AttributeError', node); return []
        if o.k == 'slice' and name in ('start', 'stop', 'step'): return [(o.c[('start', 'stop', 'step').index(name)], st)]
        return [(V('func', c=('method', o, name)), st)]
    if o.k == 'cls':
        n = o.c if isinstance(o.c, str) else o.c.name
        if name == '__name__': return [(vconst(n.rsplit('.', 1)[-1]), st)]
        if isinstance(o.c, str): return [(func(o.c + '.' + name), st)]
        return [(vany(), st)]
    if o.k == 'func':
        if o.c[0] == 'ext': return [(resolve(I, o.c[1] + '.' + name), st)]
        if name == '__name__': return [(vstr(), st)]
        if o.c[0] == 'cached' and name.startswith('cache_'): return [(V('func', c=('noop', name, None)), st)]
        return [(vany(), st)]
    if o.k == 'ext':
        return extattr(I, o, name, st, node)
    if o.k == 'exc':
        return [(vany(o.deps), st)]
    if o.k == 'super': return [(V('func', c=('noop', name, None)), st)]
    if o.k == 'prop': return [(vany(), st)]
    # any
    if name == 'dtype' and o.dt is not None: return [(V('dtype', dt=o.dt, deps=o.deps), st)]
    return [(V('any', deps=o.deps, lin=lunk([o.lin]), t=term('attr', o.t, name), locs=o.locs if name in ('real', 'T', 'flat') else E0, c=('attrof', o, name)), st)]
LEVELS = {'TRACE': 5, 'DEBUG': 10, 'INFO': 20, 'SUCCESS': 25, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
def extattr(I, o, name, st, node):
    k = o.c[0]
    if k == 'level':
        if name == 'no': return [(vconst(o.c[2]).dep(o.deps).r(t=term('level.no', o.t)) if o.c[2] is not None else V('num', dt=DI, iv=(0, True, INF, False), deps=o.deps, t=term('level.no', o.t)), st)]
        if name == 'name': return [(vconst(o.c[1]).dep(o.deps) if o.c[1] is not None else vstr(o.deps, term('level.name', o.t)), st)]
        return [(vany(o.deps), st)]
    if k == 'finfo':
        f = {'max': 1.7976931348623157e308, 'min': -1.7976931348623157e308, 'eps': 2.220446049250313e-16, 'tiny': 2.2250738585072014e-308, 'resolution': 1e-15, 'smallest_normal': 2.2250738585072014e-308}
        if o.c[1] == 'numpy.iinfo': return [(V('num', dt=DI, deps=o.deps), st)]
        return [(vconst(f[name]) if name in f else V('num', dt=DF, t=('finfo', name)), st)]
    if k == 'gmm' and name in ('precisions_', 'means_', 'weights_', 'covariances_', 'precisions_cholesky_', 'converged_', 'n_iter_', 'lower_bound_', 'n_features_in_'):
        l = next(iter(o.locs), None); c = I.cell(st, l) if l else None
        if c is None or 'fitted' not in c.flag: I.may_raise(st, 'AttributeError', node)
        if c is not None and c.attrs and name in c.attrs: return [(c.attrs[name], st)]
        return [(V('any', deps=o.deps | (c.elem.deps if c is not None and c.elem is not None else E0)), st)]
    if k == 'gmm':
        return [(V('func', c=('method', o, name)), st)]
    if k == 'response' and name == 'ok':
        bad = st.copy(); st.trace = st.trace + ('goodstatus',); bad.trace = bad.trace + ('badstatus',)
        return [(vbool(True, o.deps), st), (vbool(False, o.deps), bad)]
    if k == 'response' and name == 'status_code':
        return [(V('num', dt=DI, iv=(100, True, 599, True), deps=o.deps | {'status'}, t=term('response', name)), st)]
    if k == 'response' and name in ('status_code', 'ok', 'text', 'content', 'headers', 'url', 'reason', 'history', 'encoding', 'request', 'elapsed'):
        return [(V('bool' if name == 'ok' else 'any', deps=o.deps, t=term('response', name)), st)]
    if k in ('session',) and name in ('proxies', 'headers', 'auth', 'params', 'timeout', 'verify', 'cert', 'trust_env', 'max_redirects'):
        return [(V('ext', c=('sessattr', o, name), t=term('session', name)), st)]
    return [(V('func', c=('method', o, name)), st)]
def transpose(I, o):
    if o.shape is not None and len(o.shape) <= 1: return o
    cur = ('view',)
    if o.shape is not None and csize(o.shape) is not None and len(o.shape) == 2:
        n = csize(o.shape); p = None
        if not I.isview(o): p = tuple(range(n))
        elif isinstance(o.cur, tuple) and len(o.cur) == 2 and o.cur[1][0] == 'pos': p = o.cur[1][1]
        r, c = o.shape[0].const, o.shape[1].const
        if p is not None and len(p) == n and n <= max(64, _ip.MAXITEMS): cur = ('view', ('pos', tuple(p[i * c + j] for j in range(c) for i in range(r))))
    return o.r(shape=tuple(reversed(o.shape)) if o.shape is not None else None, cur=cur, c=o.c if isinstance(o.c, tuple) else NOC)

# ------------------------------------------------------------------ calls
MUTATING = {'sort', 'fill', 'put', 'resize', 'partition', 'itemset', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'update', 'popitem', 'setdefault', 'add', 'discard', '__setitem__', 'setflags', 'byteswap', 'appendleft', 'popleft', 'rotate', '__iadd__', 'difference_update', 'intersection_update'}
def argdeps(I, st, args, kw):
    d = E0; ls = []
    for v in (args.raw() if isinstance(args, Args) else list(args)) + list(kw.values()):
        e = I.content(st, v, 'unk') if v.k in ('arr', 'list', 'tuple', 'set') and (v.locs or v.k == 'tuple') else v
        if v.k == 'dict':
            it = dict_items(I, st, v)
            for x in (it or {}).values():
                d = d | x.deps
                if x.k in ('arr', 'list', 'tuple'): d = d | I.content(st, x, 'unk').deps
        d = d | e.deps | v.deps; ls.append(e.lin)
    return I.relabel(d, 'unk'), lunk(ls)
def extevent(I, name, args, kw, st, node):
    I.event('extcall', node, name=name, args=args, kw=kw, locks=st.locks, state=st)
def unknown_call(I, fv, args, kw, st, node):
    nm = fv.c[1] if fv.k == 'func' and isinstance(fv.c, tuple) else repr(fv)
    if isinstance(nm, Func): nm = nm.name
    d, l = argdeps(I, st, args, kw)
    if fv.k == 'any' and isinstance(fv.c, tuple) and fv.c and fv.c[0] == 'attrof':
        # method of an unknown object
        I.event('anycall', node, obj=fv.c[1], method=fv.c[2], args=args, kw=kw, state=st)
        if fv.c[2] in MUTATING:
            for lo in fv.c[1].locs:
                I.event('write', node, loc=lo, target=fv.c[1], value=args[0] if args else NONE, index=None, via=fv.c[2], locks=st.locks, state=st); I.effect(st, lo, 'content', node)
    if fv.k in ('none', 'num', 'bool', 'str', 'list', 'tuple', 'arr', 'dict', 'mod'):
        I.raise_(st, 'TypeError', node); return []
    I.unknown_calls[str(nm)] = I.unknown_calls.get(str(nm), 0) + 1
    if I.fail_calls:
        x = I.fail_calls(str(nm), args, kw, st, node)
        if x: I.may_raise(st, x, node, ext=str(nm))
    return [(vany(d | fv.deps, l, t=term('call', fv.t, *[a.t for a in args]) if fv.t is not None and not kw else None), st)]
def call(I, name, args, kw, st, node):
    """Call of an external function or class."""
    r = call0(I, name, args, kw, st, node)
    for k in [k for k in kw if k.startswith('overwrite_')] if kw else ():
        o = args[1] if k == 'overwrite_b' and len(args) > 1 and name.startswith('scipy.linalg') else args[0] if args else None
        if o is not None and o.k == 'arr' and truth(I, kw[k], st) is not False:
            for _, s in ([(r, st)] if isinstance(r, V) else r): store(I, s, o, V('num', dt=o.dt, deps=o.deps, lin='U'), node, full=False, via=f'{name}({k})')
    return r
def call0(I, name, args, kw, st, node):
    extevent(I, name, args, kw, st, node)
    if I.ext_hook:
        r = I.ext_hook(I, name, args, kw, st, node)
        if r is not None: return r
    if I.fail_calls:
        x = I.fail_calls(name, args, kw, st, node)
        if x: I.may_raise(st, x, node, ext=name)
    if name in I.tracked: st.trace = st.trace + (name,)
    f = CALLS.get(name)
    if f is None:
        m, _, n = name.rpartition('.')
        if m in ('numpy', 'math', 'cmath', 'scipy.special') and n in UN and args:
            return unary(I, n, args, kw, st, node, m != 'numpy')
        if m == 'numpy.random' or m == 'random' or name.startswith(('numpy.random.', 'secrets.')): return [(V('any' , deps=argdeps(I, st, args, kw)[0] | {'rng'}), st)]
        if name.startswith(('time.', 'datetime.', 'uuid.')): return [(vany(frozenset(['clock'])), st)]
        if name.startswith(('os.', 'socket.', 'platform.')): return [(vany(frozenset(['env']) | argdeps(I, st, args, kw)[0]), st)]
        if n[:1].isupper() and n.endswith(('Error', 'Exception', 'Warning')): return [(V('exc', c=n), st)]
        import builtins as b
        x = getattr(b, n, None) if m == 'builtins' else None
        if isinstance(x, type) and issubclass(x, BaseException): return [(V('exc', c=n), st)]
        u = UFB.get(n) if m in ('numpy', 'operator', 'math') else None
        if u and len(args) >= 2:
            return outarg(I, elementwise(I, st, node, args[:2], u) if m == 'numpy' or all(a.k in ('num', 'bool') for a in args[:2]) else binop(I, UFN[n], args[0], args[1], st, node), args, kw, node, 2)
        u = CMPB.get(n) if m in ('numpy', 'operator') else None
        if u and len(args) == 2: return compare(I, u, args[0], args[1], st, node)
        I.unknown_calls[name] = I.unknown_calls.get(name, 0) + 1
        d, l = argdeps(I, st, args, kw)
        out = kw.get('out')
        if out is not None and out.k == 'arr':
            I.store_content(st, out, V('num', dt=out.dt, deps=d, lin=l), node, full=True, via=name); return [(out, st)]
        return [(I.marked(V('any', deps=d, lin=l, t=term('call', name, *[a.t for a in args]) if not kw else None), nopickle(name, args)), st)]
    return exact(I, f, name, args, kw, st, node)
def nopickle(name, args):
    if name in ('collections.defaultdict', 'numpy.vectorize') and args and args[0].k == 'func' and isinstance(args[0].c, tuple) and isinstance(args[0].c[1], Func) and args[0].c[1].closure is not None: return 'a lambda or locally defined function'
    return NOPICKLE.get(name)
NOPICKLE = {'builtins.memoryview': 'a memory view', 'numpy.nditer': 'an array iterator', 'numpy.flatiter': 'an array iterator', 'weakref.ref': 'a weak reference', 'weakref.proxy': 'a weak reference', 'weakref.WeakKeyDictionary': 'weak references', 'weakref.WeakValueDictionary': 'weak references', 'types.MappingProxyType': 'a mapping proxy', 'threading.local': 'thread local data', 'threading.Thread': 'a thread', 'threading.Event': 'a lock', 'concurrent.futures.ThreadPoolExecutor': 'a thread pool', 'socket.socket': 'a socket', 'contextvars.ContextVar': 'a context variable'}
def exact(I, f, name, args, kw, st, node):
    """Result of a transfer function, which is unknown where there is an argument it does not look at."""
    if kw or len(args) > 1:
        ta, tk = Args(args), Kw(kw)
        r = f(I, name, ta, tk, st, node)
        if isinstance(r, V): r = [(r, st)]
        left = [k for k in kw if k not in tk.read and k not in NEUTRAL] + [i for i in range(len(args)) if i not in ta.read]
        if 'out' in left and kw['out'].k == 'arr' and r:
            d, l = argdeps(I, st, args, kw)
            for _, s in r: store(I, s, kw['out'], V('num', dt=kw['out'].dt, deps=d, lin='U'), node, full=True, via=name)
        if left and name.split('.')[0] in EXACT and r and name not in ALLKW:
            I.unknown_calls[f'{name}({left[0]})'] = I.unknown_calls.get(f'{name}({left[0]})', 0) + 1
            d, l = argdeps(I, st, args, kw)
            return [(vany(d, l), s) for _, s in r[:1]]
        return r
    r = f(I, name, args, kw, st, node)
    if isinstance(r, V): r = [(r, st)]
    return r
class Args(list):
    """Positional arguments which remember those a transfer function looked at."""
    def __init__(s, a): list.__init__(s, a); s.read = set()
    def __getitem__(s, i):
        s.read.update(range(*i.indices(len(s))) if isinstance(i, slice) else [i if i >= 0 else i + len(s)])
        return list.__getitem__(s, i)
    def __iter__(s): s.read.update(range(len(s))); return list.__iter__(s)
    def __add__(s, o): s.read.update(range(len(s))); return list.__add__(s, o)
    def __radd__(s, o): s.read.update(range(len(s))); return list(o) + s.raw()
    def raw(s): return list.__getitem__(s, slice(None))
class Kw(dict):
    """Keyword arguments which remember those a transfer function looked at."""
    def __init__(s, a): dict.__init__(s, a); s.read = set()
    def __getitem__(s, k): s.read.add(k); return dict.__getitem__(s, k)
    def get(s, k, d=None): s.read.add(k); return dict.get(s, k, d)
    def pop(s, k, *d): s.read.add(k); return dict.pop(s, k, *d)
    def __contains__(s, k): s.read.add(k); return dict.__contains__(s, k)
    def items(s): s.read.update(s); return dict.items(s)
EXACT = {'numpy', 'math', 'cmath', 'scipy', 'builtins', 'itertools', 'functools', 'statistics', 'operator'}
ALLKW = {'builtins.dict', 'builtins.print', 'numpy.set_printoptions', 'numpy.seterr', 'numpy.errstate', 'functools.partial'}
NEUTRAL = {'kind', 'copy', 'casting', 'subok', 'optimize', 'rcond', 'check_finite', 'strict'}
CALLS = {}
def reg(*names):
    def g(f):
        for n in names: CALLS[n] = f
        return f
    return g
def bindp(args, kw, spec):
    """Positional names; returns list of V or None."""
    names = spec.split()
    o = [None] * len(names)
    for i, a in enumerate(args[:len(names)]): o[i] = a
    for i, n in enumerate(names):
        if n in kw: o[i] = kw[n]
    return o
UFN = {'add': 'Add', 'subtract': 'Sub', 'sub': 'Sub', 'multiply': 'Mult', 'mul': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'truediv': 'Div', 'power': 'Pow', 'pow': 'Pow', 'float_power': 'Pow', 'mod': 'Mod', 'remainder': 'Mod', 'fmod': 'Mod', 'floor_divide': 'FloorDiv', 'floordiv': 'FloorDiv', 'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr', 'bitwise_xor': 'BitXor'}
UFB = {n: (lambda op: (lambda x, y: sbin(op, x, y)))(o) for n, o in UFN.items() if n != 'fmod'}
def _fmod(a, b):
    r = sbin('Mod', a, b)
    if isnumc(a) and isnumc(b):
        try: return vconst(math.fmod(a.c, b.c)).r(deps=r.deps)
        except Exception: pass
    iv = (-b.c, False, b.c, False) if isnumc(b) and b.c > 0 else None
    return r.r(c=NOC, iv=iv, t=tnorm('fmod', a.t, b.t), d=None)
UFB['fmod'] = _fmod
def _mm(sym):
    def f(a, b):
        a, b = asnum(a), asnum(b)
        if isnumc(a) and isnumc(b):
            try: return vconst(max(a.c, b.c) if sym == 'max' else min(a.c, b.c)).r(deps=a.deps | b.deps)
            except TypeError: pass
        lin = a.lin if a.lin == b.lin and a.lin in ('K', 'Z') else lnon('K' if a.lin in ('K','Z') and b.lin in ('K','Z') else 'N') if isinstance(a.lin, str) and isinstance(b.lin, str) and 'U' not in (a.lin, b.lin) else ('U' if 'U' in (a.lin, b.lin) else 'N')
        if a.lin in ('K', 'Z') and b.lin in ('K', 'Z'): lin = 'K'
        elif isinstance(a.lin, tuple) and (a.lin == b.lin or b.lin == 'Z'): lin = a.lin
        elif isinstance(b.lin, tuple) and a.lin == 'Z': lin = b.lin
        iv = None
        if a.iv is not None or b.iv is not None:
            x, y = a.iv or IVTOP, b.iv or IVTOP
            if sym == 'max':
                lo = (x[0], x[1]) if x[0] > y[0] else (y[0], y[1]) if y[0] > x[0] else (x[0], x[1] and y[1])
                hi = (x[2], x[3]) if x[2] > y[2] else (y[2], y[3]) if y[2] > x[2] else (x[2], x[3] or y[3])
            else:
                lo = (x[0], x[1]) if x[0] < y[0] else (y[0], y[1]) if y[0] < x[0] else (x[0], x[1] or y[1])
                hi = (x[2], x[3]) if x[2] < y[2] else (y[2], y[3]) if y[2] < x[2] else (x[2], x[3] and y[3])
            iv = lo + hi
        d = None
        if a.d is not None and b.d is not None:
            c = dcmp(a.d, b.d)
            if c in (0, -1, 'le'): d = b.d if sym == 'max' else a.d
            elif c in (1, 'ge'): d = a.d if sym == 'max' else b.d
        return V('num', dt=promote(a.dt, b.dt), iv=iv, deps=a.deps | b.deps, lin=lin, mv=mjoin(a.mv, b.mv), t=tnorm(sym, *sorted((a.t, b.t), key=repr)) if a.t is not None and b.t is not None else None, d=d)
    return f
UFB['maximum'] = UFB['fmax'] = _mm('max'); UFB['minimum'] = UFB['fmin'] = _mm('min')
def _atan2(a, b):
    if a.t is not None and b.t is not None and a.t[:1] == ('imag',) and b.t == ('real', a.t[1]): return V('num', dt=DF, iv=(-math.pi, True, math.pi, True), deps=a.deps | b.deps, lin='K' if lunk([a.lin, b.lin]) == 'K' else 'N', mv='A', t=('angle', a.t[1]))
    return V('num', dt=DF, iv=(-math.pi, True, math.pi, True), deps=a.deps | b.deps, lin='K' if lunk([a.lin, b.lin]) == 'K' else 'N', mv='A', t=tnorm('atan2', a.t, b.t))
UFB['arctan2'] = UFB['atan2'] = _atan2
def _hyp(a, b):
    lin = labs(a.lin) if a.lin == b.lin else ('K' if lunk([a.lin, b.lin]) == 'K' else 'U')
    return V('num', dt=DF, iv=(0.0, True, INF, False), deps=a.deps | b.deps, lin=lin, mv='A', t=tnorm('hypot', a.t, b.t))
UFB['hypot'] = _hyp
UFB['copysign'] = lambda a, b: V('num', dt=DF, deps=a.deps | b.deps, lin='K' if lunk([a.lin, b.lin]) == 'K' else 'N', mv='A', t=tnorm('copysign', a.t, b.t))
UFB['logical_and'] = UFB['logical_or'] = UFB['logical_xor'] = lambda a, b: V('num', dt=DB, deps=a.deps | b.deps, lin=cmplin(a, b))
CMPB = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq', 'contains': 'In_'}
del CMPB['contains']
def unary(I, n, args, kw, st, node, math_=False):
    v = args[0]
    if n in ('real', 'imag'):
        return getattr_(I, v, n, st, node) if v.k in ('arr', 'num', 'bool') else elementwise(I, st, node, [v], lambda x: sun(n, x))
    if v.k == 'any':
        return [(V('any', deps=v.deps, lin=lunk([v.lin]), t=term(n, v.t), dt=UN[n][0](v.dt)), st)]
    if v.k in ('none', 'str'): I.raise_(st, 'TypeError', node); return []
    if n in ('isnan', 'isinf', 'isfinite') and ip.NORMAL:      # formal values are numbers
        return elementwise(I, st, node, [v], lambda x: vconst(n == 'isfinite').r(deps=x.deps) if x.c is NOC and x.t is not None else sun(n, x))
    if n in ('fabs', 'floor', 'ceil', 'trunc') or n in ('sqrt', 'sin', 'cos', 'exp', 'log') and False:
        pass
    if n == 'log' and len(args) == 2 and math_ and all(a.k in ('num', 'bool') for a in args):
        return [(sbin('Div', sun('log', v), sun('log', args[1])), st)]
    dg = (kw.get('deg') or (args[1] if len(args) > 1 else None)) if n == 'angle' else None
    if n == 'log' and len(args) > 1 and math_ or set(kw) - {'out', 'x', 'val'} or dg is not None and truth(I, dg, st) is None:
        d, l = argdeps(I, st, args, kw); return [(vany(d, l), st)]
    f = lambda x: sun(n, x)
    if dg is not None and truth(I, dg, st): f = lambda x: sun('rad2deg', sun(n, x))
    elif n in ('floor', 'ceil', 'rint', 'trunc', 'fix', 'sign') and not math_:
        def f(x):
            r = sun(n, x)
            return vconst(float(r.c)).r(deps=r.deps, lin=r.lin) if isnumc(r) and not isinstance(r.c, complex) and x.dt is not None and 'f' in x.dt else r
    return outarg(I, elementwise(I, st, node, [v], f), args, kw, node, 1)
def outarg(I, res, args, kw, node, npos):
    out = kw.get('out') or (args[npos] if len(args) > npos and args[npos].k == 'arr' else None)
    if out is None or out.k == 'none': return res
    if out.k == 'tuple' and out.c: out = out.c[0]
    r = []
    for v, s in res:
        store(I, s, out, elem(I, s, v), node, full=True, via='out'); r.append((out, s))
    return r

# --- numpy construction
def nested(I, st, v):
    """( element summary, shape, items ) of an array-like value."""
    if v.k in ('num', 'bool'): return v, (), None
    if v.k == 'arr':
        return elem(I, st, v).r(dt=v.dt), v.shape, flat(I, st, v)
    if v.k == 'range':
        n = length(I, st, v); its = I.items(st, v)
        return V('num', dt=DI, deps=v.deps, mv=frozenset(['const'])), (n,), its
    if v.k in ('list', 'tuple', 'set'):
        its = I.items(st, v)
        if its is not None:
            if not its: return V('num', c=NOC, dt=DF, lin='Z', mv=E0, deps=v.deps), (Dim(0),), ()
            if all(x.k in ('num', 'bool') for x in its):
                e = None
                dt = promote(*[x.dt for x in its])
                for x in its: e = x if e is None else vjoin(e, x)
                return e.r(dt=dt, deps=e.deps | v.deps, t=term('vec', *[x.t for x in its]) if all(x.t is not None for x in its) else None), (D(len(its)),), tuple(x.dep(v.deps) for x in its)
            sub = [nested(I, st, x) for x in its]
            e = None; sh = sub[0][1]
            for x in sub:
                e = x[0] if e is None else vjoin(e, x[0])
                if x[1] is None or sh is None or len(x[1]) != len(sh): sh = None
                else: sh = tuple(p if p == q else None for p, q in zip(sh, x[1]))
            dt = promote(*[x[0].dt for x in sub])
            return e.r(dt=dt, deps=e.deps | v.deps, t=term('rows', *[x[0].t for x in sub]) if all(x[0].t is not None for x in sub) else None), ((D(len(its)),) + sh) if sh is not None else None, (lambda f: tuple(f) if f is not None and csize(((D(len(its)),) + sh) if sh is not None else None) == len(f) else None)(flat(I, st, v))
        ln = length(I, st, v)
        raw = rawelem(I, st, v)
        if raw is None: return vany(v.deps).r(k='num'), (ln,), None
        if raw.k in ('num', 'bool'):
            e = elem(I, st, v)
            return e.r(k='num', t=e.t), (ln,), None
        if raw.k in ('arr', 'list', 'tuple'):
            e, sh, _ = nested(I, st, raw)
            return e.r(deps=e.deps | v.deps, t=None), ((ln,) + sh) if sh is not None else None, None
        return V('num', dt=raw.dt, deps=raw.deps | v.deps, lin=lunk([raw.lin])), None, None
    if v.k == 'iter' and isinstance(v.c, tuple) and v.c[0] in ('items',):
        return nested(I, st, V('tuple', c=v.c[1], deps=v.deps))
    return V('num', dt=v.dt, deps=v.deps, lin='U' if v.lin not in ('K', 'Z') else v.lin, t=v.t), None, None

@reg('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.require', 'numpy.asfarray')
def _array(I, name, args, kw, st, node):
    x, dtv, cp = bindp(args, kw, 'object dtype copy') if name == 'numpy.array' else bindp(args, kw, 'a dtype copy')
    if name == 'numpy.copy': dtv = None
    if x is None: I.raise_(st, 'TypeError', node); return []
    dt = todt(I, dtv) if dtv is not None and dtv.k != 'none' else None
    unknown_dt = dtv is not None and dtv.k != 'none' and dt is None
    nm = name
    alias = name in ('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.require', 'numpy.asfarray') or (cp is not None and cp.c is not NOC and not cp.c and cp.k in ('bool', 'none') and name == 'numpy.array')
    if x.k == 'none':
        return I.arr(st, node, vany(x.deps).r(k='num'), ())
    if x.k == 'dict': return I.arr(st, node, vany(x.deps).r(k='num'), ())
    if alias and x.k == 'arr' and (dt is None and not unknown_dt or dt is not None and (x.dt is None or dt & x.dt)):
        return x
    if x.k == 'any' and x.locs and alias: return x
    e, sh, its = nested(I, st, x.r(deps=E0) if x.k == 'arr' and I.block_mode else x)      # what selects the part is not what its elements depend on
    return conv(I, st, node, e, sh, its, dt if dt is not None else (None if unknown_dt else e.dt), x.deps, x)
def conv(I, st, node, e, sh, its, dt, deps, src=None):
    if dt is not None and e.dt is not None and e.dt and dmin(e.dt) > dmax(dt): I.event('cast', node, value=e, dt=dt, src=src, explicit=True)
    if dt == DI and (e.dt is None or e.dt - DI - DB):
        def f(z):
            if isnumc(z) and not isinstance(z.c, complex) and math.isfinite(z.c): return vconst(int(z.c)).r(deps=z.deps, lin=z.lin)
            if z.dt is not None and not z.dt - DI - DB: return z.r(k='num', dt=dt)
            iv = None
            if z.iv is not None:
                g = lambda y: y if abs(y) == INF else int(y)
                iv = (g(z.iv[0]), abs(z.iv[0]) != INF, g(z.iv[2]), abs(z.iv[2]) != INF)
            return z.r(k='num', dt=dt, c=NOC, t=term('int', z.t), iv=iv, lin=lnon(z.lin) if not isinstance(z.lin, tuple) else 'N', d=None)
    else: f = lambda z: z.r(k='num', dt=dt, c=convc(z.c, dt), t=z.t)
    return I.arr(st, node, f(e), sh, dt=dt, items=[f(q) for q in its] if its is not None else None, deps=frozenset(deps))
def convc(c, dt):
    if c is NOC or not isinstance(c, NUMT) or dt is None or len(dt) != 1: return c if isinstance(c, NUMT) else NOC
    k = next(iter(dt))
    try: return {'f': float, 'c': complex, 'i': int, 'b': bool}[k](c)
    except Exception: return NOC
def shapearg(I, st, v):
    if v is None: return None
    if v.k in ('num', 'bool'): return (v.d,) if v.d is not None else (None,)
    its = I.items(st, v)
    if its is not None: return tuple(x.d for x in its)
    return None
def lenpos(I, v):
    pass
@reg('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full')
def _zeros(I, name, args, kw, st, node):
    if name == 'numpy.full': s, fv, dtv = bindp(args, kw, 'shape fill_value dtype')
    else: s, dtv = bindp(args, kw, 'shape dtype'); fv = vconst({'numpy.zeros': 0.0, 'numpy.ones': 1.0}.get(name, 0.0))
    if name == 'numpy.empty': fv = V('num', dt=DF, lin='N', deps=frozenset(['uninit']), mv=frozenset(['uninit']))
    if fv is None: fv = vnum()
    dt = todt(I, dtv) if dtv is not None and dtv.k != 'none' else (fv.dt if name == 'numpy.full' else DF)
    if dtv is not None and dtv.k != 'none' and dt is None: dt = None
    if name == 'numpy.full' and fv.k in ('arr', 'list'): fv = elem(I, st, fv)
    if name == 'numpy.full' and dt is not None and fv.dt and dmin(fv.dt) > dmax(dt): I.event('cast', node, value=fv, dt=dt, src=fv, explicit=True)
    sh = shapearg(I, st, s)
    if s is not None and s.k in ('num',) and s.dt == DF: I.raise_(st, 'TypeError', node); return []
    its = None
    e = fv.r(k='num', c=convc(fv.c, dt), dt=dt)
    if (n := csize(sh)) is not None and 0 <= n <= (_ip.MAXITEMS if len(sh) == 1 else max(_ip.MAXITEMS, 32)): its = [e] * n
    return I.arr(st, node, e, sh, dt=dt, items=its, deps=frozenset(d for d in dj(s) if not (isinstance(d, str) and d.startswith('len:'))))
@reg('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like')
def _like(I, name, args, kw, st, node):
    if name == 'numpy.full_like': x, fv, dtv = bindp(args, kw, 'a fill_value dtype')
    else: x, dtv = bindp(args, kw, 'a dtype'); fv = vconst({'numpy.zeros_like': 0.0, 'numpy.ones_like': 1.0}.get(name, 0.0))
    if name == 'numpy.empty_like': fv = V('num', dt=DF, lin='N', deps=frozenset(['uninit']), mv=frozenset(['uninit']))
    dt = todt(I, dtv) if dtv is not None and dtv.k != 'none' else None
    e, sh, its = nested(I, st, x)
    if dt is None: dt = e.dt
    e = fv.r(k='num', c=convc(fv.c, dt), dt=dt)
    its = None
    if (n := csize(sh)) is not None and 0 <= n <= (_ip.MAXITEMS if len(sh) == 1 else max(_ip.MAXITEMS, 32)): its = [e] * n
    return I.arr(st, node, e, sh, dt=dt, items=its)
@reg('numpy.arange')
def _arange(I, name, args, kw, st, node):
    a, b, s, dtv = bindp(args, kw, 'start stop step dtype')
    if b is None: a, b = vconst(0), a
    if a is None or b is None: return vany()
    s = s or vconst(1)
    dt = todt(I, dtv) if dtv is not None else promote(a.dt, b.dt, s.dt)
    n = rlen(a.d, b.d, s.d)
    e = V('num', dt=dt, deps=dj(a, b, s), lin=lunk([a.lin, b.lin, s.lin]), mv=frozenset(['const']), t=term('arange', a.t, b.t, s.t), iv=(a.iv[0], a.iv[1], b.iv[2], False) if a.iv is not None and b.iv is not None and isnumc(s) and s.c > 0 else None)
    its = None
    if n is not None and n.const is not None and n.const <= _ip.MAXITEMS and isnumc(a) and isnumc(s): its = [vconst(a.c + s.c * i) for i in range(n.const)]
    return I.arr(st, node, e, (n,), dt=dt, items=its)
@reg('numpy.linspace', 'numpy.logspace', 'numpy.geomspace')
def _linspace(I, name, args, kw, st, node):
    a, b, n, ep = bindp(args, kw, 'start stop num endpoint')
    n = n or vconst(50)
    ex = lunk([a.lin, b.lin, n.lin])
    d = dj(a, b, n)
    e = V('num', dt=promote(DF, a.dt, b.dt), deps=d, lin=ex, mv=frozenset(['const']), t=term(name, a.t, b.t, n.t, ep.t if ep is not None else ('c', True)))
    its = None
    if name.endswith('linspace') and n.c.__class__ is int and 0 <= n.c <= ip.MAXITEMS and isnumc(a) and isnumc(b) and (ep is None or ep.c in (True, False)):
        m = n.c - 1 if ep is None or ep.c else n.c
        its = [vconst((a.c + (b.c - a.c) * (i / m)) * 1.0 if m > 0 else a.c * 1.0).r(deps=d) for i in range(n.c)]
        if its and m == n.c - 1 and n.c > 1: its[-1] = vconst(b.c * 1.0).r(deps=d)
    return I.arr(st, node, e, (n.d,), dt=e.dt, items=its)
@reg('numpy.identity', 'numpy.eye')
def _eye(I, name, args, kw, st, node):
    n = args[0] if args else kw.get('n', kw.get('N'))
    its = [vconst(1.0 if i == j else 0.0).r(deps=n.deps) for i in range(n.c) for j in range(n.c)] if isnumc(n) and isinstance(n.c, int) and 0 < n.c * n.c <= _ip.MAXITEMS and len(args) < 2 and not set(kw) - {'n', 'N', 'dtype'} else None
    return I.arr(st, node, V('num', dt=DF, deps=n.deps, mv=frozenset(['const']), iv=(0, True, 1, True), t=term('identity', n.t)), (n.d, n.d), items=its)
def joinvals(I, st, vs):
    e = None; d = E0; dts = []
    for v in vs:
        x, s, _ = nested(I, st, v)
        x = x.r(deps=I.relabel(x.deps, 'unk'))
        dts.append(x.dt)
        e = x if e is None else vjoin(e, x)
        d = d | v.deps
    return e, d, promote(*dts) if dts else None
def seqargs(I, st, v):
    """Operands of concatenate like functions, or None."""
    return I.items(st, v)
@reg('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.r_')
def _concat(I, name, args, kw, st, node):
    if name == 'numpy.append':
        a, b, ax = bindp(args, kw, 'arr values axis'); vs = [a, b]
    else:
        s, ax = bindp(args, kw, 'arrays axis')
        vs = seqargs(I, st, s)
        if vs is None:
            e, sh, _ = nested(I, st, s)
            return I.arr(st, node, e.r(deps=I.relabel(e.deps, 'unk'), t=None), (None,) + tuple(sh[2:]) if sh is not None and len(sh) >= 2 else None, deps=s.deps)
        if not vs: I.raise_(st, 'ValueError', node); return []
    parts = [nested(I, st, v) for v in vs]
    if name != 'numpy.append' and any(p[1] == () for p in parts) and name == 'numpy.concatenate': I.raise_(st, 'ValueError', node); return []
    parts = [(p[0], (Dim(1),) if p[1] == () else p[1], p[2] if p[1] != () else (p[0],)) for p in parts]
    axis = ax.c if ax is not None and ax.k == 'num' and ax.c is not NOC else (0 if ax is None else None)
    if name == 'numpy.hstack': axis = 0 if all(p[1] is not None and len(p[1]) == 1 for p in parts) else 1
    # an empty list takes the kind of nothing: numpy promotes float64
    live = parts
    e = None
    for p in live: e = p[0] if e is None else vjoin(e, p[0])
    dt = promote(*[p[0].dt for p in live])
    dead = [p for p in live if p[1] is not None and len(p[1]) == 1 and p[1][0] is not None and p[1][0].const == 0]
    if len(live) - len(dead) == 1 and len(live) > 1:
        p = [p for p in live if p not in dead][0]; e = p[0]
    else:
        e = e.r(deps=I.relabel(e.deps, 'unk'), c=e.c)
    sh = None
    if axis is not None and all(p[1] is not None and len(p[1]) == len(parts[0][1]) for p in parts) and (not name == 'numpy.append' or ax is not None or all(len(p[1]) == 1 for p in parts)):
        rk = len(parts[0][1]); a = axis + rk if axis < 0 else axis
        if a < rk:
            sh = list(parts[0][1])
            tot = Dim(0)
            for p in parts: tot = tot.add(p[1][a]) if tot is not None and p[1][a] is not None else None
            sh[a] = tot
            for q in range(rk):
                if q != a:
                    cs = [p[1][q] for p in parts]
                    if any(dcmp(cs[0], z) in (1, -1) for z in cs[1:]): I.raise_(st, 'ValueError', node); return []
            sh = tuple(sh)
    elif name == 'numpy.concatenate' and len(parts) > 1 and all(p[1] is not None for p in parts) and all(len(p[1]) != len(parts[0][1]) for p in parts[1:]):
        I.raise_(st, 'ValueError', node); return []
    its = None
    if sh is not None and len(sh) == 1 and all(p[2] is not None for p in parts) and sum(len(p[2]) for p in parts) <= _ip.MAXITEMS: its = [x for p in parts for x in p[2]]
    ts = [p[0].t if p[1] is None or True else None for p in parts]
    # zeros contribute a constant
    t = term('concat', *[(p[0].t if p[0].c is NOC else ('rep', p[0].t, repr(p[1]))) for p in parts]) if axis in (0, None) else None
    if t is not None:
        t = tuple(['concat'] + [z for q in t[1:] for z in (q[1:] if isinstance(q, tuple) and q and q[0] == 'concat' else (q,))])
    I.event('concat', node, parts=parts, values=vs)
    return I.arr(st, node, e.r(t=t), sh, dt=dt, items=its, deps=dj(*vs))
@reg('numpy.stack', 'numpy.vstack', 'numpy.column_stack', 'numpy.row_stack', 'numpy.dstack')
def _stack(I, name, args, kw, st, node):
    s, ax = bindp(args, kw, 'arrays axis')
    e, sh, its = nested(I, st, s)
    if name not in ('numpy.stack', 'numpy.vstack', 'numpy.row_stack', 'numpy.column_stack') or sh is None or len(sh) != 2 or not _ip.NORMAL: its = None
    if name == 'numpy.dstack': sh = (Dim(1), sh[1], sh[0]) if sh is not None and len(sh) == 2 else None
    if name == 'numpy.vstack' and sh is not None and len(sh) >= 3: sh = (None,) + tuple(sh[2:])
    if name == 'numpy.column_stack':
        if its is not None and csize(sh) == len(its): its = [its[j * sh[1].const + i] for i in range(sh[1].const) for j in range(sh[0].const)]
        else: its = None
        seq = I.items(st, s)
        if seq is None or any(q.k != 'arr' and q.k not in ('list', 'tuple') or nested(I, st, q)[1] is None or len(nested(I, st, q)[1]) != 1 for q in seq): sh = its = None
        sh = (sh[1], sh[0]) if sh is not None and len(sh) == 2 else None
    if ax is not None and not (isnumc(ax) and ax.c == 0): sh = (sh[1], sh[0]) if sh is not None and len(sh) == 2 and isnumc(ax) and ax.c in (1, -1) else None
    if s.k == 'list' and I.items(st, s) is None:
        raw = rawelem(I, st, s)
        if raw is not None and raw.k == 'arr': e = e.r(t=term('stackof', elem(I, st, raw).t))
    if its is not None and ax is not None and not (isnumc(ax) and ax.c == 0):
        m, n = (q.const for q in nested(I, st, s)[1])
        its = [its[i * n + j] for j in range(n) for i in range(m)] if sh is not None else None
    return I.arr(st, node, e, sh, deps=s.deps, items=its)
@reg('numpy.insert', 'numpy.delete', 'numpy.resize', 'numpy.repeat', 'numpy.tile', 'numpy.pad', 'numpy.trim_zeros', 'numpy.compress', 'numpy.extract', 'numpy.unique')
def _rearr(I, name, args, kw, st, node):
    x = args[0] if args else next(iter(kw.values()))
    if name == 'numpy.delete' and x.k in ('num', 'bool') and not kw:
        I.raise_(st, 'AxisError', node); return []
    e, sh, its = nested(I, st, x)
    d = E0; out = None
    rest = args[1:] + list(kw.values())
    e2 = e
    if name in ('numpy.insert', 'numpy.pad') and len(args) > 2 or name == 'numpy.insert':
        v = args[2] if len(args) > 2 else kw.get('values')
        if v is not None:
            q, s2, _ = nested(I, st, v); e2 = vjoin(e, q)
            if sh is not None and len(sh) == 1 and sh[0] is not None and s2 is not None: out = (sh[0].add(s2[0]) if len(s2) == 1 and s2[0] is not None else (sh[0].add(Dim(1)) if len(s2) == 0 else None),)
    if name == 'numpy.pad': e2 = vjoin(e, vconst(0.0))
    if name == 'numpy.delete' and sh is not None and len(sh) == 1 and sh[0] is not None and len(args) > 1 and args[1].k in ('num', 'bool'): out = (sh[0].add(Dim(-1)),)
    if name == 'numpy.tile' and sh is not None and len(args) > 1 and args[1].k in ('num', 'bool') and args[1].d is not None and sh and sh[-1] is not None: out = sh[:-1] + (sh[-1].mul(args[1].d),)
    cd = E0
    if name == 'numpy.tile' and len(args) > 1 and args[1].k == 'num': rest = []; cd = args[1].deps
    if name == 'numpy.repeat' and sh is not None and len(sh) == 1 and len(args) > 1 and args[1].k == 'num' and args[1].d is not None and sh[0] is not None: out = (sh[0].mul(args[1].d),)
    dd, l = argdeps(I, st, rest, {})
    if name in ('numpy.unique',):
        I.event('sorted', node, src=x)
        out = (None,)
        ax = kw.get('axis') if set(kw) == {'axis'} and len(args) == 1 else None
        if ax is not None and ax.c == 0 and sh is not None and len(sh) == 2 and x.k == 'arr' and csize(sh):
            fs = I.vitems(st, x); w = sh[1].const
            if fs and len(fs) == csize(sh) and all(isnumc(q) and not isinstance(q.c, complex) for q in fs):
                rs = {tuple(q.c for q in fs[i:i + w]): fs[i:i + w] for i in range(0, len(fs), w)}
                return I.arr(st, node, e2.r(deps=I.relabel(e2.deps, 'unk'), t=None, c=NOC), (Dim(len(rs)), Dim(w)), dt=e2.dt, items=[q.dep(I.relabel(e2.deps, 'unk')) for k in sorted(rs) for q in rs[k]], deps=x.deps)
        if ax is not None and ax.k == 'none': rest = []
        if rest: return vany(d | dd | cd | I.relabel(e.deps, 'unk') | x.deps)
        fs = flat(I, st, x) if x.k in ('arr', 'list', 'tuple') else None
        if fs and all(isnumc(q) and not isinstance(q.c, complex) for q in fs) and sh is not None and csize(sh) == len(fs):
            got = sorted({q.c for q in fs})
            return I.arr(st, node, e2.r(deps=I.relabel(e2.deps, 'unk'), t=None, c=NOC), (Dim(len(got)),), dt=e2.dt, items=[next(q for q in fs if q.c == g).dep(I.relabel(e2.deps, 'unk')) for g in got], deps=x.deps)
    if name == 'numpy.trim_zeros': return trim(I, x, e, sh, its, args, kw, st, node)
    if name in ('numpy.compress', 'numpy.extract'):
        c, y = bindp(args, kw, 'condition a')[:2] if name == 'numpy.compress' else bindp(args, kw, 'condition arr')
        ax = None if name == 'numpy.extract' else bindp(args, kw, 'condition a axis')[2]
        e, sh, its = nested(I, st, y); ce, csh, cits = nested(I, st, c)
        if its is not None and cits is not None and sh is not None and csh is not None and len(sh) == len(csh) == 1 and len(its) == len(cits) and (ax is None or isnumc(ax)) and all(q.c is not NOC for q in cits):
            got = [q for q, k in zip(its, cits) if k.c]
            return I.arr(st, node, e.r(deps=e.deps | ce.deps, t=None, c=NOC), (Dim(len(got)),), dt=e.dt, items=got, deps=y.deps | c.deps)
        l = e.lin if ce.lin in ('K', 'Z') else lunk([e.lin, ce.lin])
        return I.arr(st, node, e.r(deps=I.relabel(e.deps | ce.deps, 'unk'), t=None, c=NOC, lin=l), (None,) if ax is None or ax.k == 'none' or sh is not None and len(sh) == 1 else None, dt=e.dt, deps=y.deps | c.deps)
    its2 = rebuilt(I, name, its, sh, args, kw) if sh is not None and len(sh) == 1 else None
    if its2 is not None:
        if not its2: out = (Dim(0),)
        return I.arr(st, node, e2.r(deps=I.relabel(e2.deps, 'unk') | dd | cd, t=None, c=e2.c if all(isnumc(q) and q.c == e2.c for q in its2) else NOC), (Dim(len(its2)),), dt=e2.dt, items=its2, deps=x.deps)
    return I.arr(st, node, e2.r(deps=I.relabel(e2.deps, 'unk') | dd | cd, t=term(name, e.t, *[r.t for r in rest]), c=e2.c), out, dt=e2.dt, deps=x.deps)
def trim(I, x, e, sh, its, args, kw, st, node):
    """numpy.trim_zeros"""
    _, w = bindp(args, kw, 'filt trim')
    w = 'fb' if w is None else w.c.lower() if isinstance(w.c, str) else None
    kind = x.k if x.k in ('list', 'tuple') else 'arr'
    if w is not None and its is not None and sh is not None and len(sh) == 1:
        ts = [truth(I, q, st) for q in its]; i, j = 0, len(its)
        if 'f' in w:
            while i < j and ts[i] is False: i += 1
        if 'b' in w:
            while j > i and ts[j - 1] is False: j -= 1
        if ('f' not in w or i == len(its) or ts[i]) and ('b' not in w or j == 0 or j == i or ts[j - 1]):
            if kind == 'arr': return getitem(I, x, V('slice', c=(vconst(i), vconst(j), NONE)), st, node) if j - i != len(its) else x
            return I.list_(st, node, items=list(its[i:j]), deps=x.deps) if kind == 'list' else V('tuple', c=tuple(its[i:j]), deps=x.deps)
    d = I.relabel(e.deps, 'unk') | x.deps
    if kind != 'arr': return vany(d, e.lin)
    return I.arr(st, node, e.r(deps=d, t=None, c=NOC), (None,), dt=e.dt, deps=x.deps)
def rebuilt(I, name, its, sh, args, kw):
    """Elements of a vector after insertion, deletion, repetition or padding by constants."""
    if its is None or kw and set(kw) != {'mode'} or len(args) < 2: return None
    its = list(its); a = args[1]
    ints = lambda v: [q.c for q in v.c] if v.k == 'tuple' and isinstance(v.c, tuple) and all(isnumc(q) and isinstance(q.c, int) for q in v.c) else None
    if name == 'numpy.pad':
        if len(args) > 2 or kw and kw['mode'].c != 'constant': return None
        w = ints(a) if a.k == 'tuple' else [a.c, a.c] if isnumc(a) and isinstance(a.c, int) else None
        if w is None or len(w) not in (1, 2): return None
        z = vconst(0.0)
        return [z] * w[0] + its + [z] * w[-1]
    if kw or len(args) != 2 and name != 'numpy.insert': return None
    if not isnumc(a) or not isinstance(a.c, int): return None
    if name == 'numpy.tile': return its * max(a.c, 0)
    if name == 'numpy.repeat': return [q for q in its for _ in range(max(a.c, 0))]
    if name == 'numpy.delete' and -len(its) <= a.c < len(its): del its[a.c]; return its
    if name == 'numpy.insert' and len(args) == 3 and args[2].k in ('num', 'bool') and -len(its) <= a.c <= len(its): its.insert(a.c if a.c >= 0 else len(its) + a.c, args[2]); return its
    return None
@reg('numpy.roll')
def _roll(I, name, args, kw, st, node):
    x, s, ax = bindp(args, kw, 'a shift axis')
    e, sh, its = nested(I, st, x)
    n = None
    one = sh is not None and len(sh) == 1
    if its is not None and isnumc(s) and its and isinstance(s.c, int) and (ax is None or ax.k == 'none' or one and isnumc(ax) and ax.c in (0, -1)) and sh is not None and csize(sh) == len(its):
        k = s.c % len(its); n = list(its[-k:]) + list(its[:-k]) if k else list(its)
    return I.arr(st, node, e.r(deps=I.relabel(e.deps, 'unk') | s.deps, t=term('roll', e.t, s.t) if one or ax is None else None), sh, dt=e.dt, items=n, deps=x.deps)
@reg('numpy.flip', 'numpy.fliplr', 'numpy.flipud')
def _flip(I, name, args, kw, st, node):
    x, ax = bindp(args, kw, 'm axis')
    ax = 1 if name == 'numpy.fliplr' else 0 if name == 'numpy.flipud' else None if ax is None or ax.k == 'none' else ax.c if isnumc(ax) else False
    if x.k == 'arr':
        I.event('flip', node, src=x, name=name)
        b = elem(I, st, x)
        if (p := I.vpos(st, x)) is not None and x.shape is not None and len(x.shape) == 2 and csize(x.shape) == len(p) and p:
            nr, nc = x.shape[0].const, x.shape[1].const
            if ax in (None, 0, 1, -1, -2): return x.r(cur=('view', ('pos', tuple(p[(nr - 1 - i if ax in (None, 0, -2) else i) * nc + (nc - 1 - j if ax in (None, 1, -1) else j)] for i in range(nr) for j in range(nc)))), c=('rel', 'unk') if I.block_mode else NOC, t=None)
        if (p := I.vpos(st, x)) is not None and x.cur is not None and len(x.shape) == 1 and name == 'numpy.flip': return x.r(cur=('view', ('pos', tuple(reversed(p)))), c=('rel', 'unk') if I.block_mode else NOC, t=None)
        return x.r(cur=('view', (None, None, -1)) if x.cur is None and x.shape is not None and len(x.shape) == 1 and name == 'numpy.flip' else ('view',), c=('rel', 'unk') if I.block_mode else NOC, t=term('view', b.t, name) if b.t is not None and not I.isview(x) else None)
    e, sh, its = nested(I, st, x)
    return I.arr(st, node, e.r(deps=I.relabel(e.deps, 'unk'), t=term('flip', e.t)), sh, items=list(reversed(its)) if its is not None and name == 'numpy.flip' and ax is None and sh is not None and csize(sh) == len(its) or its is not None and sh is not None and len(sh) == 1 and ax in (0, -1) else None)
@reg('numpy.reshape', 'numpy.ravel', 'numpy.squeeze', 'numpy.expand_dims', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.transpose', 'numpy.swapaxes', 'numpy.moveaxis', 'numpy.broadcast_to', 'numpy.diagonal', 'numpy.rot90', 'numpy.lib.stride_tricks.sliding_window_view', 'numpy.lib.stride_tricks.as_strided')
def _viewf(I, name, args, kw, st, node):
    x = args[0] if args else kw.get('a', kw.get('x', NONE))
    n = name.rsplit('.', 1)[-1]
    if x.k != 'arr':
        e, sh, its = nested(I, st, x)
        x = I.arr(st, node, e, sh, items=its, deps=x.deps)
    s = args[1] if len(args) > 1 else kw.get('newshape', kw.get('shape', kw.get('axis')))
    o = kw.get('order', args[2] if n == 'reshape' and len(args) > 2 else args[1] if n == 'ravel' and len(args) > 1 else None)
    if n == 'ravel': s = None
    return reshaped(I, st, x, n, s, o)
def forder(p, a, b):
    """Row-major positions of a column-major reshape."""
    def offsets(sh, first):
        st, k = [0] * len(sh), 1
        for i in (range(len(sh)) if first else reversed(range(len(sh)))): st[i] = k; k *= sh[i]
        return st
    n = len(p); fa, ca, fb, cb = offsets(a, True), offsets(a, False), offsets(b, True), offsets(b, False); out = [None] * n
    for i in range(n):  # position in column-major order of both
        x = sum((i // fa[d] % a[d]) * ca[d] for d in range(len(a)) if a[d]); y = sum((i // fb[d] % b[d]) * cb[d] for d in range(len(b)) if b[d])
        out[y] = p[x]
    return tuple(out)
def reshaped(I, st, x, n, s, order=None):
    sh = x.shape; o = None; same_order = True
    if n == 'reshape':
        o = shapearg(I, st, s) if s is not None else None
        if o is not None:
            dims = list(o)
            if any(d is not None and d.const == -1 for d in dims):
                i = [k for k, d in enumerate(dims) if d is not None and d.const == -1][0]
                if len(dims) == 1 and sh is not None and len(sh) == 1: dims[i] = sh[0]
                elif len(dims) == 1 and sh is not None and all(d is not None for d in sh):
                    t = Dim(1)
                    for d in sh: t = t.mul(d)
                    dims[i] = t
                elif sh is not None and len(sh) == 1 and all(d is not None and d.const == 1 for k, d in enumerate(dims) if k != i): dims[i] = sh[0]
                else: dims[i] = None
            o = tuple(dims)
    elif n == 'ravel' or n == 'flatten':
        if sh is not None:
            if len(sh) == 1: o = sh
            else:
                t = Dim(1)
                for d in sh: t = t.mul(d) if t is not None and d is not None else None
                o = (t,)
    elif n == 'squeeze' and sh is not None: o = tuple(d for d in sh if d is None or d.const != 1) if all(d is not None and (d.const is not None or (d.low() or 0) > 1) for d in sh) else None
    elif n == 'atleast_1d': o = sh if sh is None or len(sh) else (Dim(1),)
    elif n == 'atleast_2d': o = sh if sh is None or len(sh) >= 2 else ((Dim(1),) * (2 - len(sh)) + tuple(sh))
    elif n == 'expand_dims' and sh is not None and isnumc(s): o = list(sh); o.insert(s.c if s.c >= 0 else len(sh) + 1 + s.c, Dim(1)); o = tuple(o)
    elif n == 'transpose': return transpose(I, x)
    elif n in ('swapaxes', 'moveaxis'): o = tuple(reversed(sh)) if sh is not None and len(sh) == 2 else None
    elif n == 'broadcast_to': o = shapearg(I, st, s)
    elif n == 'sliding_window_view':
        w = s.d if s is not None and s.k == 'num' else None
        o = (sh[0].sub(w).add(Dim(1)), w) if sh is not None and len(sh) == 1 and sh[0] is not None and w is not None else None
        return x.r(shape=o, cur=('view',), c=('rel', 'unk') if I.block_mode else NOC, t=None)
    if o == sh and o is not None: return x.r(cur=x.cur or ('view', (None, None, None)), c=x.c)
    cur = ('view',)
    if n in ('reshape', 'ravel', 'flatten', 'squeeze', 'atleast_1d', 'atleast_2d', 'expand_dims') and (p := I.vpos(st, x)) is not None and csize(o) == len(p):
        k = 'C' if order is None or order.k == 'none' else order.c
        if n not in ('reshape', 'ravel') or k == 'C': cur = ('view', ('pos', p))
        elif k == 'F' and sh is not None and csize(sh) == len(p): cur = ('view', ('pos', forder(p, [d.const for d in sh], [d.const for d in o])))
    keep = sh is not None and o is not None and sum(1 for d in sh if d is None or d.const != 1) <= 1
    return x.r(shape=o, cur=cur, c=x.c if keep and isinstance(x.c, tuple) else (('rel', 'unk') if I.block_mode and not keep else NOC), t=x.t if I.isview(x) else (term('view', elem(I, st, x).t, n) if elem(I, st, x).t is not None else None))
@reg('numpy.split', 'numpy.array_split', 'numpy.hsplit', 'numpy.vsplit')
def _split(I, name, args, kw, st, node):
    x = args[0]
    if x.k != 'arr': return vany(argdeps(I, st, args, kw)[0])
    n = args[1] if len(args) > 1 else None
    v = x.r(shape=(None,) + tuple((x.shape or (None,))[1:]), cur=('view',), c=('rel', 'unk') if I.block_mode else NOC)
    if n is not None and isnumc(n) and n.c <= 8: return I.list_(st, node, items=[v] * n.c)
    return I.list_(st, node, elem=v)

# --- reductions
def reduce_(I, st, node, x, how, axis=None, name=None, initial=None):
    """sum / prod / max / min / mean of an array-like value."""
    if x.k == 'any' and not x.locs:
        return V('any', deps=x.deps, lin=x.lin if how in ('sum', 'mean') else lunk([x.lin]), t=term(how, x.t))
    if x.k in ('none',): I.raise_(st, 'TypeError', node); return None
    e, sh, its = nested(I, st, x)
    d = I.relabel(e.deps, 'blk') if not (sh is not None and len(sh) == 1 and sh[0] is not None and sh[0].const == 1) else e.deps
    d = d | x.deps
    dt = e.dt
    ax = None
    if axis is not None and axis.k != 'none':
        ax = axis.c if isnumc(axis) and isinstance(axis.c, int) else False
    lin = e.lin; iv = None; mv = None if e.mv is None else 'A'
    if how == 'sum':
        dt = atleast(dt, 'i')
        if e.iv is not None: iv = (0.0, True, INF, False) if e.iv[0] >= 0 else ((-INF, False, 0.0, True) if e.iv[2] <= 0 else None)
        if e.c is not NOC and e.c == 0: return vconst(0.0 if dt is None or 'f' in dt or 'c' in dt else 0).r(deps=d) if ax is None else I.arr(st, node, vconst(0.0), None)
    elif how == 'mean':
        dt = atleast(dt, 'f'); iv = e.iv
    elif how == 'prod':
        lin = e.lin if e.lin in ('Z', 'K') else ('A', ('*', deg(e.lin), 'n')) if e.lin not in ('U', 'N') else e.lin
        if e.iv is not None and e.iv[0] >= 0: iv = (0.0, True, INF, False)
    elif how in ('max', 'min'):
        lin = e.lin if e.lin in ('Z', 'K', 'U', 'N') else (e.lin if isinstance(e.lin, tuple) else 'N')
        iv = e.iv; mv = e.mv
    elif how in ('std',): lin = labs(e.lin); dt = real(atleast(dt, 'f')); iv = (0.0, True, INF, False)
    elif how in ('var',): lin = e.lin if e.lin in ('Z', 'K', 'U', 'N') else ('A', 2 * deg(e.lin)); dt = real(atleast(dt, 'f')); iv = (0.0, True, INF, False)
    elif how in ('median', 'ptp', 'percentile'): lin = lnon(e.lin) if not isinstance(e.lin, tuple) else e.lin; dt = atleast(dt, 'f') if how != 'ptp' else dt; iv = e.iv if how != 'ptp' else (0.0, True, INF, False)
    elif how == 'norm': lin = labs(e.lin); dt = DF; iv = (0.0, True, INF, False)
    if dt is not None and 'c' in dt: iv = None
    t = term(how, e.t) if ax is None else term(how, e.t, ax)
    c = NOC
    if its is not None and ax is None and its and all(isnumc(z) for z in its) and how in ('sum', 'max', 'min', 'prod'):
        try:
            r = {'sum': sum, 'max': max, 'min': min, 'prod': math.prod}[how]([z.c for z in its])
            return vconst(r).r(deps=d)
        except Exception: pass
    if its is not None and ax is None and its and how in ('sum', 'max', 'min', 'prod') and len(its) <= _ip.MAXITEMS:
        op = {'sum': lambda a, b: sbin('Add', a, b), 'prod': lambda a, b: sbin('Mult', a, b), 'max': _mm('max'), 'min': _mm('min')}[how]
        r = its[0]
        for z in its[1:]: r = op(r, z)
        if how in ('max', 'min') and e.lin not in ('K', 'Z') : r = r.r(lin=lin)
        return r.r(k='num', deps=r.deps | d if not I.block_mode else d | I.relabel(r.deps, 'blk'), cur=None, d=None, t=t if r.t is None else r.t, dt=dt)
    r = V('num', c=c, dt=dt, iv=iv, deps=d, lin=lin, mv=mv, t=t)
    if _ip.NORMAL and its and how in ('sum', 'mean', 'prod', 'median', 'max', 'min', 'std', 'var') and initial is None and name is None and sh is not None and all(q is not None and q.const is not None for q in sh) and (ax is None and how in ('mean', 'median', 'std', 'var') or ax is not None and ax is not False and -len(sh) <= ax < len(sh)):
        ds = [q.const for q in sh]
        if math.prod(ds) == len(its):
            op = 'Mult' if how == 'prod' else 'Add'
            if ax is None: groups = [list(its)]; out = ()
            else:
                a = ax % len(ds); inner = math.prod(ds[a + 1:]); m = ds[a]; out = tuple(ds[:a] + ds[a + 1:])
                groups = [[its[(o * m + k) * inner + j] for k in range(m)] for o in range(math.prod(ds[:a])) for j in range(inner)]
            if groups and groups[0]:
                res = []
                for g in groups:
                    z = g[0]
                    if how in ('median', 'max', 'min', 'std', 'var'):
                        if all(isnumc(q) and not isinstance(q.c, complex) and q.c == q.c for q in g):
                            from . import poly
                            res.append(vconst(poly.STAT[how]([q.c for q in g]) if how in ('max', 'min') else float(poly.STAT[how]([q.c for q in g]))).dep(frozenset().union(*[q.deps for q in g]))); continue
                        if any(q.t is None for q in g): res = None; break
                        res.append(r.r(k='num', deps=frozenset().union(*[q.deps for q in g]), t=(how,) + tuple(q.t for q in g))); continue
                    for q in g[1:]: z = sbin(op, z, q)
                    res.append(sbin('Div', z, vconst(len(g))) if how == 'mean' else z)
                if res is None: pass
                elif ax is None or not out: return res[0].r(k='num', deps=res[0].deps | d, cur=None, d=None, dt=dt)
                else: return I.arr(st, node, r, tuple(D(q) for q in out), dt=dt, items=[q.r(k='num', deps=q.deps | d, cur=None, d=None, dt=dt) for q in res])
    if ax is None or sh is not None and len(sh) == 1:
        if initial is not None: r = sbin('Add', r, initial) if how == 'sum' else r.dep(initial.deps)
        return r
    ns = None
    if sh is not None and ax is not False:
        a = ax + len(sh) if ax < 0 else ax
        ns = tuple(q for k, q in enumerate(sh) if k != a)
    return I.arr(st, node, r, ns, dt=dt)
def regred(how, *names):
    def f(I, name, args, kw, st, node):
        x, ax = bindp(args, kw, 'a axis')
        if x is None: x = kw.get('x', NONE)
        if name == 'numpy.average': return average(I, st, node, x, ax, bindp(args, kw, 'a axis weights')[2], args, kw)
        r = reduction(I, st, node, x, how, ax, kw)
        return [] if r is None else outarg(I, [(r, st)], args, kw, node, 3)
    for n in names: CALLS[n] = f
def reduction(I, st, node, x, how, ax, kw):
    r = reduce_(I, st, node, x, how, ax)
    if r is None: return None
    dd = kw.get('ddof') if how in ('std', 'var') else None
    kd = kw.get('keepdims')
    if how in ('std', 'var') and kw.get('correction') is not None: dd = V('any')
    if dd is None and kd is None: return r
    sh = nested(I, st, x)[1]; bad = vany(r.deps | x.deps, lunk([nested(I, st, r)[0].lin]))
    ax = None if ax is None or ax.k == 'none' else ax.c if isnumc(ax) and isinstance(ax.c, int) else False
    if sh is None or ax is False or ax is not None and not -len(sh) <= ax < len(sh): return bad
    if dd is not None:
        n = csize(sh) if ax is None else sh[ax].const if sh[ax] is not None else None
        if not isnumc(dd) or n is None or n - dd.c <= 0: return bad
        k = n / (n - dd.c)
        r = elementwise(I, st, node, [r, vconst(k if how == 'var' else k ** 0.5)], lambda a, b: sbin('Mult', a, b))
        if isinstance(r, list): r = r[0][0] if r else bad
    if kd is not None:
        t = truth(I, kd, st)
        if t is None: return bad
        if t:
            e = nested(I, st, r)[0]; its = [r] if r.k in ('num', 'bool') else I.vitems(st, r) if r.k == 'arr' else None
            ns = tuple(Dim(1) if ax is None or k == ax % len(sh) else q for k, q in enumerate(sh))
            r = I.arr(st, node, e, ns, dt=e.dt, items=list(its) if its is not None else None, deps=r.deps)
    return r
def average(I, st, node, x, ax, w, args, kw):
    if w is None or w.k == 'none':
        r = reduction(I, st, node, x, 'mean', ax, kw)
        return [] if r is None else [(r, st)]
    one = lambda r: r[0][0] if isinstance(r, list) else r
    sx, sw = nested(I, st, x)[1], nested(I, st, w)[1]
    d, l = argdeps(I, st, args, kw)
    if sx is None or sw is None or len(sx) != len(sw) or ax is not None and ax.k != 'none' and len(sx) > 1: return vany(d, l)
    a = reduce_(I, st, node, one(elementwise(I, st, node, [x, w], lambda p, q: sbin('Mult', p, q))), 'sum', None)
    b = reduce_(I, st, node, w, 'sum', None)
    return sbin('Div', a, b)
regred('sum', 'numpy.sum', 'numpy.nansum'); regred('prod', 'numpy.prod', 'numpy.nanprod', 'math.prod'); regred('mean', 'numpy.mean', 'numpy.average', 'numpy.nanmean', 'statistics.mean', 'statistics.fmean')
regred('max', 'numpy.max', 'numpy.amax', 'numpy.nanmax'); regred('min', 'numpy.min', 'numpy.amin', 'numpy.nanmin'); regred('std', 'numpy.std'); regred('var', 'numpy.var')
regred('median', 'numpy.median', 'numpy.nanmedian', 'statistics.median'); regred('ptp', 'numpy.ptp'); regred('norm', 'numpy.linalg.norm')
@reg('numpy.percentile', 'numpy.quantile', 'numpy.nanpercentile', 'numpy.nanquantile')
def _percentile(I, name, args, kw, st, node):
    x, q, ax = bindp(args, kw, 'a q axis')
    d, l = argdeps(I, st, args, kw)
    if ax is not None and ax.k != 'none' or q is None or q.k not in ('num', 'bool'): return vany(d, l)
    r = reduce_(I, st, node, x, 'percentile')
    return [] if r is None else r.dep(q.deps).r(t=term(name.rsplit('.', 1)[1].replace('nan', ''), elem(I, st, x).t, q.t) if x.k == 'arr' else None)
_norm0 = CALLS['numpy.linalg.norm']
def _norm(I, name, args, kw, st, node):
    r = _norm0(I, name, args, kw, st, node)
    o = args[1] if len(args) > 1 else kw.get('ord')
    its = flat(I, st, args[0]) if args and args[0].k in ('arr', 'list', 'tuple') and not set(kw) - {'ord'} and len(args) <= 2 else None
    if not its or nested(I, st, args[0])[1] is None or len(nested(I, st, args[0])[1]) != 1: return r
    n = 2 if o is None or o.k == 'none' else (o.c if isnumc(o) else None)
    if n not in (1, 2, INF): return r
    a = [sun('absolute', q) for q in its]
    if n == 2: a = [sbin('Mult', q, q) for q in a]
    e = a[0]
    for q in a[1:]: e = UFB['maximum'](e, q) if n == INF else sbin('Add', e, q)
    if n == 2: e = sbin('Pow', e, vconst(0.5))
    f = lambda v: v.r(t=e.t, iv=e.iv or v.iv, lin=e.lin) if isinstance(v, V) and v.k == 'num' else v
    return f(r) if isinstance(r, V) else [(f(v), x) for v, x in r]
CALLS['numpy.linalg.norm'] = _norm
@reg('builtins.sum', 'math.fsum')
def _sum(I, name, args, kw, st, node):
    x = args[0]
    if x.k == 'iter' or x.k in ('list', 'tuple', 'arr', 'range', 'set', 'any', 'dict'):
        if x.k == 'dict': return vany(x.deps)
        if x.k == 'iter' and not (isinstance(x.c, tuple) and x.c[0] == 'items'): return V('num', dt=None, deps=argdeps(I, st, args, kw)[0], lin='U')
        if x.k == 'arr' and x.shape is not None and len(x.shape) > 1:
            r = reduce_(I, st, node, x, 'sum', vconst(0))
        else:
            if x.k == 'list':
                raw = rawelem(I, st, x)
                if raw is not None and raw.k == 'arr':
                    r = reduce_(I, st, node, x, 'sum', vconst(0))
                    return [] if r is None else r
            r = reduce_(I, st, node, x, 'sum')
        if r is None: return []
        if len(args) > 1: return binop(I, 'Add', r, args[1], st, node)
        return r
    I.raise_(st, 'TypeError', node); return []
@reg('builtins.max', 'builtins.min')
def _maxmin(I, name, args, kw, st, node):
    how = name[-3:]
    if 'key' in kw:
        d, l = argdeps(I, st, args, {})
        if len(args) == 1:
            e = I.content(st, args[0], 'red') if args[0].k in ('arr', 'list', 'tuple', 'set') else vany(d)
            return e.r(deps=d, lin='U', c=NOC)
        return vany(d)
    if len(args) == 1:
        x = args[0]
        if x.k in ('iter', 'any', 'dict'): return vany(argdeps(I, st, args, kw)[0])
        n = length(I, st, x)
        df = kw.get('default')
        if n is not None and n.const == 0:
            if df is not None: return df
            I.raise_(st, 'ValueError', node); return []
        if df is not None and (n is None or (n.low() or 0) < 1): return vany(argdeps(I, st, args, kw)[0])
        if x.k in ('tuple', 'list') and (its := I.items(st, x)) is not None and its and all(q.k in ('num', 'bool') for q in its):
            args = list(its)
            if len(args) == 1: return args[0]
        else:
            r = reduce_(I, st, node, x, how)
            return [] if r is None else r
    if any(a.k == 'none' for a in args): I.raise_(st, 'TypeError', node); return []
    if all(a.k in ('num', 'bool') for a in args):
        r = args[0]
        for a in args[1:]: r = UFB['maximum' if how == 'max' else 'minimum'](r, a)
        return r.r(k='num', cur=None)
    d, l = argdeps(I, st, args, kw)
    r = args[0]
    for a in args[1:]: r = vjoin(r, a)
    return r.r(deps=d, lin=l if l == 'K' else 'U', c=NOC)
@reg('numpy.cumsum', 'numpy.cumprod', 'numpy.diff', 'numpy.gradient', 'numpy.ediff1d', 'numpy.trapz', 'numpy.unwrap', 'numpy.maximum.accumulate', 'numpy.minimum.accumulate', 'numpy.add.accumulate', 'itertools.accumulate')
def _scan(I, name, args, kw, st, node):
    e, sh, its = nested(I, st, args[0])
    n = name.rsplit('.', 1)[-1]
    lin = e.lin if n in ('cumsum', 'diff', 'gradient', 'ediff1d', 'trapz') or name == 'numpy.add.accumulate' else lnon(e.lin) if not isinstance(e.lin, tuple) else 'N'
    if n in ('diff', 'ediff1d') and sh is not None and len(sh) == 1 and sh[0] is not None: sh = (sh[0].add(Dim(-1)),) if len(args) == 1 and not kw else None
    if n == 'trapz': return V('num', dt=atleast(e.dt, 'f'), deps=I.relabel(e.deps, 'blk'), lin=lin, mv='A')
    fi = None; v0 = V('num', dt=atleast(e.dt, 'i'), deps=I.relabel(e.deps, 'unk'), lin=lin, mv='A', t=term(n, e.t))
    if _ip.NORMAL and its and nested(I, st, args[0])[1] is not None and len(nested(I, st, args[0])[1]) == 1 and len(args) == 1 and not kw and len(its) <= _ip.MAXITEMS:
        if n in ('cumsum', 'cumprod') or name in ('numpy.add.accumulate',):
            fi = [its[0]]
            for q in its[1:]: fi.append(sbin('Mult' if n == 'cumprod' else 'Add', fi[-1], q))
        elif n in ('diff', 'ediff1d'): fi = [sbin('Sub', b, a) for a, b in zip(its, its[1:])]
        if fi is not None: fi = [q.r(k='num', cur=None, d=None, dt=v0.dt, deps=q.deps | e.deps) for q in fi]
    return I.arr(st, node, v0, sh if sh is None or len(sh) == 1 else None, items=fi) if fi is not None else I.arr(st, node, v0, sh if sh is None or len(sh) == 1 else None)
@reg('numpy.any', 'numpy.all', 'builtins.any', 'builtins.all')
def _anyall(I, name, args, kw, st, node):
    x = args[0] if args else kw.get('a', NONE)
    isany = name.endswith('any')
    if x.k in ('any', 'iter'): return vbool(None, argdeps(I, st, args, kw)[0], lunk([x.lin]))
    ax = bindp(args, kw, 'a axis')[1] if name.startswith('numpy') else None
    if ax is not None and ax.k != 'none' and not (x.k == 'arr' and x.shape is not None and len(x.shape) == 1):
        d, l = argdeps(I, st, args, kw); sh = nested(I, st, x)[1]
        ns = tuple(q for k, q in enumerate(sh) if k != ax.c % len(sh)) if sh and isnumc(ax) else None
        return I.arr(st, node, vbool(None, d, lunk([l])).r(k='num', dt=DB), ns, dt=DB) if sh is None or len(sh) > 1 else vany(d, l)
    its = I.items(st, x) if x.k in ('list', 'tuple', 'arr', 'set') else None
    d = I.content(st, x, 'red').deps if x.k in ('list', 'arr', 'set') else (dj(*x.c) if x.k == 'tuple' and isinstance(x.c, tuple) else E0)
    d = d | x.deps
    if its is not None:
        ts = [truth(I, q, st) for q in its]
        lin = cmplin(*[q if q.k in ('num', 'bool') else vconst(0) for q in its])
        if isany: r = True if any(q is True for q in ts) else (False if all(q is False for q in ts) else None)
        else: r = False if any(q is False for q in ts) else (True if all(q is True for q in ts) else None)
        t = term(name[-3:], elem(I, st, x).t) if x.k == 'arr' else None
        if r is None and _ip.NORMAL and all(q.k in ('num', 'bool') and (c is not None or q.t is not None) for q, c in zip(its, ts)):
            rest = tuple(q.t for q, c in zip(its, ts) if c is None)
            if len(rest) <= max(32, ip.MAXITEMS): t = ('some' if isany else 'every',) + rest
        return vbool(r, d, lin if r is None else 'K', t)
    if x.k in ('arr', 'list', 'range', 'set'):
        e = elem(I, st, x) if x.k != 'range' else vnum(DI)
        t = truth(I, e, st) if e.k in ('num', 'bool') else None
        n = length(I, st, x); nz = n is not None and (n.low() or 0) >= 1
        r = None
        if isany: r = False if t is False else (True if t is True and nz else None)
        else: r = True if t is True else (False if t is False and nz else None)
        return vbool(r, d, cmplin(e) if r is None else 'K', term('any' if isany else 'all', e.t))
    if x.k in ('num', 'bool'): return vbool(truth(I, x, st), x.deps, cmplin(x))
    I.raise_(st, 'TypeError', node); return []
def constset(I, st, node, op, vs):
    """Set operation on collections of known distinct constants."""
    if op is None: return None
    ws = []
    for v in vs:
        its = I.iter_items(st, v)
        if its is None or any(q.c is NOC or q.k not in ('num', 'str', 'bool') for q in its): return None
        ws.append({q.c: q for q in its})
    r = dict(ws[0])
    for w in ws[1:]:
        if op == 'union': r.update({k: q for k, q in w.items() if k not in r})
        elif op == 'intersection': r = {k: q for k, q in r.items() if k in w}
        elif op == 'difference': r = {k: q for k, q in r.items() if k not in w}
        else: r = {**{k: q for k, q in r.items() if k not in w}, **{k: q for k, q in w.items() if k not in r}}
    return I.list_(st, node, items=list(r.values()), kind='set', deps=argdeps(I, st, list(vs), {})[0])
@reg('numpy.isclose', 'math.isclose', 'cmath.isclose')
def _isclose(I, name, args, kw, st, node):
    np_ = name == 'numpy.isclose'
    a, b, rt, at = bindp(args, kw, 'a b rtol atol' if np_ else 'a b rel_tol abs_tol')
    extra = [q for k, q in list(enumerate(args))[2:]] + [q for k, q in kw.items() if k not in ('a', 'b')]
    dflt = (1e-5, 1e-8) if np_ else (1e-9, 0.0)
    rt, at = [d if q is None else float(q.c) if isnumc(q) and not isinstance(q.c, complex) else None for q, d in zip((rt, at), dflt)]
    if 'equal_nan' in kw or len(args) > (4 if np_ else 2): rt = None
    known = rt is not None and at is not None
    tail = (('c', rt), ('c', at), ('c', 0.0 if np_ else 1.0)) if known else ()
    def f(x, y):
        x, y = asnum(x), asnum(y)
        r = None
        if isnumc(x) and isnumc(y):
            d = abs(x.c - y.c)
            tol = None if not known else at + rt * abs(y.c) if np_ else max(at, rt * max(abs(x.c), abs(y.c)))
            if x.c == y.c: r = True
            elif tol is None: r = False if d > 1e-3 * (1 + abs(y.c)) else None
            elif d > 1.5 * tol: r = False
            elif d < 0.67 * tol: r = True
        elif ivcmp('==', x.iv, y.iv) is False and x.iv is not None and y.iv is not None and (x.iv[0] - y.iv[2] > 1e-3 * (1 + abs(y.iv[2])) or y.iv[0] - x.iv[2] > 1e-3 * (1 + abs(y.iv[0]))) and (known and at <= 1e-4 and rt <= 1e-4 or not extra): r = False
        v = vbool(r, x.deps | y.deps | dj(*extra), cmplin(x, y), term('isclose' if not extra and np_ else 'closeto' if known else 'near', x.t, y.t, *tail[:0 if not extra and np_ or not known else 3]))
        return v.r(k='num') if r is None else v
    if a.k in ('num', 'bool') and b.k in ('num', 'bool'): return f(a, b).r(k='bool')
    return elementwise(I, st, node, [a, b], f, dt=DB)
@reg('numpy.allclose', 'numpy.array_equal', 'numpy.array_equiv')
def _allclose(I, name, args, kw, st, node):
    d, l = argdeps(I, st, args, kw)
    es = [elem(I, st, a) if a.k in ('num', 'bool', 'arr', 'list', 'tuple') else a for a in args[:2]]
    return vbool(None, d, 'K' if l == 'K' else 'N', term(name, *[e.t for e in es]))
@reg('numpy.iscomplexobj', 'numpy.isrealobj')
def _isc(I, name, args, kw, st, node):
    x = args[0] if args else kw.get('x', NONE)
    d = x.deps
    dt = x.dt if x.k in ('arr', 'num', 'bool', 'any') else None
    if x.k in ('list', 'tuple'): dt = nested(I, st, x)[0].dt
    if x.k in ('none', 'str'): return vconst(name == 'numpy.isrealobj')
    if x.k == 'dtype': dt = x.dt
    r = None
    if dt: r = True if dt == DC else (False if 'c' not in dt else None)
    if r is not None and name == 'numpy.isrealobj': r = not r
    return vbool(r, d)
@reg('numpy.isscalar')
def _isscalar(I, name, args, kw, st, node):
    x = args[0]
    if x.k in ('num', 'bool', 'str', 'bytes'): return vbool(True, x.deps)
    if x.k in ('arr', 'list', 'tuple', 'dict', 'none', 'set', 'inst', 'func'): return vbool(False, x.deps)
    return vbool(None, x.deps)
@reg('numpy.result_type', 'numpy.promote_types', 'numpy.common_type', 'numpy.min_scalar_type', 'numpy.find_common_type')
def _rt(I, name, args, kw, st, node):
    ds = []
    for a in args:
        t = todt(I, a) if isdt(a) else (a.dt if a.k in ('arr', 'num', 'bool', 'any') else nested(I, st, a)[0].dt if a.k in ('list', 'tuple') else None)
        ds.append(t)
    r = promote(*ds)
    if name == 'numpy.common_type': r = atleast(r, 'f')
    return V('dtype', dt=r)
@reg('numpy.dtype')
def _dtype(I, name, args, kw, st, node): return V('dtype', dt=todt(I, args[0]))
@reg('numpy.issubdtype', 'builtins.issubclass')
def _issub(I, name, args, kw, st, node):
    a, b = args[:2]
    dt = todt(I, a)
    bs = b.c if b.k == 'tuple' else (b,)
    if a.k == 'dtype' or (dt is not None and name == 'numpy.issubdtype'):
        ks = ''
        for x in bs:
            n = x.c if x.k == 'cls' and isinstance(x.c, str) else None
            if n is None: return vbool(None, a.deps)
            if n in ABST: ks += ABST[n]
            elif todt(I, x): ks += ''.join(todt(I, x)) if name == 'numpy.issubdtype' and n.startswith('builtins.') else ''
            if n in ('numpy.integer', 'numpy.signedinteger'): ks += 'i'
        if dt:
            if all(z in ks for z in dt): return vbool(True, a.deps)
            if not any(z in ks for z in dt) and ks: return vbool(False, a.deps)
        return vbool(None, a.deps)
    if a.k == 'cls' and isinstance(a.c, ClassInfo):
        for x in bs:
            if x.k == 'cls' and x.c in I.mro(a.c): return vbool(True)
        return vbool(False if all(isinstance(x.c, ClassInfo) for x in bs) else None)
    return vbool(None, a.deps)
@reg('numpy.finfo', 'numpy.iinfo')
def _finfo(I, name, args, kw, st, node): return V('ext', c=('finfo', name))
def cond(x, y, z):
    """Elementwise choice."""
    t = None if not isnumc(x) else bool(x.c)
    j = y if t is True else z if t is False else vjoin(asnum(y), asnum(z))
    l = j.lin
    if t is None and x.lin not in ('K', 'Z'): l = 'N' if x.lin != 'U' and l != 'U' else 'U'
    return j.r(k='num', dt=promote(y.dt, z.dt), deps=j.deps | x.deps, lin=l, t=term('where', x.t, y.t, z.t) if t is None else j.t, cur=None)
@reg('numpy.where')
def _where(I, name, args, kw, st, node):
    if len(args) == 1:
        e = elem(I, st, args[0])
        q = truths(I, st, node, args[0], e)
        if q is not None: return V('tuple', c=q)
        r = I.arr(st, node, V('num', dt=DI, deps=I.relabel(e.deps, 'unk'), lin=cmplin(e), iv=(0, True, INF, False)), (None,), deps=args[0].deps)
        return V('tuple', c=(r,))
    c, a, b = args
    return elementwise(I, st, node, [c, a, b], cond)
@reg('numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere')
def _nonzero(I, name, args, kw, st, node):
    e = elem(I, st, args[0])
    q = truths(I, st, node, args[0], e)
    if q is not None and name != 'numpy.argwhere' and (name == 'numpy.nonzero' or len(q) == 1): return V('tuple', c=q) if name == 'numpy.nonzero' else q[0]
    r = I.arr(st, node, V('num', dt=DI, deps=I.relabel(e.deps, 'unk'), lin=cmplin(e), iv=(0, True, INF, False)), (None,) if name != 'numpy.argwhere' else (None, Dim(len(args[0].shape)) if args[0].k == 'arr' and args[0].shape is not None else None))
    return V('tuple', c=(r,)) if name == 'numpy.nonzero' else r
def truths(I, st, node, x, e):
    """Index arrays of the elements of an array which are true, where all of them are known."""
    if x.k not in ('arr', 'list', 'tuple'): return None
    sh = nested(I, st, x)[1]; its = flat(I, st, x)
    if its is None or sh is None or csize(sh) != len(its) or not all(q.c is not NOC and isinstance(q.c, (bool, int, float, complex)) for q in its): return None
    ns = [i for i, q in enumerate(its) if q.c]
    out = []; m = len(its)
    for d in sh:
        m = m // d.const if d.const else 0
        v = [vconst((i // m) % d.const).r(deps=e.deps | x.deps) for i in ns] if m else []
        out.append(I.arr(st, node, V('num', dt=DI, deps=e.deps | x.deps, lin='K', iv=(0, True, INF, False)), (Dim(len(ns)),), items=v, dt=DI, tag=f'w{len(out)}'))
    return tuple(out)
@reg('numpy.argsort', 'numpy.argpartition', 'numpy.lexsort')
def _argsort(I, name, args, kw, st, node):
    x = args[0]
    e, sh, its = nested(I, st, x)
    d = I.relabel(e.deps, 'unk') | x.deps
    I.event('argsort', node, src=x, elem=e, axis=(args[1] if len(args) > 1 else kw.get('axis')))
    cs = [q.c for q in its] if its is not None and all(isnumc(q) and not isinstance(q.c, complex) for q in its) else None
    pos = [vconst(i).r(deps=d) for i in sorted(range(len(cs)), key=lambda i: cs[i])] if cs and name == 'numpy.argsort' and sh is not None and len(sh) == 1 else [rankpos(its, k, d) for k in range(len(its))] if name == 'numpy.argsort' and sh is not None and len(sh) == 1 and ranks(its) else None
    if pos is None and name == 'numpy.argsort' and _ip.NORMAL and sh is not None and len(sh) == 2 and x.k == 'arr' and (ax := args[1] if len(args) > 1 else kw.get('axis', vconst(-1))).c in (1, -1):
        fs = I.vitems(st, x); nc = sh[1].const if sh[1] is not None else None
        rs = [fs[i:i + nc] for i in range(0, len(fs), nc)] if fs and nc else None
        if rs and all(ranks(r) for r in rs):
            pos = []
            for r in rs:
                k = [q.c for q in r] if all(isnumc(q) and not isinstance(q.c, complex) for q in r) else None
                pos += [vconst(i).r(deps=d) for i in sorted(range(nc), key=lambda i: k[i])] if k else [rankpos(r, i, d) for i in range(nc)]
    return I.arr(st, node, V('num', dt=DI, deps=d, lin='K' if e.lin in ('K','Z') else ('U' if e.lin == 'U' else 'N'), iv=(0, True, INF, False), mv=frozenset(['const']), t=term('argsort', e.t) or ('argsort', None)), sh, items=pos)
@reg('numpy.argmax', 'numpy.argmin', 'numpy.searchsorted', 'numpy.count_nonzero', 'numpy.digitize')
def _argmax(I, name, args, kw, st, node):
    d, l = argdeps(I, st, args, {})
    e = elem(I, st, args[0]) if args[0].k in ('arr', 'list', 'tuple') else args[0]
    if args[0].k == 'arr' and args[0].shape is not None and len(args[0].shape) > 1 and ('axis' in kw or len(args) > 1): return I.arr(st, node, V('num', dt=DI, deps=d, lin=l), None)
    its = I.items(st, args[0]) if name in ('numpy.argmin', 'numpy.argmax') and args[0].k in ('arr', 'list', 'tuple') else None
    if its is not None and ranks(its): return rankpos(its, 0 if name == 'numpy.argmin' else len(its) - 1, d)
    return V('num', dt=DI, deps=d, lin='K' if l == 'K' else 'N', iv=(0, True, INF, False), mv=frozenset(['const']), t=term(name, e.t))
def sortline(its):
    """Items in order, or None."""
    if all(isnumc(q) and not isinstance(q.c, complex) for q in its): return sorted(its, key=lambda q: (q.c != q.c, q.c))
    if not ranks(its): return None
    r = [picked(its, rankpos(its, k)) for k in range(len(its))]
    return None if None in r else r
def sortitems(its, sh, ax):
    """Items of an array in order along an axis, row by row, or None."""
    if its is None or sh is None or any(d is None or d.const is None for d in sh): return None
    if len(sh) == 1 and ax in (0, -1): return sortline(its)
    if len(sh) == 1 and ax is None or len(sh) == 2 and ax is None: return None
    if len(sh) != 2 or ax not in (0, 1, -1, -2): return None
    r, c = (d.const for d in sh)
    if len(its) != r * c: return None
    if ax in (1, -1): ls = [sortline(its[i * c:(i + 1) * c]) for i in range(r)] if c else []
    else: ls = [sortline([its[i * c + j] for i in range(r)]) for j in range(c)] if r else []
    if None in ls: return None
    return [q for l in ls for q in l] if ax in (1, -1) else [l[i] for i in range(r) for l in ls]
@reg('numpy.sort', 'numpy.sort_complex', 'numpy.partition')
def _sort(I, name, args, kw, st, node):
    e, sh, its = nested(I, st, args[0])
    I.event('sorted', node, src=args[0])
    n = None
    if name == 'numpy.sort' and sh is not None:
        ax = args[1] if len(args) > 1 else kw.get('axis', vconst(-1))
        if len(sh) == 1 or ax.c is not NOC:
            if len(sh) == 2 and args[0].k == 'arr': its = I.vitems(st, args[0])
            n = sortitems(its, sh, -1 if len(sh) == 1 else ax.c)
    return I.arr(st, node, items=n if n and None not in n else None, shape=sh, elem=e.r(deps=I.relabel(e.deps, 'unk'), lin=e.lin if e.lin in ('K', 'Z') else ('U' if e.lin == 'U' else 'N'), t=term('sort', e.t)))
@reg('builtins.sorted')
def _sorted(I, name, args, kw, st, node):
    x = args[0]
    I.event('sorted', node, src=x)
    if x.k in ('any', 'iter', 'str'): return I.list_(st, node, elem=vany(argdeps(I, st, args, {})[0]), deps=x.deps)
    if x.k == 'dict':
        it = dict_items(I, st, x)
        if it is not None: return I.list_(st, node, items=[vconst(q) for q in (sorted(it) if all(isinstance(z, str) for z in it) or all(isinstance(z, (int, float)) for z in it) else it)])
        return I.list_(st, node, elem=vany(x.deps))
    its = I.items(st, x)
    if its is not None and all(q.c is not NOC and q.k in ('num', 'str') for q in its) and 'key' not in kw:
        r = kw.get('reverse')
        try: return I.list_(st, node, items=sorted(its, key=lambda q: q.c, reverse=bool(r is not None and truth(I, r, st))))
        except TypeError: pass
    if ranks(its) and all(q.k == 'num' for q in its) and set(kw) <= {'key', 'reverse'}:
        ks = its
        if (f := kw.get('key')) is not None and f.k != 'none':
            ks = []
            try:
                for q in its:
                    z = I.call(f, [q], {}, st, node)
                    if len(z) != 1: break
                    ks.append(z[0][0])
            except Unsupported: ks = []
        rv = kw.get('reverse'); rv = truth(I, rv, st) if rv is not None else False
        if len(ks) == len(its) and ranks(ks) and rv is not None:
            order = range(len(its)); order = reversed(order) if rv else order
            n = [picked(its, rankpos(ks, k)) for k in order]
            if None not in n: return I.list_(st, node, items=n, deps=x.deps)
    e = I.content(st, x, 'unk')
    if x.k == 'list' and e.k in ('any',):
        e = rawelem(I, st, x) or e
    return I.list_(st, node, elem=e.r(lin=e.lin if e.lin in ('K', 'Z') else 'U', cur=None, d=None), length=length(I, st, x), deps=x.deps)
@reg('numpy.clip')
def _clip(I, name, args, kw, st, node):
    x, lo, hi = bindp(args, kw, 'a a_min a_max')
    if 'min' in kw: lo = kw['min']
    if 'max' in kw: hi = kw['max']
    vs = [x] + [q for q in (lo, hi) if q is not None and q.k != 'none']
    def f(*q):
        r = q[0]; i = 1
        if lo is not None and lo.k != 'none': r = UFB['maximum'](r, q[i]); i += 1
        if hi is not None and hi.k != 'none': r = UFB['minimum'](r, q[i])
        return r.r(k='num', t=term('clip', *[z.t for z in q]) if len(q) == 3 else r.t)
    return outarg(I, elementwise(I, st, node, vs, f), args, kw, node, 3)
@reg('numpy.round', 'numpy.around', 'numpy.round_', 'builtins.round')
def _round(I, name, args, kw, st, node):
    x = args[0]
    nd = args[1] if len(args) > 1 else kw.get('ndigits', kw.get('decimals'))
    isb = name.startswith('builtins') and (nd is None or nd.k == 'none')
    if nd is not None and nd.k != 'none' and not (isnumc(nd) and nd.c == 0):
        n = ('c', int(nd.c)) if isnumc(nd) else None
        def g(a):
            a = asnum(a)
            if isnumc(a) and n is not None and not isinstance(a.c, complex):
                try: return vconst(round(a.c, n[1])).r(deps=a.deps)
                except Exception: pass
            return V('num', dt=a.dt, iv=None, deps=a.deps | nd.deps, lin=lnon(a.lin) if not isinstance(a.lin, tuple) else 'N', mv=None if a.mv is None else 'A', t=term('rounded', a.t, n) if n is not None else None)
        if x.k == 'any': return V('any', deps=x.deps | nd.deps, lin=lunk([x.lin]))
        return elementwise(I, st, node, [x], g)
    def f(a):
        a = asnum(a)
        if isnumc(a) and not isinstance(a.c, complex):
            try:
                return vconst(round(a.c) if isb else float(round(a.c))).r(deps=a.deps)
            except Exception: pass
        if a.dt == DI: return a
        iv = None
        if a.iv is not None:
            g = lambda z: z if abs(z) == INF else float(round(z))
            iv = (g(a.iv[0]), abs(a.iv[0]) != INF, g(a.iv[2]), abs(a.iv[2]) != INF)
        return V('num', dt=DI if isb else a.dt, iv=iv, deps=a.deps, lin=lnon(a.lin) if not isinstance(a.lin, tuple) else 'N', mv=None if a.mv is None else 'A', t=term('round', a.t), d=opaque('round', a.t) if a.t is not None and iv is not None and iv[0] >= 0 and isb else None)
    if x.k == 'any': return V('any', deps=x.deps, lin=lunk([x.lin]), t=term('round', x.t))
    return elementwise(I, st, node, [x], f)
@reg('numpy.fmod_')
def _none(I, name, args, kw, st, node): return vany()
# --- linear algebra
def dot2(I, st, node, a, b):
    ea, sa, ia = nested(I, st, a); eb, sb, ib = nested(I, st, b)
    p = sbin('Mult', ea, eb)
    d = I.relabel(p.deps, 'blk') | a.deps | b.deps
    if ia is not None and len(ia) == 1: d = p.deps | a.deps | b.deps
    lin = p.lin
    sh = None
    scal = False
    if sa is not None and sb is not None:
        if len(sa) == 0 or len(sb) == 0:
            r = elementwise(I, st, node, [a, b], lambda x, y: sbin('Mult', x, y)); return r[0][0] if r else None
        x, y = sa[-1], (sb[-2] if len(sb) > 1 else sb[-1])
        if dcmp(x, y) in (1, -1): I.raise_(st, 'ValueError', node); return None
        if len(sa) == 1 and len(sb) == 1: scal = True
        elif len(sa) == 1: sh = sb[:-2] + sb[-1:]
        elif len(sb) == 1: sh = sa[:-1]
        else: sh = sa[:-1] + sb[-1:]
    if scal and ia is not None and ib is not None and len(ia) == len(ib) and ia:
        r = None
        for x, y in zip(ia, ib):
            z = sbin('Mult', x, y); r = z if r is None else sbin('Add', r, z)
        return r.r(deps=r.deps | d, dt=atleast(r.dt, 'i'), t=r.t or tnorm('dot', *sorted([ea.t, eb.t], key=repr)) if ea.t is not None and eb.t is not None else r.t)
    iv = None
    if p.iv is not None: iv = (0.0, True, INF, False) if p.iv[0] >= 0 else None
    t = term('dot', ea.t, eb.t)
    v = V('num', dt=p.dt, iv=iv, deps=d, lin=lin, mv=p.mv, t=t)
    I.event('dot', node, a=a, b=b, ea=ea, eb=eb)
    if scal: return v
    if sh is None and (sa is None or sb is None):
        # rank unknown
        if a.k == 'any' or b.k == 'any' or sa is None or sb is None: return V('any', deps=d, lin=lin, dt=p.dt, t=t)
    return I.arr(st, node, v, sh, deps=a.deps | b.deps)
def matitems(I, st, a, b):
    sa, sb = nested(I, st, a)[1], nested(I, st, b)[1]
    na, nb = csize(sa), csize(sb)
    if na is None or nb is None or len(sa) > 2 or len(sb) > 2 or max(na, nb) > max(32, _ip.MAXITEMS): return None
    x, y = flat(I, st, a), flat(I, st, b)
    if x is None or y is None or len(x) != na or len(y) != nb: return None
    ra, ca = (1, na) if len(sa) == 1 else (sa[0].const, sa[1].const)
    rb, cb = (nb, 1) if len(sb) == 1 else (sb[0].const, sb[1].const)
    if ca != rb or not ca: return None
    out = []
    for i in range(ra):
        for j in range(cb):
            r = None
            for k in range(ca):
                q = sbin('Mult', x[i * ca + k], y[k * cb + j]); r = q if r is None else sbin('Add', r, q)
            out.append(r)
    return out
def inverse(m, n):
    """Inverse of a constant matrix given row by row, or None."""
    a = [list(m[i * n:(i + 1) * n]) + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        if abs(a[p][i]) < 1e-300: return None
        a[i], a[p] = a[p], a[i]
        d = a[i][i]; a[i] = [v / d for v in a[i]]
        for r in range(n):
            if r != i and a[r][i] != 0:
                f = a[r][i]; a[r] = [u - f * v for u, v in zip(a[r], a[i])]
    return [v for i in range(n) for v in a[i][n:]]
def matmul(I, args, st, node):
    m = matitems(I, st, args[0], args[1])
    r = dot2(I, st, node, args[0], args[1])
    if m is not None and r is not None:
        if r.k in ('num', 'bool') and len(m) == 1: r = r.r(c=m[0].c, t=m[0].t)
        elif r.k == 'arr' and csize(r.shape) == len(m) and len(r.locs) == 1:
            l = next(iter(r.locs)); c = I.cell(st, l)
            if not c.multi: I.setcell(st, l, c.r(items=tuple(I.pcv(st, q.r(k='num', dt=r.dt)) for q in m)))
    return [] if r is None else [(r, st)]
@reg('numpy.dot', 'numpy.matmul', 'numpy.vdot', 'numpy.inner', 'operator.matmul')
def _dot(I, name, args, kw, st, node):
    a, b = args[0], args[1]
    if name == 'numpy.vdot':
        q = elementwise(I, st, node, [a], lambda x: sun('conjugate', x))
        if not q: return []
        a = q[0][0]
    return outarg(I, matmul(I, [a, b], st, node), args, kw, node, 2)
def einsum(I, st, node, args, vs):
    """Explicit sums of products over indices of arrays known element by element."""
    if not args or args[0].k != 'str' or args[0].c is NOC or len(vs) != len(args) - 1: return None
    f = args[0].c.replace(' ', '')
    if '->' not in f or '.' in f: return None
    ins, out = f.split('->'); ins = ins.split(',')
    if len(ins) != len(vs): return None
    dim = {}; its = []
    for s, v in zip(ins, vs):
        q = nested(I, st, v)[1]; x = flat(I, st, v) if v.k in ('arr', 'list', 'tuple') else None
        if q is None or x is None or len(q) != len(s) or csize(q) != len(x): return None
        for n, d in zip(s, q):
            if dim.setdefault(n, d.const) != d.const: return None
        its.append((s, [d.const for d in q], x))
    names = list(out) + [n for n in dim if n not in out]
    if math.prod(dim.values()) > 4096 or any(n not in dim for n in out): return None
    import itertools
    acc = {}
    for ix in itertools.product(*[range(dim[n]) for n in names]):
        e = dict(zip(names, ix)); p = None
        for s, q, x in its:
            k = 0
            for n, d in zip(s, q): k = k * d + e[n]
            p = x[k] if p is None else sbin('Mult', p, x[k])
        o = ix[:len(out)]; acc[o] = p if o not in acc else sbin('Add', acc[o], p)
    r = [acc[o].r(deps=I.relabel(acc[o].deps, 'unk'), cur=None) for o in itertools.product(*[range(dim[n]) for n in out])]
    if not out: return r[0]
    e = r[0]
    for q in r[1:]: e = vjoin(e, q)
    return I.arr(st, node, e, tuple(Dim(dim[n]) for n in out), items=r)
@reg('numpy.outer', 'numpy.kron', 'numpy.tensordot', 'numpy.cross', 'numpy.einsum', 'numpy.multiply.outer', 'numpy.add.outer', 'numpy.subtract.outer')
def _outer(I, name, args, kw, st, node):
    vs = [a for a in args if a.k != 'str']
    e = None
    d = E0
    for a in vs:
        q = nested(I, st, a)[0]; e = q if e is None else sbin('Mult' if 'add' not in name and 'subtract' not in name else 'Add', e, q)
    sh = None
    if name in ('numpy.outer', 'numpy.multiply.outer', 'numpy.add.outer', 'numpy.subtract.outer') and len(vs) == 2:
        s0, s1 = shp(vs[0]), shp(vs[1])
        if s0 is not None and s1 is not None and len(s0) == len(s1) == 1:
            sh = (s0[0], s1[0])
            i0, i1 = nested(I, st, vs[0])[2], nested(I, st, vs[1])[2]
            if i0 is not None and i1 is not None and len(i0) * len(i1) <= _ip.MAXITEMS:
                op = 'Add' if 'add' in name else 'Sub' if 'subtract' in name else 'Mult'
                return I.arr(st, node, e.r(deps=I.relabel(e.deps, 'unk'), iv=None, t=None, c=NOC), sh, items=[sbin(op, p, q) for p in i0 for q in i1], deps=dj(*vs))
    if name == 'numpy.einsum':
        q = einsum(I, st, node, args, vs) if not kw else None
        if q is not None: return q
        if sh is None: return V('any', deps=I.relabel(e.deps, 'unk'), lin=e.lin, dt=e.dt)
    return I.arr(st, node, e.r(deps=I.relabel(e.deps, 'unk'), iv=None, t=None), sh)
@reg('numpy.convolve', 'numpy.correlate', 'scipy.signal.convolve', 'scipy.signal.correlate', 'scipy.signal.fftconvolve', 'scipy.signal.oaconvolve', 'numpy.polymul', 'numpy.polyadd', 'numpy.polysub')
def _conv(I, name, args, kw, st, node):
    a, b = args[:2]
    m = args[2] if len(args) > 2 else kw.get('mode')
    if name == 'numpy.convolve':
        # a number is a vector of one element
        if a.k == 'num': a = I.arr(st, node, a, (Dim(1),), items=(a,))
        if b.k == 'num': b = I.arr(st, node, b, (Dim(1),), items=(b,))
    ea, sa, _ = nested(I, st, a); eb, sb, _ = nested(I, st, b)
    p = sbin('Mult' if 'poly' not in name or name.endswith('mul') else 'Add', ea, eb)
    sh = None
    if sa is not None and sb is not None and len(sa) == len(sb) == 1 and sa[0] is not None and sb[0] is not None:
        full = (m is None and name not in ('numpy.correlate',)) or (m is not None and m.c == 'full')
        if full and 'add' not in name and 'sub' not in name: sh = (sa[0].add(sb[0]).add(Dim(-1)),)
        elif m is not None and m.c == 'same': sh = (sa[0],)
        else: sh = (None,)
    its = None
    if 'onv' in name and sh is not None and sh[0] is not None and sa is not None and sh[0].const == (sa[0].const or 0) + (sb[0].const or 0) - 1 and (m is None or m.c == 'full'):
        ia, ib = flat(I, st, a) if a.k in ('arr', 'list', 'tuple') else None, flat(I, st, b) if b.k in ('arr', 'list', 'tuple') else None
        if ia and ib and len(ia) * len(ib) <= 2000:
            its = [None] * (len(ia) + len(ib) - 1)
            for i, x in enumerate(ia):
                for j, y in enumerate(ib):
                    v = sbin('Mult', x, y); its[i + j] = v if its[i + j] is None else sbin('Add', its[i + j], v)
    return I.arr(st, node, p.r(deps=I.relabel(p.deps, 'unk'), mv='A', iv=None, t=term('convolve', ea.t, eb.t), c=NOC), sh, items=its)
@reg('numpy.linalg.inv', 'numpy.linalg.pinv', 'scipy.linalg.inv', 'scipy.linalg.pinv')
def _inv(I, name, args, kw, st, node):
    e, sh, _ = nested(I, st, args[0])
    lin = ldiv('K', e.lin) if e.lin != 'Z' else 'U'
    I.may_raise(st, 'LinAlgError', node) if e.lin not in ('K',) or e.deps else None
    its = flat(I, st, args[0]) if args[0].k in ('arr', 'list', 'tuple') else None; inv = None
    if its is not None and sh is not None and len(sh) == 2 and csize(sh) == len(its) and sh[0].const == sh[1].const and all(isnumc(q) for q in its):
        inv = inverse([q.c for q in its], sh[0].const)
        if inv is not None: inv = [V('num', c=q, dt=atleast(e.dt, 'f'), t=('c', q), deps=x.deps) for q, x in zip(inv, its)]
    elif _ip.NORMAL and its is not None and sh is not None and len(sh) == 2 and csize(sh) == len(its) and sh[0].const == sh[1].const and all(q.t is not None for q in its):
        inv = [V('num', dt=atleast(e.dt, 'f'), t=('inv', k, sh[0].const) + tuple(q.t for q in its), deps=I.relabel(e.deps, 'unk'), lin=lin, mv='A') for k in range(len(its))]
    return I.arr(st, node, V('num', dt=atleast(e.dt, 'f'), deps=I.relabel(e.deps, 'unk'), lin=lin, mv='A', t=term('inv', e.t)), sh, items=inv, deps=args[0].deps)
@reg('numpy.linalg.solve', 'scipy.linalg.solve')
def _solve(I, name, args, kw, st, node):
    ea, sa, _ = nested(I, st, args[0]); eb, sb, _ = nested(I, st, args[1])
    p = sbin('Div', eb, ea)
    if name == 'numpy.linalg.solve' and _ip.NORMAL:
        m = _inv(I, 'numpy.linalg.inv', [args[0]], {}, st, node)
        if I.vitems(st, m) is not None: return matmul(I, [m, args[1]], st, node)
    return I.arr(st, node, p.r(deps=I.relabel(p.deps, 'unk'), iv=None, t=term('solve', ea.t, eb.t), c=NOC), sb)
@reg('numpy.linalg.det', 'numpy.trace', 'numpy.linalg.cond', 'numpy.linalg.matrix_rank')
def _det(I, name, args, kw, st, node):
    d, l = argdeps(I, st, args, kw); return V('num', dt=DF, deps=d, lin=l, mv='A')
@reg('numpy.diag', 'numpy.triu', 'numpy.tril', 'numpy.cov', 'numpy.corrcoef', 'numpy.diagflat')
def _diag(I, name, args, kw, st, node):
    d, l = argdeps(I, st, args, kw); e = nested(I, st, args[0])[0]
    if name == 'numpy.cov' and _ip.NORMAL and len(args) == 1 and set(kw) <= {'rowvar', 'bias', 'ddof'} and all(v.c is not NOC for v in kw.values()):
        x = args[0]; its = I.vitems(st, x) if x.k == 'arr' else None
        if its and x.shape is not None and len(x.shape) == 2 and e.dt is not None and e.dt != DC:
            r, c = x.shape[0].const, x.shape[1].const
            rs = [its[i * c:(i + 1) * c] for i in range(r)]
            if 'rowvar' in kw and not kw['rowvar'].c: rs = [[q[j] for q in rs] for j in range(c)]; r, c = c, r
            dd = kw['ddof'].c if 'ddof' in kw and kw['ddof'].c is not None else 0 if 'bias' in kw and kw['bias'].c else 1
            if c > dd and r * r <= _ip.MAXITEMS:
                def mean(q):
                    t = q[0]
                    for z in q[1:]: t = sbin('Add', t, z)
                    return t
                ds = []
                for q in rs:
                    m = sbin('Div', mean(q), vconst(float(c))); ds.append([sbin('Sub', z, m) for z in q])
                out = [sbin('Div', mean([sbin('Mult', a, b) for a, b in zip(u, v)]), vconst(float(c - dd))) for u in ds for v in ds]
                return I.arr(st, node, V('num', dt=atleast(e.dt, 'f'), deps=d, lin=l), (Dim(r), Dim(r)), items=[q.r(deps=I.relabel(q.deps, 'unk')) for q in out], dt=atleast(e.dt, 'f'))
    return I.arr(st, node, V('num', dt=e.dt, deps=d, lin=e.lin if 'diag' in name or 'tri' in name else l), None)
@reg('numpy.polyfit')
def _polyfit(I, name, args, kw, st, node):
    x, y, n = bindp(args, kw, 'x y deg')
    ex, ey = elem(I, st, x), elem(I, st, y)
    d = I.relabel(ex.deps | ey.deps, 'blk') | n.deps | x.deps | y.deps
    if y.k == 'arr' and isinstance(y.c, tuple): pass
    I.event('usage', node, what='polyfit')
    its = None; xi, yi = numlist(I, st, x), I.vitems(st, y) if y.k == 'arr' else I.items(st, y)
    if ip.NORMAL and xi is not None and yi is not None and n.c.__class__ is int and 0 <= n.c < len(xi) == len(yi) and all(q.t is not None for q in yi):
        m = fitmatrix(xi, n.c)
        if m is not None:
            its = []
            for r in m:
                t = ('c', 0.0)
                for c, q in zip(r, yi): t = poly.fold('add', t, poly.fold('mul', ('c', c), q.t)) if t is not None else None
                its.append(V('num', dt=atleast(promote(ex.dt, ey.dt), 'f'), deps=d, lin=ey.lin, mv='A', t=t))
    return I.arr(st, node, items=its, elem=V('num', dt=atleast(promote(ex.dt, ey.dt), 'f'), deps=d, lin=ey.lin if ex.lin in ('K', 'Z') else 'U', mv='A', t=term('polyfit', ex.t, ey.t, n.t)), shape=(n.d.add(Dim(1)),) if n.d is not None else None)
def numlist(I, st, v):
    """Numbers of a vector of constants, or None."""
    its = I.vitems(st, v) if v.k == 'arr' else I.items(st, v) if v.k in ('list', 'tuple', 'range') else None
    if its is None or not all(q.k in ('num', 'bool') and q.c is not NOC and not isinstance(q.c, complex) for q in its): return None
    return [float(q.c) for q in its]
def fitmatrix(xs, n):
    """Least-squares polynomial fit as a matrix, highest degree first."""
    from fractions import Fraction as F
    X = [[F(x) ** k for k in range(n, -1, -1)] for x in xs]
    k = n + 1
    A = [[sum(r[i] * r[j] for r in X) for j in range(k)] + [X[c][i] for c in range(len(xs))] for i in range(k)]
    for i in range(k):
        p = next((r for r in range(i, k) if A[r][i]), None)
        if p is None: return None
        A[i], A[p] = A[p], A[i]
        d = A[i][i]; A[i] = [q / d for q in A[i]]
        for r in range(k):
            if r != i and A[r][i]:
                z = A[r][i]; A[r] = [q - z * w for q, w in zip(A[r], A[i])]
    return [[float(q) for q in r[k:]] for r in A]
@reg('numpy.polyval')
def _polyval(I, name, args, kw, st, node):
    p, x = bindp(args, kw, 'p x')
    e = elem(I, st, p)
    ps = I.vitems(st, p) if p.k == 'arr' else I.items(st, p) if p.k in ('list', 'tuple') else None
    def f(v):
        if ip.NORMAL and ps is not None and v.t is not None and len(ps) <= ip.MAXITEMS and all(q.t is not None for q in ps):
            t = ('c', 0.0)
            for q in ps: t = poly.fold('add', poly.fold('mul', t, v.t), q.t) if t is not None else None
            if t is not None: return V('num', dt=promote(e.dt, v.dt), deps=I.relabel(e.deps, 'blk') | v.deps | p.deps, lin=e.lin if v.lin in ('K', 'Z') else ('N' if v.lin != 'U' and e.lin != 'U' else 'U'), mv='A', t=t)
        lin = e.lin if v.lin in ('K', 'Z') else ('N' if v.lin != 'U' and e.lin != 'U' else 'U')
        return V('num', dt=promote(e.dt, v.dt), deps=I.relabel(e.deps, 'blk') | v.deps | p.deps, lin=lin, mv='A', t=term('polyval', e.t, v.t))
    return elementwise(I, st, node, [x], f)
def zeros_of(c):
    """Zeros of a polynomial with constant coefficients, highest power first ( simultaneous iteration )."""
    c = list(c)
    while c and c[0] == 0: c.pop(0)
    tail = 0
    while c and c[-1] == 0: c.pop(); tail += 1
    if not c: return []
    n = len(c) - 1; c = [complex(x) / c[0] for x in c]; cplx = any(x.imag for x in c)
    z = [(0.4 + 0.9j) ** k * (1.0 + max(abs(x) for x in c)) ** 0.5 for k in range(n)]
    for _ in range(2000):
        m = 0.0
        for i in range(n):
            p = q = 1.0 + 0j
            for x in c[1:]: p = p * z[i] + x
            for j in range(n):
                if j != i: q *= z[i] - z[j]
            if q == 0: return None
            z[i] -= p / q; m = max(m, abs(p / q))
        if m < 1e-14: break
    if m > 1e-6: return None
    out = [r.real if not cplx and abs(r.imag) <= 1e-9 * max(1.0, abs(r)) else r for r in z]
    return out + [0.0] * tail
@reg('numpy.roots', 'numpy.polynomial.polyroots')
def _roots(I, name, args, kw, st, node):
    e, sh, its = nested(I, st, args[0])
    I.event('roots', node, src=args[0])
    if name == 'numpy.roots' and sh is not None and len(sh) == 1:
        if its is not None:      # leading zeros are not counted
            while its and truth(I, its[0], st) is False: its = its[1:]
            sh = (D(max(len(its), 1)),) if not its or truth(I, its[0], st) else (None,)
    rs = zeros_of([q.c for q in its]) if ip.NORMAL and name == 'numpy.roots' and its is not None and sh is not None and len(sh) == 1 and all(isnumc(q) for q in its) and len(its) <= 12 else None
    if rs is not None:
        return I.arr(st, node, V('num', dt=DF if all(not isinstance(r, complex) for r in rs) else DC, deps=I.relabel(e.deps, 'unk'), lin='K', mv='A'), (D(len(rs)),), deps=args[0].deps, items=[vconst(r if all(not isinstance(q, complex) for q in rs) else complex(r)).r(deps=I.relabel(e.deps, 'unk')) for r in rs])
    v = V('num', dt=frozenset('fc') if e.dt is None or 'c' not in e.dt or len(e.dt) > 1 else DC, deps=I.relabel(e.deps, 'unk'), lin=lunk([e.lin]) if e.lin in ('K', 'Z', 'U') else 'U', mv='A', t=term('roots', e.t))
    fi = None
    if ip.NORMAL and name == 'numpy.roots' and its and sh is not None and len(sh) == 1 and 1 <= len(its) <= 12 and all(q.t is not None for q in its) and truth(I, its[0], st):
        fi = [v.r(t=('roots', k) + tuple(q.t for q in its)) for k in range(len(its) - 1)]  # the order is arbitrary but the same for all of them
    return I.arr(st, node, v, (sh[0].add(Dim(-1)),) if sh is not None and len(sh) == 1 and sh[0] is not None else (None,), deps=args[0].deps, items=fi)
@reg('numpy.poly')
def _poly(I, name, args, kw, st, node):
    e, sh, its = nested(I, st, args[0]); pi = None
    if sh is not None and len(sh) == 1 and sh[0] is not None and sh[0].const == 0: return vconst(1.0)
    if its is not None and sh is not None and len(sh) == 1 and all(q.k == 'num' and q.c is not NOC for q in its) and len(its) <= max(16, ip.MAXITEMS):
        pc = [1.0]
        for q in its: pc = [x - q.c * y for x, y in zip(pc + [0.0], [0.0] + pc)]
        if any(isinstance(c, complex) for c in pc) and all(abs(complex(c).imag) <= 1e-9 * max(1e-300, abs(c)) for c in pc): pc = [complex(c).real for c in pc] if e.dt is not None and 'c' not in e.dt else [complex(complex(c).real, 0.0) for c in pc]
        pi = [vconst(c).r(deps=e.deps) for c in pc]
    elif ip.NORMAL and its is not None and sh is not None and len(sh) == 1 and len(its) <= 8 and all(q.k == 'num' and (q.t is not None or q.c is not NOC) for q in its):
        pi = [vconst(1.0)]
        for q in its: pi = [sbin('Sub', x, sbin('Mult', q, y)) for x, y in zip(pi + [vconst(0.0)], [vconst(0.0)] + pi)]
        pi = [x.r(dt=atleast(e.dt, 'f'), deps=e.deps) for x in pi]
    return I.arr(st, node, items=pi, elem=V('num', dt=atleast(e.dt, 'f'), deps=I.relabel(e.deps, 'unk'), lin=lunk([e.lin]), mv='A', t=term('npoly', e.t)), shape= (sh[0].add(Dim(1)),) if sh is not None and len(sh) == 1 and sh[0] is not None else (None,))
def num_(z): return z.k in ('num', 'bool') and z.c is not NOC and z.t is not None
@reg('numpy.interp')
def _interp(I, name, args, kw, st, node):
    x, xp, fp, le, ri, pe = bindp(args, kw, 'x xp fp left right period')
    le, ri, pe = [None if q is None or q.k == 'none' else q for q in (le, ri, pe)]
    ex, ep, ef = elem(I, st, x), elem(I, st, xp), elem(I, st, fp)
    lin = ef.lin if ex.lin in ('K','Z') and ep.lin in ('K','Z') else 'U'
    d = I.relabel(ex.deps | ep.deps | ef.deps, 'unk') | dj(x, xp, fp)
    v = V('num', dt=atleast(ef.dt, 'f'), deps=d, lin=lin, mv='A', t=term('interp', ex.t, ep.t, ef.t))
    if le is not None or ri is not None or pe is not None:
        q = [z for z in (le, ri) if z is not None]
        v = v.r(deps=v.deps | dj(*[z for z in (le, ri, pe) if z is not None]), lin=lin if pe is None and all(num_(z) and z.c == 0 for z in q) else 'U', dt=vjoin(v, q[0]).dt if q and q[0].k == 'num' and pe is None else None, mv=None, t=None)
    if x.k in ('num', 'bool'): return v
    its = None
    if ip.NORMAL and pe is None and all(num_(z) for z in (le, ri) if z is not None):
        xv, xs = numlist(I, st, x), numlist(I, st, xp)
        fs = I.vitems(st, fp) if fp.k == 'arr' else I.items(st, fp)
        if xv is not None and xs and fs is not None and len(fs) == len(xs) and all(q.t is not None for q in fs) and all(a < b for a, b in zip(xs, xs[1:])):
            its = []
            for c in xv:
                if c < xs[0] and le is not None: t = le.t
                elif c > xs[-1] and ri is not None: t = ri.t
                elif c <= xs[0]: t = fs[0].t
                elif c >= xs[-1]: t = fs[-1].t
                else:
                    i = max(j for j in range(len(xs) - 1) if xs[j] <= c); w = (c - xs[i]) / (xs[i + 1] - xs[i])
                    t = poly.fold('add', poly.fold('mul', ('c', 1.0 - w), fs[i].t), poly.fold('mul', ('c', w), fs[i + 1].t))
                its.append(v.r(t=t))
    return I.arr(st, node, v, shp(x), items=its)
def fftf(I, name, args, kw, st, node):
    x = args[0] if args else kw.get('a', kw.get('x'))
    n = args[1] if len(args) > 1 else kw.get('n')
    e, sh, _ = nested(I, st, x)
    f = name.rsplit('.', 1)[-1]
    o = sh
    nn = (n.d if n is not None and n.k == 'num' else None) if n is not None and n.k != 'none' else (sh[-1] if sh else None)
    if sh is not None and len(sh) >= 1:
        o = list(sh)
        if f in ('fft', 'ifft', 'hfft'): o[-1] = nn
        elif f == 'rfft': o[-1] = nn.fdiv(2).add(Dim(1)) if nn is not None else None
        elif f == 'irfft': o[-1] = nn if n is not None else (nn.scale(2).add(Dim(-2)) if nn is not None else None)
        o = tuple(o)
    if f == 'rfft' and e.dt == DC: I.event('part', node, part='real', value=e)
    extra = [q.t for q in args[1:]] + [z for k, q in sorted(kw.items()) if k not in ('a', 'x') for z in (k, q.t)]
    I.event('fft', node, name=f, src=x)
    its = flat(I, st, x) if x.k in ('arr', 'list', 'tuple') else None; fi = None
    if its and f in ('fft', 'ifft', 'rfft') and sh is not None and len(sh) == 1 and not kw.keys() - {'a', 'x', 'n', 'norm'} and len(args) <= 2 and len(its) <= max(16, ip.MAXITEMS):
        m = nn.const if nn is not None else None; nm = kw.get('norm')
        if m and (nm is None or nm.k == 'none' or nm.c in ('backward', 'forward', 'ortho')):
            q = (list(its) + [vconst(0.0)] * m)[:m]; nm = nm.c if nm is not None and nm.k == 'str' else 'backward'
            g = {'backward': (1.0, 1.0 / m), 'ortho': (m ** -0.5, m ** -0.5), 'forward': (1.0 / m, 1.0)}[nm][f == 'ifft']
            fi = [lincomb([g * unit(k * i, m, 1 if f == 'ifft' else -1) for i in range(m)], q, DC) for k in range(m // 2 + 1 if f == 'rfft' else m)]
    return I.arr(st, node, V('num', dt=DF if f in ('irfft', 'hfft') else DC, deps=I.relabel(e.deps, 'unk') | x.deps, lin=e.lin, mv="A", t=term(f, e.t, *extra)), o, items=fi, deps=x.deps)
def unit(k, m, s):
    """The k-th of m roots of unity, exact on the axes."""
    k %= m
    for q, z in ((0, 1.0), (m, -1.0), (2 * m, 1.0)):
        if 2 * k == q: return complex(z, 0.0)
    if 4 * k == m: return complex(0.0, s)
    if 4 * k == 3 * m: return complex(0.0, -s)
    return complex(math.cos(2 * math.pi * k / m), s * math.sin(2 * math.pi * k / m))
def lincomb(cs, its, dt=None):
    r = None
    for c, q in zip(cs, its):
        v = sbin('Mult', vconst(c), q); r = v if r is None else sbin('Add', r, v)
    return r if dt is None else r.r(dt=dt)
for _p in ('numpy.fft.', 'scipy.fft.'):
    for _n in ('fft', 'ifft', 'rfft', 'irfft', 'hfft'): CALLS[_p + _n] = fftf
@reg('numpy.fft.fftshift', 'numpy.fft.ifftshift', 'scipy.fft.fftshift', 'scipy.fft.ifftshift')
def _shift(I, name, args, kw, st, node):
    x = args[0]
    e, sh, its = nested(I, st, x)
    if its is not None and sh is not None and len(sh) == 1 and len(args) == 1 and not kw and its:
        k = len(its) // 2 if 'ifft' in name else (len(its) + 1) // 2; its = list(its[k:]) + list(its[:k])
    else: its = None
    return I.arr(st, node, e.r(deps=I.relabel(e.deps, 'unk'), t=term(name.rsplit('.', 1)[-1], e.t)), sh, items=its, deps=x.deps)
@reg('numpy.fft.fftfreq', 'numpy.fft.rfftfreq', 'scipy.fft.fftfreq')
def _fftfreq(I, name, args, kw, st, node):
    n = args[0]
    d = n.d if 'rfft' not in name else (n.d.fdiv(2).add(Dim(1)) if n.d is not None else None)
    return I.arr(st, node, V('num', dt=DF, deps=dj(*args), t=term(name, *[a.t for a in args]), mv=frozenset(['const'])), (d,))
@reg('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.put_along_axis', 'numpy.random.shuffle', 'random.shuffle', 'numpy.add.at', 'numpy.subtract.at', 'numpy.multiply.at')
def _mut(I, name, args, kw, st, node):
    o = args[0]
    d, l = argdeps(I, st, args[1:], kw)
    v = elem(I, st, args[-1]) if len(args) > 1 and args[-1].k in ('num', 'arr', 'list', 'bool') else V('num', dt=o.dt, lin='U', deps=d)
    if 'random' in name: v = (I.content(st, o, 'unk')).dep(frozenset(['rng']))
    store(I, st, o, v.r(deps=v.deps | d), node, full=name == 'numpy.copyto' and len(args) == 2 and 'where' not in kw, via=name)
    return NONE
@reg('numpy.take', 'numpy.take_along_axis')
def _take(I, name, args, kw, st, node):
    e = nested(I, st, args[0])[0]
    d, l = argdeps(I, st, args, kw)
    ie = elem(I, st, args[1]) if len(args) > 1 and args[1].k in ('arr', 'list', 'num') else None
    if name in ('numpy.take', 'numpy.take_along_axis') and ie is not None:
        I.event('gather', node, src=args[0], index=args[1], indexelem=ie, elem=e)
        if args[1].k == 'num' and args[0].k == 'arr' and args[0].shape is not None and len(args[0].shape) == 1: return getitem(I, args[0], args[1], st, node)
        sh, its = nested(I, st, args[0])[1:]; ks = numlist(I, st, args[1]) if args[1].k in ('arr', 'list', 'tuple') and len(args) == 2 and not kw and name == 'numpy.take' else None
        if its is not None and sh is not None and len(sh) == 1 and ks is not None and all(q == int(q) and -len(its) <= q < len(its) for q in ks):
            return I.arr(st, node, e.r(deps=d, t=None, c=NOC, lin=e.lin), (Dim(len(ks)),), items=[its[int(q)] for q in ks], deps=args[0].deps)
        lin = e.lin if ie.lin in ('K', 'Z') else ('U' if 'U' in (ie.lin, e.lin) else (e.lin if e.lin in ('K', 'Z') and False else 'N'))
        return I.arr(st, node, e.r(deps=d, lin=lin, t=term('gather', e.t, ie.t)), shp(args[1]) if args[1].k == 'arr' else None)
    return I.arr(st, node, V('num', dt=e.dt, deps=d, lin=l), None)
@reg('numpy.select')
def _select(I, name, args, kw, st, node):
    cs, xs, df = bindp(args, kw, 'condlist choicelist default')
    cs, xs = I.items(st, cs), I.items(st, xs)
    d, l = argdeps(I, st, args, kw)
    if not cs or not xs or len(cs) != len(xs): return vany(d, l)
    r = df if df is not None else vconst(0)
    for c, x in reversed(list(zip(cs, xs))):
        r = elementwise(I, st, node, [c, x, r], cond)
        r = r[0][0] if isinstance(r, list) else r
    return r
@reg('numpy.shape')
def _shape(I, name, args, kw, st, node):
    x = args[0]
    if x.k == 'arr': return getattr_(I, x, 'shape', st, node)
    if x.k in ('num', 'bool'): return V('tuple', c=())
    s = nested(I, st, x)[1]
    return V('tuple', c=tuple(dimv(I, q, x.deps) for q in s)) if s is not None else vany(x.deps)
@reg('numpy.ndim', 'numpy.size')
def _ndim(I, name, args, kw, st, node):
    s = nested(I, st, args[0])[1]
    if s is not None and name == 'numpy.ndim': return vconst(len(s))
    if s is not None and len(s) == 1: return dimv(I, s[0], args[0].deps)
    return V('num', dt=DI, iv=(0, True, INF, False), deps=args[0].deps)
@reg('numpy.may_share_memory', 'numpy.shares_memory')
def _share(I, name, args, kw, st, node): return vbool(None if args[0].locs & args[1].locs else False)
@reg('numpy.isin', 'numpy.in1d')
def _isin(I, name, args, kw, st, node):
    d, l = argdeps(I, st, args, kw)
    return I.arr(st, node, V('num', dt=DB, deps=d, lin='K' if l == 'K' else 'N'), shp(args[0]))
@reg('numpy.ndindex', 'numpy.nditer', 'numpy.ndenumerate', 'numpy.vectorize', 'numpy.apply_along_axis', 'numpy.fromiter', 'numpy.frompyfunc')
def _weird(I, name, args, kw, st, node):
    if name == 'numpy.fromiter':
        dt = todt(I, args[1]) if len(args) > 1 else todt(I, kw.get('dtype'))
        e, sh, its = nested(I, st, args[0])
        return conv(I, st, node, e, sh, its, dt, args[0].deps)
    raise Unsupported(name)
@reg('numpy.array_str', 'numpy.array2string', 'numpy.array_repr', 'numpy.format_float_positional')
def _astr(I, name, args, kw, st, node): return vstr(argdeps(I, st, args, kw)[0])
@reg('numpy.errstate')
def _errstate(I, name, args, kw, st, node): return V('ext', c=('ctx', 'errstate'))
@reg('numpy.printoptions')
def _popt(I, name, args, kw, st, node): return V('ext', c=('ctx', 'printoptions'))
@reg('numpy.set_printoptions', 'numpy.seterr', 'numpy.seterrcall')
def _setp(I, name, args, kw, st, node):
    if name != 'numpy.seterr': return NONE if 'print' in name else vany()
    vs = list(kw.values()) + list(args)
    st.trace = tuple(q for q in st.trace if not (isinstance(q, tuple) and q[:1] == ('seterr',))) + (('seterr', 'saved' if vs and all(v.t is not None and "'errors'" in repr(v.t) for v in vs) else 'set'),)
    return vany(t=('errors',))
@reg('numpy.nan_to_num')
def _n2n(I, name, args, kw, st, node):
    x, cp, nan, pos, neg = bindp(args, kw, 'x copy nan posinf neginf')
    f = lambda q: sun('nan_to_num', q)
    if any(q is not None and q.k != 'none' for q in (nan, pos, neg)): f = lambda q: q.r(c=NOC, t=None, d=None, iv=None, lin='U')
    r = elementwise(I, st, node, [x], f)
    if cp is None or x.k != 'arr' or truth(I, cp, st): return r
    out = []
    for v, s in (r if isinstance(r, list) else [(r, st)]):
        store(I, s, x, v, node, full=True, via='nan_to_num(copy=False)'); out.append((x, s))
    return out
@reg('numpy.histogram', 'numpy.meshgrid', 'numpy.broadcast_arrays', 'numpy.indices', 'numpy.bincount')
def _misc(I, name, args, kw, st, node): return vany(*argdeps(I, st, args, kw))

# --- scipy
@reg('scipy.signal.firwin', 'scipy.signal.firwin2', 'scipy.signal.remez', 'scipy.signal.firls')
def _firwin(I, name, args, kw, st, node):
    n = args[0] if args else kw.get('numtaps')
    d, l = argdeps(I, st, args, kw)
    if I.fail_calls is None: I.may_raise(st, 'ValueError', node)
    ts = [('arg', i, a.t) for i, a in enumerate(args)] + [('kw', k, v.t if v.k != 'tuple' else term('tup', *[q.t for q in v.c])) for k, v in sorted(kw.items())]
    t = term('firwin', *ts) if all(x[2] is not None for x in ts) else None
    return I.arr(st, node, V('num', dt=DF, deps=d, lin='K' if l == 'K' else 'U', t=t), (n.d,) if n is not None else (None,))
@reg('scipy.signal.get_window')
def _getwin(I, name, args, kw, st, node):
    w, n, fb = bindp(args, kw, 'window Nx fftbins')
    d, l = argdeps(I, st, [w, n] + ([fb] if fb is not None else []), {})
    if isinstance(w.c, str) and w.c in NEEDPAR: I.raise_(st, 'ValueError', node); return []
    wt = w.t if w.k != 'tuple' else term('tup', *[q.t for q in w.c])
    v = V('num', dt=DF, deps=d, lin='K', t=term('window', wt, n.t, fb.t if fb is not None else ('c', True)))
    its = None
    if ip.NORMAL and n.c.__class__ is int and 1 <= n.c <= ip.MAXITEMS:
        wc = w.c if w.k != 'tuple' else tuple(q.c for q in w.c)
        q = winvals(wc, n.c, False if fb is None else fb.c)
        if fb is None: q = winvals(wc, n.c, True)
        if q is not None: its = [vconst(float(c)).r(deps=d) for c in q]
    return I.arr(st, node, v, (n.d,), items=its)
NEEDPAR = ('kaiser', 'ksr', 'kaiser_bessel_derived', 'kbd', 'gaussian', 'gauss', 'gss', 'general_gaussian', 'general_cosine', 'general_hamming', 'dpss', 'chebwin', 'cheb')
def winvals(w, n, periodic):
    """Values of a window of the signal library."""
    if periodic not in (True, False): return None
    if isinstance(w, tuple): name, beta = (w + (None,))[:2]
    else: name, beta = w, None
    if n == 1: return [1.0]
    m = n if periodic else n - 1
    cs = lambda *a: [sum((-1) ** k * c * math.cos(2.0 * math.pi * k * i / m) for k, c in enumerate(a)) for i in range(n)]
    if name in ('hann', 'hanning'): return cs(0.5, 0.5)
    if name == 'hamming': return cs(0.54, 0.46)
    if name == 'blackman': return cs(0.42, 0.5, 0.08)
    if name in ('boxcar', 'rectangular'): return [1.0] * n
    if name == 'kaiser' and isinstance(beta, (int, float)):
        i0 = lambda x: sum(((x / 2.0) ** k / math.factorial(k)) ** 2 for k in range(60))
        return [i0(beta * math.sqrt(max(0.0, 1.0 - (2.0 * i / m - 1.0) ** 2))) / i0(beta) for i in range(n)]
    return None
@reg('scipy.signal.freqz', 'scipy.signal.group_delay')
def _freqz(I, name, args, kw, st, node):
    if name.endswith('freqz'): b, a, n, w = bindp(args, kw, 'b a worN whole')
    else: s, n, w = bindp(args, kw, 'system w whole'); b = s
    d, l = argdeps(I, st, args, kw)
    if s_is(name) and b.k == 'tuple' and isinstance(b.c, tuple):
        for q in b.c:
            if q.k in ('arr', 'list'): d = d | I.content(st, q, 'unk').deps
    if n is None or n.k == 'none': n = vconst(512)
    sh = (n.d,) if n.k == 'num' else shp(n)
    I.event('response', node, name=name, args=args, kw=kw, whole=w)
    f = I.arr(st, node, V('num', dt=DF, deps=n.deps, t=term('freqs', n.t)), sh, tag='w')
    bt = [nested(I, st, q)[0].t for q in (b.c if b.k == 'tuple' and isinstance(b.c, tuple) else [b])] + ([nested(I, st, a)[0].t] if s_is(name) is False and a is not None else [])
    hi = responses(I, st, name, b, a if name.endswith('freqz') else None, n, w)
    if hi is not None: hi = [V('num', dt=DC if name.endswith('freqz') else DF, deps=I.relabel(d, 'unk'), lin='K' if l == 'K' else 'U', mv='A', t=t) if t is None or t[0] != 'c' else vconst(t[1]).r(deps=d, dt=DC if name.endswith('freqz') else DF) for t in hi]
    h = I.arr(st, node, V('num', dt=DC if name.endswith('freqz') else DF, deps=I.relabel(d, 'unk'), lin='K' if l == 'K' else 'U', t=term(name, *bt, n.t, w.t if w is not None else 'x') if all(x is not None for x in bt) else None), sh, tag='h', items=hi)
    return V('tuple', c=(f, h))
def responses(I, st, name, b, a, n, w):
    """Exact values of frequency response or group delay of short coefficient vectors."""
    if not ip.NORMAL or n.c.__class__ is not int or not 1 <= n.c <= ip.MAXITEMS: return None
    whole = w.c if w is not None else False
    if whole not in (True, False, 0, 1): return None
    if name.endswith('group_delay'):
        bs = I.items(st, b) if b.k in ('tuple', 'list') else None
        if bs is None or len(bs) != 2: return None
        b, a = bs
    fl = lambda q: None if q is None else [q] if q.k == 'num' and q.shape is None else flat(I, st, q) if q.k in ('arr', 'list', 'tuple') else None
    bi, ai = fl(b), fl(a) if a is not None else [vconst(1.0)]
    if not bi or not ai or len(bi) * len(ai) > max(64, 4 * ip.MAXITEMS) or any(q.t is None for q in list(bi) + list(ai)): return None
    F = lambda op, *z: poly.fold(op, *z) if all(q is not None for q in z) else None
    def at(ts, z):
        r = ('c', 0.0)
        for k, t in enumerate(ts): r = F('add', r, F('mul', ('c', z ** k), t))
        return r
    bt, at_ = [q.t for q in bi], [q.t for q in ai]
    conj = [t if t[0] == 'c' and not isinstance(t[1], complex) else poly.fold('conj', t) for t in at_]
    out = []
    for k in range(n.c):
        x = 2.0 * math.pi * k / n.c * (1.0 if whole else 0.5); z = complex(round(math.cos(x), 15), -round(math.sin(x), 15))
        if not name.endswith('group_delay'): p, q = at(bt, z), at(at_, z)
        else:
            if any(t is None for t in conj): return None
            c = [('c', 0.0)] * (len(bt) + len(conj) - 1)
            for i, u in enumerate(bt):
                for j, v in enumerate(reversed(conj)): c[i + j] = F('add', c[i + j], F('mul', u, v))
            p, q = at([F('mul', ('c', float(i)), t) for i, t in enumerate(c)], z), at(c, z)
        if p is None or q is None: return None
        if q[0] == 'c':
            if abs(q[1]) < 1e-12: return None
            r = F('mul', ('c', 1.0 / q[1]), p)
        else: r = ('div', p, q)
        if name.endswith('group_delay'):
            if r is not None and r[0] == 'c': r = ('c', complex(r[1]).real - len(at_) + 1)
            else: r = ('sub', ('real', r), ('c', float(len(at_) - 1)))
        out.append(r)
    return out
def s_is(name): return name.endswith('group_delay')
@reg('scipy.signal.hilbert')
def _hilbert(I, name, args, kw, st, node):
    x = args[0] if args else kw.get('x')
    e, sh, _ = nested(I, st, x)
    if e.dt == DC: I.raise_(st, 'ValueError', node); return []
    if e.dt is not None and 'c' in e.dt: I.may_raise(st, 'ValueError', node)
    its = flat(I, st, x) if _ip.NORMAL and x.k in ('arr', 'list', 'tuple') and len(args) <= 1 and not kw.keys() - {'x'} else None; fi = None
    if its and sh is not None and len(sh) == 1 and len(its) <= max(16, ip.MAXITEMS):
        m = len(its); h = [1.0 if 2 * q in (0, m) else 2.0 if 2 * q < m else 0.0 for q in range(m)]
        ks = [sum(h[q] * unit(q * r, m, 1) for q in range(m)) / m for r in range(m)]
        fi = [lincomb([complex(round(ks[(n - i) % m].real, 15), ks[(n - i) % m].imag) for i in range(m)], its, DC) for n in range(m)]
    return I.arr(st, node, V('num', dt=DC, deps=I.relabel(e.deps, 'blk') | x.deps, lin=e.lin, mv='A', t=term('hilbert', e.t)), sh, items=fi)
@reg('scipy.signal.lfilter')
def _lfilter(I, name, args, kw, st, node):
    b, a, x, ax, zi = bindp(args, kw, 'b a x axis zi')
    e, sh, _ = nested(I, st, x)
    cs = [nested(I, st, q)[0] for q in (b, a)]
    lin = e.lin if all(c.lin in ('K','Z') for c in cs) else 'U'
    d = I.relabel(e.deps, 'unk') | dj(*cs)
    zl = None
    if zi is not None and zi.k != 'none':
        z = nested(I, st, zi)[0]; d = d | z.deps; lin = ladd(lin, z.lin); dtz = z.dt
    dt = atleast(promote(e.dt, *[c.dt for c in cs]), 'f')
    y = I.arr(st, node, V('num', dt=dt, deps=d, lin=lin, mv='A'), sh)
    if zi is not None and zi.k != 'none':
        zf = I.arr(st, node, V('num', dt=dt, deps=d, lin=lin, mv='A'), shp(zi), tag='z')
        return V('tuple', c=(y, zf))
    return y
@reg('scipy.signal.residue', 'scipy.signal.residuez')
def _residue(I, name, args, kw, st, node):
    d, l = argdeps(I, st, args, kw)
    es = [nested(I, st, a)[0] for a in args[:2]]
    sh = nested(I, st, args[1])[1]
    n = sh[0].add(Dim(-1)) if sh is not None and len(sh) == 1 and sh[0] is not None else None
    bi, ai = (nested(I, st, q)[2] for q in args[:2])
    known = ip.NORMAL and name.endswith('residue') and len(args) == 2 and not kw and bi and ai and 2 <= len(ai) <= 12 and len(bi) < len(ai) and all(q.t is not None for q in list(bi) + list(ai)) and truth(I, ai[0], st)
    def mk(tag):
        v = V('num', dt=frozenset('fc') if not any(e.dt == DC for e in es) else DC, deps=d, lin=l, mv='A', t=term('residue' + tag, *[e.t for e in es]))
        fi = [v.r(t=('residue', tag, k, len(bi)) + tuple(q.t for q in list(bi) + list(ai))) for k in range(len(ai) - 1)] if known and tag in 'rp' else None
        return I.arr(st, node, v, (n,), tag=tag, items=fi)
    return V('tuple', c=(mk('r'), mk('p'), mk('k')))
for _n in ('upfirdn', 'resample', 'resample_poly', 'decimate', 'sosfilt', 'filtfilt', 'detrend', 'medfilt', 'butter', 'bessel', 'cheby1', 'bilinear', 'tf2zpk', 'zpk2tf', 'lfilter_zi', 'lfiltic', 'welch', 'spectrogram', 'stft', 'periodogram'):
    pass

# --- python builtins
@reg('builtins.len')
def _len(I, name, args, kw, st, node):
    x = args[0]
    if x.k in ('num', 'bool', 'none', 'func', 'cls'): I.raise_(st, 'TypeError', node); return []
    if x.k == 'arr' and x.shape == (): I.raise_(st, 'TypeError', node); return []
    n = length(I, st, x)
    if x.k == 'inst':
        p = I.lookup_live(st, x.c, '__len__')
        if p: return I.call(I.bind(p[1], x, p[0]), [], {}, st, node)
        I.raise_(st, 'TypeError', node); return []
    d = x.deps
    if x.k == 'list' and n is None:
        for l in x.locs:
            c = I.cell(st, l)
            if c is not None and 'lendeps' in (c.attrs or {}): d = d | c.attrs['lendeps'].deps
    v = dimv(I, n, d)
    if n is None: v = v.r(t=term('len', x.t) if x.t is not None and x.k in ('any', 'str') else None)
    return v
@reg('builtins.range')
def _range(I, name, args, kw, st, node):
    if any(a.k not in ('num', 'bool', 'any') or a.dt == DF for a in args): I.raise_(st, 'TypeError', node); return []
    a = args[0] if len(args) > 1 else vconst(0)
    b = args[1] if len(args) > 1 else args[0]
    s = args[2] if len(args) > 2 else vconst(1)
    if isnumc(s) and s.c == 0: I.raise_(st, 'ValueError', node); return []
    return V('range', c=(a.d, b.d, s.d), deps=dj(*args))
@reg('builtins.enumerate')
def _enum(I, name, args, kw, st, node):
    x, s = bindp(args, kw, 'iterable start')
    its = I.iter_items(st, x)
    s = s or vconst(0)
    if its is not None and len(its) <= _ip.MAXITEMS and isnumc(s): return V('iter', c=('items', tuple(V('tuple', c=(vconst(s.c + i), v.dep(x.deps))) for i, v in enumerate(its))))
    return V('iter', c=('enumerate', x, s), deps=x.deps)
@reg('builtins.zip', 'itertools.zip_longest')
def _zip(I, name, args, kw, st, node):
    its = [I.iter_items(st, a) for a in args]
    if args and all(q is not None for q in its) and min(len(q) for q in its) <= _ip.MAXITEMS and name == 'builtins.zip': return V('iter', c=('items', tuple(V('tuple', c=tuple(z)) for z in zip(*its))))
    if name != 'builtins.zip':
        fv = kw.get('fillvalue', NONE)
        if args and all(q is not None for q in its) and max(len(q) for q in its) <= _ip.MAXITEMS: return V('iter', c=('items', tuple(V('tuple', c=tuple(q[i] if i < len(q) else fv for q in its)) for i in range(max(len(q) for q in its)))))
        return vany(argdeps(I, st, args, kw)[0])
    kw.get('strict')
    return V('iter', c=('zip', tuple(args)), deps=dj(*args))
@reg('builtins.reversed')
def _reversed(I, name, args, kw, st, node):
    its = I.iter_items(st, args[0])
    if its is not None: return V('iter', c=('items', tuple(reversed(its))), deps=args[0].deps)
    return V('iter', c=('reversed', args[0]), deps=args[0].deps)
@reg('builtins.map')
def _map(I, name, args, kw, st, node):
    f = args[0]
    if len(args) == 2:
        its = I.iter_items(st, args[1])
        if its is not None and len(its) <= _ip.MAXITEMS:
            cur = [([], st)]
            for v in its: cur = [(acc + [r], s2) for acc, s in cur for r, s2 in I.call(f, [v], {}, s, node)]
            return [(V('iter', c=('items', tuple(a)), deps=args[1].deps), s) for a, s in cur]
        return V('iter', c=('map', args[1], f), deps=args[1].deps)
    if len(args) > 2:
        its = [I.iter_items(st, a) for a in args[1:]]
        if all(q is not None for q in its) and min(len(q) for q in its) <= _ip.MAXITEMS:
            cur = [([], st)]
            for vs in zip(*its): cur = [(acc + [r], s2) for acc, s in cur for r, s2 in I.call(f, list(vs), {}, s, node)]
            return [(V('iter', c=('items', tuple(a)), deps=dj(*args[1:])), s) for a, s in cur]
    raise Unsupported('map')
@reg('builtins.filter')
def _filter(I, name, args, kw, st, node):
    its = I.iter_items(st, args[1]) if len(args) == 2 else None
    if its is not None and len(its) <= _ip.MAXITEMS:
        cur = [([], st)]; known = True
        for v in its:
            nxt = []
            for acc, s in cur:
                for r, s2 in ([(v, s)] if args[0].k == 'none' else I.call(args[0], [v], {}, s, node)):
                    t = truth(I, r, s2)
                    if t is None: known = False
                    nxt.append((acc + [v] if t else acc, s2))
            cur = nxt
        if known: return [(V('iter', c=('items', tuple(a)), deps=args[1].deps), s) for a, s in cur]
    return vany(argdeps(I, st, args[1:], kw)[0])
@reg('builtins.iter')
def _iter(I, name, args, kw, st, node): return args[0] if args[0].k in ('list', 'tuple', 'arr', 'iter') else vany(args[0].deps)
@reg('builtins.next')
def _next(I, name, args, kw, st, node):
    if len(args) < 2: I.may_raise(st, 'StopIteration', node)
    x = args[0]
    if x.k in ('list', 'tuple', 'iter'):
        its = I.iter_items(st, x)
        if its: 
            r = its[0]
            for q in its[1:]: r = vjoin(r, q)
            return r if len(args) < 2 else vjoin(r, args[1])
        if x.k in ('list',):
            e = rawelem(I, st, x)
            if e is not None: return e if len(args) < 2 else vjoin(e, args[1])
    return vany(argdeps(I, st, args, kw)[0])
@reg('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset')
def _list(I, name, args, kw, st, node):
    k = name.split('.')[1].replace('frozen', '')
    if not args: return V('tuple', c=()) if k == 'tuple' else I.list_(st, node, items=[], kind=k)
    x = args[0]
    if x.k in ('num', 'bool', 'none', 'func', 'inst') or x.k == 'arr' and x.shape == (): I.raise_(st, 'TypeError', node); return []
    if x.k == 'str' and x.c is not NOC: its = tuple(vconst(ch) for ch in x.c)
    else: its = I.iter_items(st, x)
    if its is not None and len(its) <= max(64, ip.MAXITEMS):
        if k == 'tuple': return V('tuple', c=tuple(its), deps=x.deps)
        if k == 'set':
            u = []
            for q in its:
                if q.c is NOC or not any(z.c == q.c and z.k == q.k for z in u if z.c is not NOC): u.append(q)
            its = u
            if any(q.c is NOC for q in its) and len(its) > 1: return I.list_(st, node, elem=I.content(st, V('tuple', c=tuple(its))), kind='set', deps=x.deps)
        return I.list_(st, node, items=list(its), kind=k, deps=x.deps)
    if x.k in ('arr', 'list', 'set', 'range'):
        n = length(I, st, x)
        e = rawelem(I, st, x) if x.k in ('list', 'set') else (subview(I, x, x.shape[1:]) if x.k == 'arr' and x.shape is not None and len(x.shape) > 1 else (elem(I, st, x) if x.k == 'arr' else V('num', dt=DI, deps=x.deps, iv=(0, True, INF, False))))
        if k == 'tuple':
            # keep as list-like immutable
            return I.list_(st, node, elem=e, length=n, deps=x.deps)
        return I.list_(st, node, elem=e, length=n if k == 'list' else None, kind=k, deps=x.deps)
    if x.k == 'iter' and isinstance(x.c, tuple):
        el, must, empty, info = iter_abs(I, st, x, node)
        if empty: return I.list_(st, node, items=[], kind='list' if k == 'tuple' else k)
        e = el(st, 2)
        if e.k in ('num',): e = e.r(deps=frozenset('el' + d[3:] if isinstance(d, str) and d.startswith('cur:') else d for d in e.deps), cur=None)
        return I.list_(st, node, elem=e, length=info.get('length'), kind='list' if k == 'tuple' else k)
    if x.k == 'any': I.may_raise(st, 'TypeError', node)
    return I.list_(st, node, elem=vany(x.deps, lunk([x.lin])).r(dt=x.dt), kind='list' if k == 'tuple' else k, deps=x.deps)
@reg('builtins.dict', 'collections.OrderedDict')
def _dict(I, name, args, kw, st, node):
    base = {}
    if args:
        x = args[0]
        if x.k == 'dict':
            it = dict_items(I, st, x)
            if it is None:
                c = I.content(st, x); return I.mkdict(st, node, None, [c] + list(kw.values()))
            base.update(it)
        else:
            its = I.iter_items(st, x)
            ok = its is not None and all(q.k == 'tuple' and isinstance(q.c, tuple) and len(q.c) == 2 and q.c[0].c is not NOC for q in its)
            if not ok: return I.mkdict(st, node, None, [vany(argdeps(I, st, args, kw)[0])])
            base.update({q.c[0].c: q.c[1] for q in its})
    kw = dict(kw); kw.pop('**', None)
    base.update(kw)
    return I.mkdict(st, node, base)
@reg('types.MappingProxyType')
def _mp(I, name, args, kw, st, node): return args[0]
@reg('builtins.int', 'builtins.float', 'builtins.complex', 'builtins.bool', *['numpy.' + n for n in ('float64', 'float32', 'int64', 'int32', 'complex128', 'complex64', 'bool_', 'intp', 'double', 'float_', 'int_', 'complex_', 'uint8', 'float16')])
def _conv1(I, name, args, kw, st, node):
    n = name.split('.')[1]
    dt = DTYPES[n]
    if n == 'complex' and (len(args) == 2 or kw):
        a, b = bindp(args, kw, 'real imag')
        a, b = a or vconst(0.0), b or vconst(0.0)
        if any(q.k == 'none' or q.k == 'str' for q in (a, b)): I.raise_(st, 'TypeError', node); return []
        if not all(q.k in ('num', 'bool') for q in (a, b)): return vany(a.deps | b.deps, lunk([a.lin, b.lin])).r(dt=DC)
        if isnumc(a) and isnumc(b): return vconst(complex(a.c, b.c)).r(deps=a.deps | b.deps)
        return sbin('Add', a, sbin('Mult', vconst(1j), b)).r(k='num', dt=DC, cur=None)
    if not args: return vconst({'b': False, 'i': 0, 'f': 0.0, 'c': 0j}[next(iter(dt))])
    if n == 'int' and (b := args[1] if len(args) > 1 else kw.get('base')) is not None:
        if args[0].k == 'str' and args[0].c is not NOC and isnumc(b):
            try: return vconst(int(args[0].c, b.c)).r(deps=args[0].deps)
            except Exception: I.raise_(st, 'ValueError', node); return []
        return V('num', dt=DI, deps=args[0].deps | b.deps, lin='U')
    x = args[0]
    if n == 'bool' or n == 'bool_':
        t = truth(I, x, st)
        e = x if x.k in ('num', 'bool') else V('num', deps=x.deps, lin='K' if x.lin in ('K','Z') else 'U')
        return vbool(t, x.deps, cmplin(e) if t is None else 'K', term('bool', x.t))
    if x.k in ('arr', 'list', 'tuple'):
        if x.k == 'arr' and name.startswith('builtins') and x.shape is not None and all(q is not None and q.const == 1 for q in x.shape): x = elem(I, st, x)
        elif name.startswith('builtins') and (x.k != 'arr' or x.shape is not None and any(q is not None and (q.low() or 0) > 1 for q in x.shape)): I.raise_(st, 'TypeError', node); return []
        elif x.k == 'arr' and name.startswith('builtins'): x = elem(I, st, x)
        else:
            e, sh, its = nested(I, st, x)
            return conv(I, st, node, e, sh, None, dt, x.deps)
    if x.k == 'none': I.raise_(st, 'TypeError', node); return []
    if x.k == 'str':
        if x.c is not NOC:
            try: return vconst({'i': int, 'f': float, 'c': complex}[next(iter(dt))](x.c))
            except Exception: I.raise_(st, 'ValueError', node); return []
        I.may_raise(st, 'ValueError', node); return V('num', dt=dt, deps=x.deps, lin='U' if x.deps else 'K')
    if x.k == 'any':
        I.may_raise(st, 'TypeError', node)
        return V('num', dt=dt, deps=x.deps, lin=x.lin, t=term(n, x.t))
    if x.dt == DC and dt != DC and name.startswith('builtins'): I.raise_(st, 'TypeError', node); return []
    if x.dt == DC and dt != DC: I.event('cast', node, value=x, dt=dt, src=x, explicit=True)
    if isnumc(x):
        try: return vconst({'i': int, 'f': float, 'c': complex}[next(iter(dt))](x.c)).r(deps=x.deps)
        except Exception: pass
    if dt == DI and x.dt is not None and x.dt != DI and x.dt != DB:
        iv = None
        if x.iv is not None:
            f = lambda z: z if abs(z) == INF else int(z)
            iv = (f(x.iv[0]), abs(x.iv[0]) != INF, f(x.iv[2]), abs(x.iv[2]) != INF)
        t = term('int', x.t)
        return V('num', dt=DI, iv=iv, deps=x.deps, lin=lnon(x.lin) if not isinstance(x.lin, tuple) else 'N', mv=None if x.mv is None else 'A', t=t, d=opaque('int', t) if t is not None and iv is not None and iv[0] >= 0 else None)
    return x.r(k='num', dt=dt, cur=None if dt != DI else x.cur, d=x.d if dt == DI else None)
ASCIIOK = {'utf8', 'u8', 'ascii', 'usascii', '646', 'latin1', 'iso88591', 'l1', 'cp1252', 'windows1252'}
def asciiok(e): return isinstance(e, tuple) and len(e) > 1 and (e[0] == 'par' or e[0] == 'c' and isinstance(e[1], str) and e[1].lower().replace('-', '').replace('_', '') in ASCIIOK)
def recoded(t, e):
    """Text which was decoded from bytes and is encoded again: the same bytes.  A symbolic encoding is taken to agree with ASCII on ASCII text."""
    if not (isinstance(t, tuple) and t and t[0] == 'dec'): return False
    if t[2] == e and (e is None or e[0] != 'c' or asciiok(e)): return True
    return isinstance(t[1], tuple) and t[1][:1] and t[1][0] in ('b85', 'b64', 'b32', 'b16', 'a85', 'b64u', 'hex') and asciiok(t[2]) and asciiok(e)
def encterm(x, e, err=None):
    """Bytes of a text in an encoding; what cannot be encoded is an error unless said otherwise."""
    if recoded(x.t, e.t): return x.t[1]
    if err is not None and err.c != 'strict' and isinstance(x.t, tuple) and x.t[:1] == ('par',):
        return ('enc', x.t, e.t, err.c) if err.c is not NOC and e.t is not None else None
    return term('enc', x.t, e.t)
@reg('builtins.str', 'builtins.repr', 'builtins.format', 'builtins.ascii')
def _str(I, name, args, kw, st, node):
    if not args: return vconst('')
    x = args[0]
    if x.k == 'bytes':
        enc = args[1] if len(args) > 1 else kw.get('encoding')
        if enc is not None:
            I.event('codec', node, op='decode', value=x, enc=enc)
            return vstr(x.deps | enc.deps, term('dec', x.t, enc.t) if not (isinstance(x.t, tuple) and x.t[0] == 'enc' and x.t[2] == enc.t) else x.t[1])
        return vstr(x.deps, term('str', x.t))
    if x.k == 'str' and name == 'builtins.str': return x
    if x.c is not NOC and x.k in ('num', 'bool', 'none') and len(args) == 1: return vconst(str(x.c)).dep(x.deps)
    return vstr(argdeps(I, st, args, kw)[0], term('str', x.t))
@reg('builtins.bytes', 'builtins.bytearray')
def _bytes(I, name, args, kw, st, node):
    if not args: return vconst(b'')
    x = args[0]; enc = args[1] if len(args) > 1 else kw.get('encoding')
    if x.k == 'bytes': return x
    if enc is not None:
        I.event('codec', node, op='encode', value=x, enc=enc)
        return V('bytes', deps=x.deps | enc.deps, t=encterm(x, enc, args[2] if len(args) > 2 else kw.get('errors')))
    return V('bytes', deps=argdeps(I, st, args, kw)[0])
@reg('builtins.abs')
def _abs(I, name, args, kw, st, node): return unary(I, 'abs', args, kw, st, node)
@reg('builtins.pow', 'math.pow')
def _pow(I, name, args, kw, st, node): return binop(I, 'Pow', args[0], args[1], st, node)
@reg('builtins.divmod')
def _divmod(I, name, args, kw, st, node):
    r = []
    for q, s in binop(I, 'FloorDiv', args[0], args[1], st, node):
        for m, s2 in binop(I, 'Mod', args[0], args[1], s, node): r.append((V('tuple', c=(q, m)), s2))
    return r
@reg('numpy.divmod', 'numpy.modf', 'numpy.frexp', 'math.modf', 'math.frexp')
def _modf(I, name, args, kw, st, node):
    d, l = argdeps(I, st, args, kw); v = V('num', dt=DF, deps=d, lin='K' if l == 'K' else 'N', mv='A'); return V('tuple', c=(v, v))
@reg('math.floor', 'math.ceil', 'math.trunc')
def _mfloor(I, name, args, kw, st, node):
    x = args[0]
    if x.k not in ('num', 'bool'): return vany(x.deps)
    r = sun(name.split('.')[1], x)
    if isnumc(r): return vconst(int(r.c)).dep(r.deps)
    t = term(name, x.t)
    iv = None
    if x.iv is not None and x.iv[0] >= 0: iv = (0, True, INF, False)
    return r.r(dt=DI, iv=iv, d=opaque(name, t) if t is not None and iv is not None else None)
@reg('math.gcd', 'math.lcm', 'math.comb', 'math.factorial', 'math.isqrt')
def _mint(I, name, args, kw, st, node):
    if all(isnumc(a) for a in args):
        try: return vconst(getattr(math, name[5:])(*[a.c for a in args]))
        except Exception: pass
    return V('num', dt=DI, deps=dj(*args), iv=(0, True, INF, False))
@reg('builtins.isinstance')
def _isinstance(I, name, args, kw, st, node):
    x, t = args
    ts = t.c if t.k == 'tuple' and isinstance(t.c, tuple) else (t,)
    rs = []
    for q in ts: rs.append(isinst(I, x, q))
    if any(r is True for r in rs): return vbool(True, x.deps)
    if all(r is False for r in rs): return vbool(False, x.deps)
    return vbool(None, x.deps)
KINDCLS = {'list': 'builtins.list', 'tuple': 'builtins.tuple', 'dict': 'builtins.dict', 'str': 'builtins.str', 'set': 'builtins.set', 'bytes': 'builtins.bytes', 'range': 'builtins.range', 'slice': 'builtins.slice'}
def isinst(I, x, q):
    if q.k != 'cls': return None
    n = q.c
    if n == 'builtins.object': return True
    if x.k == 'inst': return (n in I.mro(x.c)) if isinstance(n, ClassInfo) else (None if isinstance(n, str) and n.startswith(('collections', 'typing', 'abc')) else False)
    if x.k == 'exc':
        m = (n.name if isinstance(n, ClassInfo) else n.rsplit('.', 1)[-1])
        if isinstance(n, str) and n.startswith('builtins.') and not isinstance(getattr(__import__('builtins'), n[9:], None), type): return None
        if n in ('builtins.str', 'builtins.list'): return False
        return I.exc_sub(x.c if x.c is not NOC else '?', m)
    if x.k == 'any' or x.k == 'ext':
        if x.k == 'ext' and n in ABST: return False
        return None
    if isinstance(n, ClassInfo): return False
    if x.k == 'arr': return True if n == 'numpy.ndarray' else (None if n.startswith(('collections', 'typing')) else False)
    if x.k in ('num', 'bool'):
        s = n.rsplit('.', 1)[-1]
        if n in ('builtins.list', 'builtins.tuple', 'builtins.str', 'builtins.dict', 'numpy.ndarray', 'builtins.bytes', 'builtins.set'): return False
        if x.dt is None: return None
        if n in ('builtins.float',): return True if x.dt == DF else (False if 'f' not in x.dt else None)
        if n in ('builtins.complex',): return True if x.dt == DC else (False if 'c' not in x.dt else None)
        if n in ('builtins.int',):
            if x.dt <= frozenset('ib'): return True if x.k == 'bool' or x.c is not NOC or 'pyint' in x.deps else None
            return False if not (x.dt & frozenset('ib')) else None
        if n == 'builtins.bool': return True if x.k == 'bool' else (False if 'b' not in x.dt else None)
        if n in ABST:
            ks = ABST[n]
            if n.startswith('numbers.'): return True if all(z in ks for z in x.dt) else (False if not any(z in ks for z in x.dt) else None)
            if not any(z in ks for z in x.dt): return False
            return None
        if n.startswith('numpy.') and s in DTYPES: return False if not (DTYPES[s] & x.dt) else None
        return None
    if x.k in KINDCLS:
        if n == KINDCLS[x.k]: return True
        if n.startswith(('collections', 'typing')): return None
        return False
    if x.k == 'none': return False
    if x.k in ('func', 'cls'): return None
    return None
@reg('builtins.hasattr')
def _hasattr(I, name, args, kw, st, node):
    x, n = args
    if n.c is NOC: return vbool(None, x.deps)
    if x.k == 'inst':
        c = None
        for l in x.locs:
            c = I.cell(st, l)
            if c is not None and n.c in (c.attrs or {}): return vbool(True, x.deps)
        if I.lookup_live(st, x.c, n.c): return vbool(True, x.deps)
        return vbool(False, x.deps)
    if x.k == 'ext':
        if x.c[0] == 'gmm':
            c = I.cell(st, next(iter(x.locs)))
            return vbool('fitted' in c.flag if not c.multi or 'fitted' in c.flag else None, x.deps)
        if x.c[0] == 'stream': return vbool(True, x.deps)
        return vbool(None, x.deps)
    if x.k == 'any': return vbool(None, x.deps, t=term('hasattr', x.t, n.c) if x.t is not None else None)
    py = {'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'set': set, 'bytes': bytes, 'none': type(None)}.get(x.k)
    if py is not None: return vbool(hasattr(py, n.c), x.deps)
    if x.k == 'num': return vbool(None if n.c not in ('write', 'shape', 'dtype', 'append', '__len__', '__iter__') else (False if n.c in ('write', 'append', '__len__', '__iter__') else None), x.deps)
    if x.k == 'arr': return vbool(None if n.c not in ('shape', 'dtype', 'write', 'append', '__len__', '__iter__', 'ndim') else n.c in ('shape', 'dtype', '__len__', '__iter__', 'ndim'), x.deps)
    return vbool(None, x.deps)
@reg('builtins.getattr')
def _getattr(I, name, args, kw, st, node):
    x, n = args[:2]
    if n.c is NOC:
        return vany(argdeps(I, st, args, kw)[0])
    if len(args) > 2:
        I.sinks.append([])
        try: r = I.getattr_(x, n.c, st, node)
        finally: sink = I.sinks.pop()
        for o in sink:
            if o.kind == 'raise' and o.v.c == 'AttributeError': r = r + [(args[2], o.st)]
            else: I.sinks[-1].append(o)
        return r
    return I.getattr_(x, n.c, st, node)
@reg('builtins.setattr')
def _setattr(I, name, args, kw, st, node):
    x, n, v = args
    if n.c is NOC: raise Unsupported('setattr')
    return [(NONE, s) for s in I.setattr_(st, x, n.c, v, node)]
@reg('object.__setattr__', 'builtins.object.__setattr__')
def _osetattr(I, name, args, kw, st, node):
    x, n, v = args
    if n.c is NOC: raise Unsupported('setattr')
    return [(NONE, s) for s in I.setfield(st, x, n.c, v, node)]
@reg('builtins.type')
def _type(I, name, args, kw, st, node):
    x = args[0]
    if x.k == 'inst': return V('cls', c=x.c)
    if x.k in KINDCLS: return V('cls', c=KINDCLS[x.k])
    if x.k == 'arr': return V('cls', c='numpy.ndarray')
    return V('any', deps=x.deps)
@reg('builtins.callable')
def _callable(I, name, args, kw, st, node): return vbool(True if args[0].k in ('func', 'cls') else (False if args[0].k in ('num', 'str', 'list', 'arr', 'none', 'dict', 'tuple') else None))
@reg('builtins.print', 'builtins.id', 'builtins.hash', 'builtins.vars', 'builtins.globals', 'builtins.locals', 'builtins.dir', 'builtins.ord', 'builtins.chr', 'builtins.hex', 'builtins.bin', 'builtins.oct')
def _misc2(I, name, args, kw, st, node):
    if name == 'builtins.print': return NONE
    if name == 'builtins.vars' and args and args[0].k == 'inst': raise Unsupported('vars')
    if name in ('builtins.globals', 'builtins.locals'): raise Unsupported(name)
    return vany(argdeps(I, st, args, kw)[0] | (frozenset(['id']) if name == 'builtins.id' else E0))
@reg('builtins.exec', 'builtins.eval', 'builtins.compile', 'builtins.__import__', 'importlib.import_module')
def _exec(I, name, args, kw, st, node): raise Unsupported(name)
@reg('builtins.slice')
def _slice(I, name, args, kw, st, node):
    if len(args) == 1: return V('slice', c=(NONE, args[0], NONE))
    return V('slice', c=(args[0], args[1], args[2] if len(args) > 2 else NONE))
@reg('builtins.object')
def _object(I, name, args, kw, st, node): return vany()
@reg('builtins.object.__init__', 'builtins.super')
def _oinit(I, name, args, kw, st, node): return NONE
@reg('builtins.open')
def _open(I, name, args, kw, st, node): return V('ext', c=('file', 'open'), deps=frozenset(['env']))
@reg('typing.cast')
def _cast(I, name, args, kw, st, node): return args[1]

# --- copy / functools / contextlib / warnings / threading
@reg('copy.copy', 'copy.deepcopy')
def _copy(I, name, args, kw, st, node):
    x = args[0]
    return deep(I, st, node, x, name.endswith('deepcopy'), 0)
def deep(I, st, node, x, rec, dpt):
    if x.k == 'arr':
        e = elem(I, st, x); its = I.items(st, x)
        return I.arr(st, node, e, x.shape, dt=x.dt, items=its, deps=x.deps, tag=f'c{dpt}')
    if x.k in ('list', 'set', 'dict') and x.locs:
        c0 = None
        for l in x.locs:
            c = I.cell(st, l)
            if c is not None: c0 = c if c0 is None else _ip.cjoin(c0, c)
        if c0 is None: return x
        f = (lambda v: deep(I, st, node, v, True, dpt + 1)) if rec else (lambda v: v)
        items = c0.items
        if isinstance(items, dict): items = {k: f(v) for k, v in items.items()}
        elif isinstance(items, tuple): items = tuple(f(v) for v in items)
        loc = I.alloc(st, node, Cell(c0.kind, elem=f(c0.elem) if c0.elem is not None else None, items=items, flag=c0.flag - {'multi'}), f'c{dpt}{x.k}')
        return x.r(locs=frozenset([loc]))
    if x.k == 'tuple' and isinstance(x.c, tuple) and rec: return x.r(c=tuple(deep(I, st, node, v, True, dpt + 1) for v in x.c))
    if x.k == 'inst' and isinstance(x.c, ClassInfo):
        at = {}
        for l in x.locs:
            c = I.cell(st, l)
            for k, v in (c.attrs or {}).items(): at[k] = deep(I, st, node, v, True, dpt + 1) if rec else v
        loc = I.alloc(st, node, Cell('inst', attrs=at, cls=x.c.name), f'c{dpt}I')
        return V('inst', c=x.c, locs=frozenset([loc]))
    return x
@reg('functools.partial')
def _partial(I, name, args, kw, st, node):
    f = args[0]
    if f.k != 'func': return V('func', c=('partial', f, (tuple(args[1:]), dict(kw)))) if f.k == 'cls' else vany()
    return V('func', c=('partial', f, (tuple(args[1:]), dict(kw))))
@reg('functools.lru_cache', 'functools.cache')
def _lru(I, name, args, kw, st, node):
    if args and args[0].k == 'func': return V('func', c=('cached', args[0], None))
    return V('func', c=('ext', 'sa.cachedeco'))
@reg('sa.cachedeco')
def _cdeco(I, name, args, kw, st, node): return V('func', c=('cached', args[0], None))
@reg('functools.cached_property')
def _cprop(I, name, args, kw, st, node): return V('prop', c=_ip.Prop(get=args[0]))
@reg('functools.wraps')
def _wraps(I, name, args, kw, st, node): return V('func', c=('wrapper', None, None))
@reg('abc.abstractmethod', 'typing.final', 'typing.overload', 'functools.singledispatch')
def _ident(I, name, args, kw, st, node): return args[0]
@reg('functools.reduce')
def _freduce(I, name, args, kw, st, node):
    f, x = args[:2]
    its = I.iter_items(st, x)
    if its is None or len(its) > 16: raise Unsupported('reduce')
    its = list(its)
    acc = args[2] if len(args) > 2 else its.pop(0)
    cur = [(acc, st)]
    for v in its: cur = [q for a, s in cur for q in I.call(f, [a, v], {}, s, node)]
    return cur
def mark_cached(I, v, st, node):
    """Result of a memoised function: shared between callers."""
    if v.k == 'tuple' and isinstance(v.c, tuple): return v.r(c=tuple(mark_cached(I, x, st, node) for x in v.c))
    if not v.locs: return v
    nl = []
    for l in v.locs:
        c = I.cell(st, l)
        q = 'tab:cache:' + l
        if c is not None: I.setcell(st, q, c)
        nl.append(q)
    return v.r(locs=frozenset(nl))
@reg('warnings.catch_warnings')
def _cw(I, name, args, kw, st, node): return V('ext', c=('ctx', 'warnings'))
@reg('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings', 'warnings.warn')
def _wf(I, name, args, kw, st, node): return NONE
@reg('contextlib.suppress')
def _sup(I, name, args, kw, st, node): return V('ext', c=('suppress', tuple(args)))
@reg('contextlib.nullcontext')
def _nullc(I, name, args, kw, st, node): return V('ext', c=('null', None))
@reg('contextlib.closing')
def _closing(I, name, args, kw, st, node): return args[0]
@reg('threading.RLock', 'threading.Lock', 'threading.Semaphore', 'threading.Condition', 'threading.BoundedSemaphore')
def _rlock(I, name, args, kw, st, node): return V('ext', c=('RLock' if name.endswith(('RLock', 'Condition')) else 'Lock', I.newloc(node)), t=('lock', I.newloc(node)))
@reg('itertools.chain', 'itertools.product', 'itertools.combinations', 'itertools.islice', 'itertools.count', 'itertools.repeat', 'itertools.cycle', 'itertools.starmap', 'itertools.permutations')
def _itert(I, name, args, kw, st, node):
    n = name.split('.')[1]
    its = [I.iter_items(st, a) for a in args if a.k not in ('num',)]
    if n == 'chain' and all(q is not None for q in its): return V('iter', c=('items', tuple(x for q in its for x in q)))
    import itertools as it
    if n in ('combinations', 'permutations') and its and its[0] is not None and isnumc(args[1]) and len(its[0]) <= 4: return V('iter', c=('items', tuple(V('tuple', c=z) for z in getattr(it, n)(its[0], args[1].c))))
    if n == 'product' and its and all(q is not None for q in its): return V('iter', c=('items', tuple(V('tuple', c=z) for z in it.product(*its))))
    if n in ('combinations', 'permutations') and args[0].k == 'range' and isnumc(args[1]):
        el = iter_abs(I, st, args[0], node)[0](st, 2).r(cur='part')
        els = tuple(el.r(d=opaque(n, i, getattr(node, 'lineno', 0)), t=term(n, i)) for i in range(args[1].c))
        return I.list_(st, node, elem=V('tuple', c=els))
    if n in ('combinations', 'permutations', 'product'):
        es = []
        if n == 'product': src = args
        else: src = [args[0]] * (args[1].c if isnumc(args[1]) else 2)
        for a in src:
            f = iter_abs(I, st, a, node)[0](st, 2); es.append(f)
        return I.list_(st, node, elem=V('tuple', c=tuple(es)))
    if n == 'repeat' and len(args) == 2 and isnumc(args[1]) and args[1].c <= 8: return V('iter', c=('items', (args[0],) * args[1].c))
    return vany(argdeps(I, st, args, kw)[0])
@reg('operator.itemgetter', 'operator.attrgetter', 'operator.methodcaller')
def _opget(I, name, args, kw, st, node): return V('func', c=('ext', 'sa.' + name))

# --- io, codecs, pickle, hash
@reg('io.BytesIO', 'io.StringIO')
def _bio(I, name, args, kw, st, node):
    loc = I.alloc(st, node, Cell('obj', attrs={'data': args[0] if args else vconst(b'')}), 'B')
    return V('ext', c=('bytesio', None), locs=frozenset([loc]), deps=dj(*args), t=term('bytesio', args[0].t) if args else ('bytesio', ('c', b'')))
def bdata(I, st, f):
    r = None
    for l in f.locs:
        c = I.cell(st, l)
        if c is not None and c.attrs and 'data' in c.attrs: r = c.attrs['data'] if r is None else vjoin(r, c.attrs['data'])
    return r if r is not None else V('bytes', deps=f.deps)
def bset(I, st, f, v):
    for l in f.locs:
        c = I.cell(st, l); at = dict(c.attrs); at['data'] = v; I.setcell(st, l, c.r(attrs=at))
INVERSE = {'gzip': 'gunzip', 'zlib': 'unzlib', 'bz2': 'unbz2', 'lzma': 'unlzma', 'b85': 'unb85', 'b64': 'unb64', 'b32': 'unb32', 'b16': 'unb16', 'a85': 'una85', 'b64u': 'unb64u', 'pickle': 'unpickle', 'hex': 'unhex', 'json': 'unjson'}
UNDO = {b: a for a, b in INVERSE.items()}
def layer(I, st, node, how, x, kind, extra=()):
    """Applies a codec layer; decoders cancel the matching encoder and fail on any other known layer."""
    t = None
    if how in UNDO:
        e = UNDO[how]
        if isinstance(x.t, tuple) and x.t:
            top = x.t[0]
            if top == e:
                src = x.t[1]
                if e == 'pickle': return V('any', deps=x.deps, t=src)
                return V('bytes', deps=x.deps, t=src)
            if top in INVERSE or (top in ('enc', 'c') and not (len(x.t) > 1 and isinstance(x.t[1], tuple) and x.t[1][:1] in (('par',), ('elt',)))):
                I.event('wronglayer', node, how=how, value=x)
                I.raise_(st, {'gunzip': 'BadGzipFile', 'unzlib': 'error', 'unpickle': 'UnpicklingError'}.get(how, 'ValueError'), node); return None
        I.may_raise(st, {'gunzip': 'BadGzipFile', 'unzlib': 'error', 'unpickle': 'UnpicklingError'}.get(how, 'ValueError'), node)
    return V(kind, deps=x.deps if x.k in ('str', 'bytes') else argdeps(I, st, [x], {})[0] | x.deps, t=term(how, x.t))
def regcodec(name, how, kind='bytes'):
    def f(I, nm, args, kw, st, node):
        x = args[0] if args else next(iter(kw.values()), vany())
        if x.k == 'str' and how in UNDO and how not in ('unpickle', 'gunzip', 'unzlib'):
            if isinstance(x.t, tuple) and x.t and x.t[0] == 'dec': x = V('bytes', deps=x.deps, t=x.t[1])
        r = layer(I, st, node, how, x, kind)
        return [] if r is None else r
    CALLS[name] = f
for _n, _h in (('gzip.compress', 'gzip'), ('gzip.decompress', 'gunzip'), ('zlib.compress', 'zlib'), ('zlib.decompress', 'unzlib'), ('bz2.compress', 'bz2'), ('bz2.decompress', 'unbz2'), ('lzma.compress', 'lzma'), ('lzma.decompress', 'unlzma'),
               ('base64.b85encode', 'b85'), ('base64.b85decode', 'unb85'), ('base64.b64encode', 'b64'), ('base64.b64decode', 'unb64'), ('base64.standard_b64encode', 'b64'), ('base64.standard_b64decode', 'unb64'), ('base64.b32encode', 'b32'), ('base64.b32decode', 'unb32'), ('base64.b16encode', 'b16'), ('base64.b16decode', 'unb16'), ('base64.a85encode', 'a85'), ('base64.a85decode', 'una85'), ('base64.urlsafe_b64encode', 'b64u'), ('base64.urlsafe_b64decode', 'unb64u'), ('binascii.hexlify', 'hex'), ('binascii.unhexlify', 'unhex')): regcodec(_n, _h)
regcodec('pickle.dumps', 'pickle'); regcodec('pickle.loads', 'unpickle', 'any'); regcodec('json.dumps', 'json', 'str'); regcodec('json.loads', 'unjson', 'any')
@reg('pickle.dump')
def _pdump(I, name, args, kw, st, node):
    x, f = args[:2]
    v = V('bytes', deps=argdeps(I, st, [x], {})[0] | x.deps, t=term('pickle', x.t))
    if f.k == 'ext' and f.c[0] == 'bytesio':
        old = bdata(I, st, f)
        bset(I, st, f, v if old.c == b'' else V('bytes', deps=v.deps | old.deps, t=term('cat', old.t, v.t)))
    return NONE
@reg('pickle.load')
def _pload(I, name, args, kw, st, node):
    f = args[0]
    x = bdata(I, st, f) if f.k == 'ext' and f.c[0] == 'bytesio' else vany(f.deps)
    r = layer(I, st, node, 'unpickle', x, 'any')
    return [] if r is None else r
@reg('pickle.Unpickler', 'pickle.Pickler', 'gzip.GzipFile', 'gzip.open')
def _pk2(I, name, args, kw, st, node):
    return V('ext', c=('stream2', name, tuple(args), tuple(sorted(kw))), deps=dj(*args))
HASHES = ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha3_224', 'sha3_256', 'sha3_384', 'sha3_512', 'blake2b', 'blake2s', 'shake_128', 'shake_256')
def _hash(I, name, args, kw, st, node):
    n = name.split('.')[1]
    a = list(args)
    if n == 'new':
        n = a[0].c if a and a[0].c is not NOC else None; a = a[1:]
        if isinstance(n, str): n = n.lower().replace('-', '_')
    data = a[0] if a else kw.get('data', kw.get('string', vconst(b'')))
    loc = I.alloc(st, node, Cell('obj', attrs={'data': data}), 'H')
    return V('ext', c=('hash', n), locs=frozenset([loc]), deps=data.deps)
for _n in HASHES + ('new',): CALLS['hashlib.' + _n] = _hash
@reg('binascii.crc32', 'zlib.crc32', 'zlib.adler32')
def _crc(I, name, args, kw, st, node): return V('num', dt=DI, deps=dj(*args), t=term(name, args[0].t))

# --- requests
VERBS = ('get', 'head', 'options', 'post', 'put', 'patch', 'delete')
def send(I, st, node, method, url, kw, via):
    I.event('send', node, method=method, url=url, kw=kw, via=via, state=st)
    st.trace = st.trace + ('send',)
    I.may_raise(st, 'RequestException', node, ext='requests.request')
    d = E0
    for v in kw.values(): d = d | v.deps
    return V('ext', c=('response', None), deps=d | url.deps | method.deps, t=('response',))
@reg('requests.request')
def _req(I, name, args, kw, st, node):
    names = ['method', 'url']
    kw = dict(kw)
    for n, a in zip(names, args): kw[n] = a
    if len(args) > 2: raise Unsupported('requests.request arguments')
    m = kw.pop('method', NONE); u = kw.pop('url', NONE)
    return send(I, st, node, m, u, kw, 'request')
def _verb(I, name, args, kw, st, node):
    v = name.split('.')[1]
    kw = dict(kw)
    extra = {'get': ['params'], 'post': ['data', 'json'], 'put': ['data'], 'patch': ['data']}.get(v, [])
    for n, a in zip(['url'] + extra, args): kw[n] = a
    u = kw.pop('url', NONE)
    if v == 'head': kw.setdefault('allow_redirects', vconst(False))
    return send(I, st, node, vconst(v.upper()), u, kw, v)
for _n in VERBS: CALLS['requests.' + _n] = _verb
@reg('requests.Session', 'requests.session', 'requests.sessions.Session')
def _sess(I, name, args, kw, st, node):
    loc = I.alloc(st, node, Cell('obj', attrs={}), 'S')
    return V('ext', c=('session', None), locs=frozenset([loc]), t=('session',))
@reg('sklearn.mixture.GaussianMixture', 'sklearn.mixture.BayesianGaussianMixture')
def _gmm(I, name, args, kw, st, node):
    I.event('gmm', node, args=args, kw=kw)
    d, _ = argdeps(I, st, args, kw)
    loc = I.alloc(st, node, Cell('obj', attrs={'#kw': V('tuple', c=tuple(sorted(kw.items())))} if not args else {}, elem=V('num', dt=DF, deps=d, lin='K')), 'G')
    return V('ext', c=('gmm', name), locs=frozenset([loc]), deps=E0, t=('gmm',))
def gmmleaf(name, key, kw, i): return ('elt', f'{name}|{key}|{kw}', i)
def gmmparams(kw):
    """Text naming the parameters of a mixture model, defaults included, or None."""
    d = {'n_components': 1, 'covariance_type': 'full', 'max_iter': 100, 'reg_covar': 1e-6}
    for n, v in kw:
        if v.c is NOC or v.k not in ('num', 'str', 'bool', 'none'): return None
        d[n] = v.c
    return repr(sorted((n, v + 0.0 if isinstance(v, (int, float)) else v) for n, v in d.items()))
def gmmkey(rows): return repr(sorted(rows))
def gmmfitted(I, st, node, c, x, deps):
    """Parameters of a mixture model as formal values named after its options and the samples it was fitted to."""
    kw = c.attrs.get('#kw') if c.attrs else None
    if not _ip.NORMAL or kw is None or x.k != 'arr' or x.shape is None or len(x.shape) != 2: return None
    its = I.vitems(st, x); kw = kw.c; p = gmmparams(kw); m = dict(kw).get('n_components', vconst(1)).c
    if not its or p is None or not isinstance(m, int) or any(q.t is None for q in its) or x.shape[1] is None or not x.shape[1].const or dict(kw).get('covariance_type', vconst('full')).c != 'full': return None
    n = x.shape[1].const; key = gmmkey([tuple(q.t for q in its[i:i + n]) for i in range(0, len(its), n)])
    out = {'#kw': c.attrs['#kw']}
    for a, sh in (('weights_', (m,)), ('means_', (m, n)), ('precisions_', (m, n, n))):
        w = math.prod(sh)
        if w > _ip.MAXITEMS: return None
        e = [V('num', dt=DF, deps=deps, lin='N', mv='A', t=gmmleaf(a, key, p, i)) for i in range(w)]
        out[a] = I.arr(st, node, e[0].r(t=('gmm', a)), tuple(Dim(d) for d in sh), items=e, dt=DF, tag=a)
    return out
@reg('pathlib.Path', 'pathlib.PurePath')
def _path(I, name, args, kw, st, node): return vany(argdeps(I, st, args, kw)[0])
@reg('sys.exc_info')
def _excinfo(I, name, args, kw, st, node):
    return V('tuple', c=(vany(), vany(), vany()))
@reg('urllib.parse.urljoin')
def _urljoin(I, name, args, kw, st, node):
    if all(a.c is not NOC for a in args):
        from urllib.parse import urljoin
        return vconst(urljoin(*[a.c for a in args]))
    return vstr(dj(*args), term('urljoin', *[a.t for a in args]))
@reg('urllib.parse.quote')
def _quote(I, name, args, kw, st, node):
    if args[0].c is not NOC:
        from urllib.parse import quote
        return vconst(quote(args[0].c))
    return vstr(dj(*args))
@reg('os.path.join', 'posixpath.join')
def _pjoin(I, name, args, kw, st, node):
    if all(a.c is not NOC for a in args):
        import posixpath
        return vconst(posixpath.join(*[a.c for a in args]))
    return vstr(dj(*args))

from .meth import method, list_extend
