"""Abstract domain: symbolic affine dimensions, intervals, element kinds, homogeneity, value product."""
from fractions import Fraction

class _Noc:
    def __repr__(self): return 'NOC'
NOC = _Noc()
E0 = frozenset()
INF = float('inf')

# ------------------------------------------------------------------ symbolic affine dimensions
ATOM_MIN = {}          # atom name -> minimum (integer)

class Dim:
    """Affine integer expression  c + sum( k * atom ).  Atoms: names, ( 'fdiv', Dim, int ), ( 'op', ... )."""
    __slots__ = ('c', 'm', '_h')
    def __init__(self, c=0, m=()):
        self.c = c; self.m = tuple(sorted(((a, k) for a, k in dict(m).items() if k), key=repr)) if not isinstance(m, tuple) else m
        self._h = hash((self.c, self.m))
    def __eq__(self, o): return isinstance(o, Dim) and self.c == o.c and self.m == o.m
    def __hash__(self): return self._h
    def __repr__(self):
        s = '+'.join((f'{k}*' if k != 1 else '') + (a if isinstance(a, str) else _arepr(a)) for a, k in self.m)
        if not s: return str(self.c)
        return s + (f'{self.c:+d}' if self.c else '')
    @property
    def const(self): return self.c if not self.m else None
    def add(self, o, f=1):
        m = dict(self.m)
        for a, k in o.m: m[a] = m.get(a, 0) + f * k
        return Dim(self.c + f * o.c, m)
    def sub(self, o): return self.add(o, -1)
    def scale(self, k):
        return Dim(self.c * k, {a: b * k for a, b in self.m}) if k else Dim(0)
    def mul(self, o):
        if o.const is not None: return self.scale(o.const)
        if self.const is not None: return o.scale(self.const)
        return Dim(0, {('op', '*', *sorted((self, o), key=repr)): 1})
    def fdiv(self, k):
        if k == 1: return self
        if k > 0:
            if all(b % k == 0 for _, b in self.m): return Dim(self.c // k, {a: b // k for a, b in self.m})
            q = Dim(0, {a: b // k for a, b in self.m if b % k == 0})
            r = Dim(self.c % k, {a: b for a, b in self.m if b % k})
            return q.add(Dim(self.c // k)).add(Dim(0, {('fdiv', r, k): 1}))
        return Dim(0, {('op', '//', self, k): 1})
    def mod(self, k):
        if k > 0 and all(b % k == 0 for _, b in self.m): return Dim(self.c % k)
        return None
    def low(self, depth=0):
        """Proven lower bound or None."""
        tot = Fraction(self.c)
        work = self
        m = dict(self.m)
        # replace floor-division atoms by rational bounds
        acc = {}
        for a, k in m.items():
            if isinstance(a, tuple) and a[0] == 'fdiv' and depth < 6:
                d, c = a[1], a[2]
                if k > 0:
                    tot += Fraction(k * (d.c - c + 1), c)
                else:
                    tot += Fraction(k * d.c, c)
                for b, kk in d.m: acc[b] = acc.get(b, Fraction(0)) + Fraction(k * kk, c)
            else:
                acc[a] = acc.get(a, Fraction(0)) + k
        best = None
        if acc is not m:
            r = _lowm(acc, tot)
            if r is not None: best = r
        r = _lowm({a: Fraction(k) for a, k in m.items()}, Fraction(self.c))
        if r is not None and (best is None or r > best): best = r
        if best is None: return None
        return -((-best.numerator) // best.denominator)   # integers: round up

def _arepr(a):
    if a[0] == 'fdiv': return f'({a[1]!r}//{a[2]})'
    return '(' + ' '.join(map(repr, a)) + ')'

def amin(a):
    if a in ATOM_MIN: return ATOM_MIN[a]
    if isinstance(a, tuple):
        if a[0] == 'fdiv':
            l = a[1].low()
            return l // a[2] if l is not None else None
        if a[0] == 'nn': return 0
        if a[0] == 'op' and a[1] == '*':
            l = [x.low() for x in a[2:]]
            if all(v is not None and v >= 0 for v in l):
                r = 1
                for v in l: r *= v
                return r
    return None

def _lowm(acc, tot):
    for a, k in acc.items():
        if not k: continue
        if k < 0: return None
        mn = amin(a)
        if mn is None: return None
        tot += k * mn
    return tot

def D(n): return n if isinstance(n, Dim) else Dim(n)
def atom(name, mn=0):
    ATOM_MIN[name] = mn
    return Dim(0, {name: 1})
def opaque(*key):
    return Dim(0, {('nn',) + key: 1})

def dcmp(a, b):
    """-1, 0, 1 if a < b, a == b, a > b is proven; 'le' / 'ge' if only that is proven; None otherwise."""
    if a is None or b is None: return None
    d = b.sub(a)
    if d.const is not None: return (0 if d.const == 0 else (-1 if d.const > 0 else 1))
    l = d.low()
    if l is not None and l >= 1: return -1
    h = a.sub(b).low()
    if h is not None and h >= 1: return 1
    if l is not None and l >= 0: return 'le'
    if h is not None and h >= 0: return 'ge'
    return None

# ------------------------------------------------------------------ intervals ( lo, lo_closed, hi, hi_closed )
def ivpoint(v): return (v, True, v, True)
IVTOP = (-INF, False, INF, False)
def ivjoin(a, b):
    if a is None or b is None: return None
    if a[0] < b[0]: lo = (a[0], a[1])
    elif b[0] < a[0]: lo = (b[0], b[1])
    else: lo = (a[0], a[1] or b[1])
    if a[2] > b[2]: hi = (a[2], a[3])
    elif b[2] > a[2]: hi = (b[2], b[3])
    else: hi = (a[2], a[3] or b[3])
    return lo + hi
def ivcmp(op, a, b):
    """True / False / None for  a op b."""
    if a is None or b is None: return None
    lt = a[2] < b[0] or (a[2] == b[0] and not (a[3] and b[1]))
    gt = a[0] > b[2] or (a[0] == b[2] and not (a[1] and b[3]))
    le = a[2] <= b[0]
    ge = a[0] >= b[2]
    if a[2] == INF and b[0] == INF: le = le and True
    if op == '<':
        if lt: return True
        if ge: return False
    elif op == '<=':
        if le: return True
        if gt: return False
    elif op == '>':
        if gt: return True
        if le: return False
    elif op == '>=':
        if ge: return True
        if lt: return False
    elif op == '==':
        if lt or gt: return False
        if a[0] == a[2] == b[0] == b[2]: return True
    elif op == '!=':
        if lt or gt: return True
        if a[0] == a[2] == b[0] == b[2]: return False
    return None
def _safe(f):
    def g(*a):
        try:
            r = f(*a)
        except (OverflowError, ValueError, ZeroDivisionError): return None
        if r is None or any(isinstance(x, float) and x != x for x in (r[0], r[2])): return None
        return r
    return g
@_safe
def ivadd(a, b):
    if a is None or b is None: return None
    return (a[0] + b[0], a[1] and b[1], a[2] + b[2], a[3] and b[3])
def ivneg(a): return None if a is None else (-a[2], a[3], -a[0], a[1])
def ivsub(a, b): return ivadd(a, ivneg(b))
@_safe
def ivmul(a, b):
    if a is None or b is None: return None
    def pr(x, xc, y, yc):
        if x == 0 and abs(y) == INF or y == 0 and abs(x) == INF: return (0.0, xc and yc)
        if (x == 0 and xc) or (y == 0 and yc): return (0 * 1, True)
        return (x * y, xc and yc)
    ps = [pr(a[i], a[i + 1], b[j], b[j + 1]) for i in (0, 2) for j in (0, 2)]
    lo = min(p[0] for p in ps); hi = max(p[0] for p in ps)
    return (lo, any(p[1] for p in ps if p[0] == lo), hi, any(p[1] for p in ps if p[0] == hi))
def ivabs(a):
    if a is None: return (0.0, True, INF, False)
    if a[0] >= 0: return a
    if a[2] <= 0: return ivneg(a)
    n = ivneg(a)
    return (0.0, True) + ((a[2], a[3]) if a[2] > n[2] else (n[2], n[3]) if n[2] > a[2] else (a[2], a[3] or n[3]))
@_safe
def ivdiv(a, b):
    if a is None or b is None: return None
    if b[0] > 0 or (b[0] == 0 and not b[1]):
        if a[0] >= 0: # non-negative quotient, coarse
            hi = INF if b[0] == 0 or a[2] == INF else a[2] / b[0]
            lo = 0.0 if b[2] == INF else a[0] / b[2]
            return (lo, a[1] and (b[3] or a[0] == 0), hi, hi != INF and a[3] and b[1])
        if b[0] == b[2]: return (a[0] / b[0], a[1], a[2] / b[0], a[3])
    elif b[2] < 0 and b[0] == b[2]:
        return ivneg((a[0] / -b[0], a[1], a[2] / -b[0], a[3]))
    return None

# ------------------------------------------------------------------ element kinds
RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'o': 4}
DK = 'bifco'
def dset(s): return frozenset(s)
DB, DI, DF, DC = dset('b'), dset('i'), dset('f'), dset('c')
def promote(*ds):
    out = None
    for d in ds:
        if d is None: return None
        if out is None: out = d
        else: out = frozenset(DK[max(RANK[a], RANK[b])] for a in out for b in d)
    return out
def atleast(d, k):
    return None if d is None else frozenset(x if RANK[x] >= RANK[k] else k for x in d)
def dmax(d): return max(RANK[x] for x in d) if d else None
def dmin(d): return min(RANK[x] for x in d) if d else None

# ------------------------------------------------------------------ homogeneity in the signal
# 'Z' zero, 'K' independent of signal, 'L' linear, ('A', n) absolutely homogeneous degree n, 'N' positively not, 'U' unknown
def ljoin(a, b):
    if a == b: return a
    s = {a, b}
    if 'N' in s: return 'N'
    if 'U' in s: return 'U'
    if 'Z' in s: return (s - {'Z'}).pop()
    return 'N'
def ladd(a, b):
    if a == 'Z': return b
    if b == 'Z': return a
    if a == b: return a
    return 'N' if 'N' in (a, b) or 'U' not in (a, b) else 'U'
def deg(a): return {'K': 0, 'L': 1}.get(a, a[1] if isinstance(a, tuple) else None)
def lmul(a, b):
    if 'Z' in (a, b): return 'Z'
    if a == 'K': return b
    if b == 'K': return a
    if 'U' in (a, b): return 'U'
    if 'N' in (a, b): return 'N'
    return ('A', deg(a) + deg(b))
def ldiv(a, b):
    if a == 'Z': return 'Z'
    if b == 'K': return a
    if 'U' in (a, b) or b == 'Z': return 'U'
    if 'N' in (a, b): return 'N'
    d = deg(a) - deg(b)
    return 'K' if False else ('A', d)
def lnon(a):
    """Result of a positively non-linear scalar function."""
    if a in ('Z', 'K'): return 'K'
    return 'U' if a == 'U' else 'N'
def labs(a):
    if a in ('Z', 'K'): return a
    if a in ('U', 'N'): return a
    return ('A', deg(a))
def lunk(ls):
    return 'K' if all(l in ('Z', 'K') for l in ls) else 'U'

# ------------------------------------------------------------------ moved-only provenance: frozenset of sources | 'A' | None
def mjoin(a, b):
    if a == b: return a
    if a is None or b is None: return None
    if a == 'A' or b == 'A': return 'A'
    return a | b

# ------------------------------------------------------------------ values
class V:
    __slots__ = ('k', 'c', 'dt', 'shape', 'locs', 'iv', 'deps', 'lin', 'mv', 't', 'd', 'cur', '_h')
    def __init__(s, k, c=NOC, dt=None, shape=None, locs=E0, iv=None, deps=E0, lin='K', mv=None, t=None, d=None, cur=None):
        s.k = k; s.c = c; s.dt = dt; s.shape = shape; s.locs = locs; s.iv = iv; s.deps = deps; s.lin = lin; s.mv = mv; s.t = t; s.d = d; s.cur = cur
        s._h = None
    def key(s):
        return (s.k, s.c, s.dt, s.shape, s.locs, s.iv, s.deps, s.lin, s.mv, s.t, s.d, s.cur)
    def __eq__(s, o):
        if s is o: return True
        if not isinstance(o, V): return False
        try: return s.key() == o.key() and type(s.c) is type(o.c)
        except Exception: return False
    def __hash__(s):
        if s._h is None:
            try: s._h = hash((s.k, s.dt, s.shape, s.locs, s.deps, s.lin, s.d))
            except TypeError: s._h = hash(s.k)
        return s._h
    def r(s, **kw):
        n = V(s.k, s.c, s.dt, s.shape, s.locs, s.iv, s.deps, s.lin, s.mv, s.t, s.d, s.cur)
        for a, b in kw.items(): setattr(n, a, b)
        return n
    def dep(s, deps):
        return s if deps <= s.deps else s.r(deps=s.deps | deps)
    def __repr__(s):
        o = [s.k]
        if s.c is not NOC: o.append(repr(s.c)[:60])
        if s.dt is not None: o.append('dt=' + ''.join(sorted(s.dt)))
        if s.shape is not None: o.append(f'sh={s.shape}')
        if s.locs: o.append('@' + ','.join(map(str, s.locs)))
        if s.iv: o.append(f'iv={s.iv}')
        if s.deps: o.append('deps={' + ','.join(sorted(map(str, s.deps))) + '}')
        if s.lin != 'K': o.append(f'lin={s.lin}')
        if s.t is not None: o.append(f't={s.t}'[:100])
        if s.d is not None: o.append(f'd={s.d}')
        return '<' + ' '.join(o) + '>'

def vjoin(a, b):
    if a == b: return a
    k = a.k if a.k == b.k else 'any'
    if {a.k, b.k} == {'num', 'bool'}: k = 'num'
    c = a.c if _ceq(a.c, b.c) else NOC
    if k in ('tuple',) and c is NOC and isinstance(a.c, tuple) and isinstance(b.c, tuple) and len(a.c) == len(b.c):
        c = tuple(vjoin(x, y) for x, y in zip(a.c, b.c))
    dt = None if a.dt is None or b.dt is None else a.dt | b.dt
    sh = None
    if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
        sh = tuple(x if x == y else None for x, y in zip(a.shape, b.shape))
    return V(k, c, dt, sh, a.locs | b.locs, ivjoin(a.iv, b.iv), a.deps | b.deps, ljoin(a.lin, b.lin), mjoin(a.mv, b.mv),
             a.t if a.t == b.t else None, a.d if a.d == b.d else None, a.cur if a.cur == b.cur else None)

def _ceq(x, y):
    if x is y: return True
    if type(x) is not type(y): return False
    try: return x == y
    except Exception: return False

def vwiden(a, b):
    """Join with interval widening; a is the older value."""
    j = vjoin(a, b)
    if a.iv is not None and j.iv is not None and j.iv != a.iv:
        lo = (a.iv[0], a.iv[1]) if j.iv[0] == a.iv[0] and j.iv[1] == a.iv[1] else ((0.0, True) if j.iv[0] >= 0 else (-INF, False))
        hi = (a.iv[2], a.iv[3]) if j.iv[2] == a.iv[2] and j.iv[3] == a.iv[3] else (INF, False)
        j = j.r(iv=lo + hi)
    return j
