"""Canonical forms of value terms: polynomials with numeric coefficients over opaque atoms."""
import math, cmath
from .dom import NOC

class NoForm(Exception): pass
LIMIT = 4000
def const(x): return {(): x} if x != 0 else {}
def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + f * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def pmul(a, b):
    if len(a) * len(b) > LIMIT: raise NoForm('size')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = dict(m)
            for x, e in n:
                k[x] = k.get(x, 0) + e
                if not k[x]: del k[x]
            k = tuple(sorted(k.items(), key=repr))
            v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    return r
def pconst(p):
    if not p: return 0
    return p[()] if len(p) == 1 and () in p else None
def key(p): return tuple(sorted(((m, _rnd(c)) for m, c in p.items()), key=repr))
def _rnd(c):
    if isinstance(c, complex):
        if c.imag == 0: c = c.real
        else: return complex(_rnd(c.real), _rnd(c.imag))
    if c == int(c) if abs(c) < 1e15 and c == c else False: return int(c)
    return float(f'{c:.12g}')
def mono(a): return {((a, 1),): 1}
def pinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted(((x, -e) for x, e in m), key=repr)): 1 / c}
    if not p: raise NoForm('division by zero')
    # scale to a canonical leading coefficient
    k = sorted(p.items(), key=repr)[0][1]
    return {((('poly', key({m: c / k for m, c in p.items()})), -1),): 1 / k}
def ppow(p, n):
    if n < 0: return ppow(pinv(p), -n)
    r = const(1)
    for _ in range(n): r = pmul(r, p)
    return r

def shallow(t):
    if t[0] == 'c' and isinstance(t[1], (int, float, complex)) and (t[1] == t[1] and abs(t[1]) != math.inf): return const(int(t[1]) if isinstance(t[1], bool) else t[1])
    if t[0] == 'poly': return dict(t[1])
    return mono(t)
def rebuild(p):
    c = pconst(p)
    if c is not None: return ('c', _rnd(c))
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return ('poly', tuple(sorted(p.items(), key=repr)))
def fold(op, *a):
    """Canonical term of an arithmetic operation on canonical terms, or None."""
    if not all(isinstance(x, tuple) and x for x in a): return None
    try:
        if op == 'add' and len(a) == 2: p = padd(shallow(a[0]), shallow(a[1]))
        elif op == 'sub' and len(a) == 2: p = padd(shallow(a[0]), shallow(a[1]), -1)
        elif op == 'mul' and len(a) == 2: p = pmul(shallow(a[0]), shallow(a[1]))
        elif op in ('neg', 'negative') and len(a) == 1: p = padd({}, shallow(a[0]), -1)
        elif op in ('div', 'truediv') and len(a) == 2:
            q = shallow(a[1])
            if len(q) != 1: return None
            p = pmul(shallow(a[0]), pinv(q))
        elif op == 'square' and len(a) == 1: p = pmul(shallow(a[0]), shallow(a[0]))
        elif op in ('pow', 'power') and len(a) == 2 and a[1][0] == 'c' and a[1][1] in (1, 2, 3): p = ppow(shallow(a[0]), int(a[1][1]))
        elif op in ('conj', 'conjugate', 'real') and len(a) == 1:
            q = shallow(a[0])
            if not all(isreal(x) for x in atoms(q)): return None
            p = {m: (complex(c).conjugate() if op != 'real' else complex(c).real) for m, c in q.items()}
        elif op == 'imag' and len(a) == 1:
            q = shallow(a[0])
            if not all(isreal(x) for x in atoms(q)): return None
            p = {m: complex(c).imag for m, c in q.items()}
        elif op in IDENT and len(a) == 1: return a[0]
        else: return None
        p = {m: c for m, c in p.items() if c != 0}
        if len(p) > 200: return None
        return rebuild(p)
    except (NoForm, ZeroDivisionError, OverflowError): return None
REAL = set()
def isreal(a): return isinstance(a, tuple) and a and (a[0] in ('abs', 'absolute', 'real', 'imag', 'hypot') or a[0] in ('elt', 'par') and a[1] in REAL)
IDENT = {'float', 'complex', 'array', 'copy', 'asarray', 'item', 'astype', 'pos', 'positive'}
def norm(t, sub=None, leaf=None):
    """Polynomial of a term.  sub: term -> term substitution applied at the leaves; leaf: term -> polynomial or None."""
    if t is None: raise NoForm('no term')
    if leaf is not None:
        r = leaf(t)
        if r is not None: return r
    if sub is not None and t in sub: t = sub[t]
    if not isinstance(t, tuple) or not t: return mono(t)
    h = t[0]
    if h == 'c':
        if isinstance(t[1], (int, float, complex)) and not isinstance(t[1], bool):
            if t[1] != t[1] or abs(t[1]) == math.inf: return mono(t)
            return const(t[1])
        if isinstance(t[1], bool): return const(int(t[1]))
        return mono(t)
    if h == 'poly':
        r = {}
        for m, c in t[1]:
            q = const(c)
            for a, e in m: q = pmul(q, ppow(norm(a, sub, leaf), e))
            r = padd(r, q)
        return r
    if h in IDENT and len(t) == 2: return norm(t[1], sub, leaf)
    N = lambda x: norm(x, sub, leaf)
    if h == 'add' and len(t) >= 3:
        r = N(t[1])
        for x in t[2:]: r = padd(r, N(x))
        return r
    if h == 'sub' and len(t) == 3: return padd(N(t[1]), N(t[2]), -1)
    if h == 'mul' and len(t) >= 3:
        r = N(t[1])
        for x in t[2:]: r = pmul(r, N(x))
        return r
    if h in ('div', 'truediv') and len(t) == 3: return pmul(N(t[1]), pinv(N(t[2])))
    if h in ('neg', 'negative') and len(t) == 2: return padd({}, N(t[1]), -1)
    if h in ('square',) and len(t) == 2: p = N(t[1]); return pmul(p, p)
    if h == 'reciprocal' and len(t) == 2: return pinv(N(t[1]))
    if h in ('pow', 'power') and len(t) == 3:
        e = pconst(N(t[2]))
        if e is not None and not isinstance(e, complex) and e == int(e) and abs(e) <= 8: return ppow(N(t[1]), int(e))
        if e == 0.5: return mono(('fn', 'sqrt', key(N(t[1]))))
    if h == 'round' or h in ('kw',): pass
    if len(t) >= 2 and isinstance(h, str) and h not in ('par', 'elt', 'cursor'):
        args = []
        for x in t[1:]:
            if isinstance(x, tuple):
                try: args.append(key(N(x)))
                except NoForm: args.append(x)
            else: args.append(x)
        if h in FOLD and len(args) == 1:
            c = pconst(N(t[1]))
            if c is not None:
                try: return const(FOLD[h](c))
                except Exception: pass
        return mono(('fn', h) + tuple(args))
    return mono(t)
def _f(f, g): return lambda c: g(c) if isinstance(c, complex) else f(c)
FOLD = {'cos': _f(math.cos, cmath.cos), 'sin': _f(math.sin, cmath.sin), 'exp': _f(math.exp, cmath.exp), 'sqrt': _f(math.sqrt, cmath.sqrt), 'abs': abs, 'absolute': abs, 'log': _f(math.log, cmath.log)}

def equal(p, q, tol=1e-9):
    """Coefficientwise equality up to a relative tolerance."""
    s = max([abs(c) for c in p.values()] + [abs(c) for c in q.values()] + [1e-300])
    for m in set(p) | set(q):
        if abs(p.get(m, 0) - q.get(m, 0)) > tol * s: return False
    return True
def show(p, n=4):
    out = []
    for m, c in sorted(p.items(), key=repr)[:n]: out.append(f'{c:.6g}' + ''.join('*' + atomname(a) + (f'^{e}' if e != 1 else '') for a, e in m) if not isinstance(c, complex) else str(c) + ''.join('*' + atomname(a) for a, e in m))
    return ' + '.join(out) + (' + …' if len(p) > n else '') if out else '0'
def atomname(a):
    if isinstance(a, tuple) and a and a[0] == 'elt': return f'{a[1]}[{",".join(map(str, a[2:]))}]' if len(a) > 2 else f'{a[1]}[·]'
    if isinstance(a, tuple) and a and a[0] == 'par': return a[1]
    if isinstance(a, tuple) and a and a[0] == 'fn': return f'{a[1]}(…)'
    return str(a)[:30]
def atoms(p): return {a for m in p for a, _ in m}

# ------------------------------------------------------------------ identity test of two terms by evaluation at fixed points
def zeros(c):
    from .ext import zeros_of
    r = zeros_of(c)
    if r is None: raise NoForm('roots')
    return r
DIVNAN = False  # a division by zero is not a number, as in array arithmetic
def evaluate(t, env):
    """Number denoted by an exact term at a point; raises NoForm when a construct has no closed form here."""
    if t is None: raise NoForm('no term')
    if not isinstance(t, tuple) or not t: raise NoForm(repr(t))
    if t in env: return env[t]
    h = t[0]
    if h == 'c':
        if isinstance(t[1], (int, float, complex)): return t[1]
        raise NoForm('constant')
    E = lambda x: evaluate(x, env)
    try:
        if h == 'poly':
            r = 0
            for m, c in t[1]:
                for a, e in m:
                    q = E(a)
                    c = math.nan if DIVNAN and q == 0 and not isinstance(e, complex) and e < 0 else c * q ** e
                r = r + c
            return r
        if h in IDENT and len(t) == 2: return E(t[1])
        if h == 'add': return sum(E(x) for x in t[1:])
        if h == 'sub' and len(t) == 3: return E(t[1]) - E(t[2])
        if h == 'mul':
            r = 1
            for x in t[1:]: r = r * E(x)
            return r
        if h in ('div', 'truediv') and len(t) == 3:
            a, b = E(t[1]), E(t[2])
            return math.nan if DIVNAN and b == 0 else a / b
        if h in ('neg', 'negative') and len(t) == 2: return -E(t[1])
        if h in ('pow', 'power') and len(t) == 3: return E(t[1]) ** E(t[2])
        if h == 'square' and len(t) == 2: return E(t[1]) ** 2
        if h == 'reciprocal' and len(t) == 2:
            b = E(t[1])
            return math.nan if DIVNAN and b == 0 else 1 / b
        if h in ('conj', 'conjugate') and len(t) == 2: return complex(E(t[1])).conjugate()
        if h == 'real' and len(t) == 2: return complex(E(t[1])).real
        if h == 'imag' and len(t) == 2: return complex(E(t[1])).imag
        if h == 'fn' and len(t) >= 2: return E(t[1:])
        if h == 'argsort' and len(t) == 3:
            ks = [_r(E(x)) for x in t[2]]
            return sorted(range(len(ks)), key=lambda i: ks[i])[t[1]]
        if h == 'roots' and len(t) > 3:
            z = zeros([E(x) for x in t[2:]])
            if t[1] >= len(z) or len(z) != len(t) - 3: raise NoForm('roots')
            return z[t[1]]
        if h == 'residue' and len(t) > 5:
            c = [E(x) for x in t[4:]]; u, v = c[:t[3]], c[t[3]:]
            z = sorted(zeros(v), key=abs)
            if t[2] >= len(z) or len(z) != len(v) - 1: raise NoForm('roots')
            if t[1] == 'p': return z[t[2]]
            q = v[0]
            for i, w in enumerate(z):
                if i != t[2]:
                    if abs(z[t[2]] - w) < 1e-6: raise NoForm('repeated poles')
                    q = q * (z[t[2]] - w)
            r = 0
            for x in u: r = r * z[t[2]] + x
            return r / q
        if h == 'pick' and len(t) == 3: return E(t[2][E(t[1])])
        if h == 'inv' and len(t) == 3 + t[2] ** 2:
            from .ext import inverse
            r = inverse([E(x) for x in t[3:]], t[2])
            if r is None: raise NoForm('singular matrix')
            return r[t[1]]
        if h in STAT and len(t) >= 2: return STAT[h]([E(x) for x in t[1:]])
        if h in CMP and len(t) == 3: return CMP[h](E(t[1]), E(t[2]))
        if h in ('some', 'every'): return float((any if h == 'some' else all)([bool(E(x)) for x in t[1:]]))
        if h == 'isclose' and len(t) == 3:
            a, b = E(t[1]), E(t[2])
            return a == b or abs(a - b) <= 1e-8 + 1e-5 * abs(b)
        if h == 'closeto' and len(t) == 6:
            a, b, rt, at, sym = map(E, t[1:])
            d, tol = abs(a - b), max(at, rt * max(abs(a), abs(b))) if sym else at + rt * abs(b)
            if a == b or d < 0.67 * tol: return True
            if d > 1.5 * tol: return False
            raise NoForm('closeness')
        if h == 'near' and len(t) == 3:
            a, b = E(t[1]), E(t[2])
            if a == b: return True
            if abs(a - b) > 1e-3 * (1 + abs(b)): return False
            raise NoForm('closeness')
        if h == 'rounded' and len(t) == 3:
            v, n = E(t[1]), int(E(t[2]))
            return complex(round(v.real, n), round(v.imag, n)) if isinstance(v, complex) else round(v, n)
        if h == 'fmod' and len(t) == 3: return math.fmod(_r(E(t[1])), _r(E(t[2])))
        if h in ('mod', 'remainder') and len(t) == 3: return _r(E(t[1])) % _r(E(t[2]))
        if h == 'not' and len(t) == 2: return not E(t[1])
        if h in ('and', 'band', 'logical_and') and len(t) == 3: return bool(E(t[1])) and bool(E(t[2]))
        if h in ('or', 'bor', 'logical_or') and len(t) == 3: return bool(E(t[1])) or bool(E(t[2]))
        if h in ('atan2', 'arctan2') and len(t) == 3: return math.atan2(_r(E(t[1])), _r(E(t[2])))
        if h == 'copysign' and len(t) == 3: return math.copysign(_r(E(t[1])), _r(E(t[2])))
        if h == 'fdiv' and len(t) == 3: return _r(E(t[1])) // _r(E(t[2]))
        if h == 'clip' and len(t) == 4: return min(max(_r(E(t[1])), _r(E(t[2]))), _r(E(t[3])))
        if h == 'where' and len(t) == 4: return E(t[2]) if E(t[1]) else E(t[3])
        if h in FOLD2 and len(t) == 2: return FOLD2[h](E(t[1]))
    except (ZeroDivisionError, OverflowError, ValueError, TypeError) as e: raise NoForm(str(e))
    raise NoForm(str(h))
CMP = {'Lt': lambda a, b: _r(a) < _r(b), 'LtE': lambda a, b: _r(a) <= _r(b), 'Gt': lambda a, b: _r(a) > _r(b), 'GtE': lambda a, b: _r(a) >= _r(b), 'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b}
def _median(a):
    a = sorted(map(_r, a)); n = len(a)
    return a[n // 2] if n % 2 else (a[n // 2 - 1] + a[n // 2]) / 2
def _var(a):
    m = sum(a) / len(a)
    return sum(abs(x - m) ** 2 for x in a) / len(a)
STAT = {'median': _median, 'var': _var, 'std': lambda a: math.sqrt(_var(a)), 'max': lambda a: max(map(_r, a)), 'min': lambda a: min(map(_r, a)), 'maximum': lambda a: max(map(_r, a)), 'minimum': lambda a: min(map(_r, a)), 'hypot': lambda a: math.hypot(*map(_r, a))}
def _r(x):
    if isinstance(x, complex):
        if x.imag: raise TypeError('order of complex values')
        return x.real
    return x
FOLD2 = dict(FOLD)
FOLD2.update({'tan': _f(math.tan, cmath.tan), 'sinh': _f(math.sinh, cmath.sinh), 'cosh': _f(math.cosh, cmath.cosh), 'tanh': _f(math.tanh, cmath.tanh), 'log2': math.log2, 'log10': math.log10, 'floor': math.floor, 'ceil': math.ceil, 'sign': lambda x: (x > 0) - (x < 0), 'angle': lambda x: cmath.phase(x), 'phase': lambda x: cmath.phase(x)})
def _sinc(x): return math.sin(math.pi * x) / (math.pi * x) if x else 1.0
def _real(f): return lambda x: f(_r(x))
FOLD2.update({k: _real(f) for k, f in {'int': int, 'trunc': math.trunc, 'fix': math.trunc, 'rint': round, 'floor': math.floor, 'ceil': math.ceil, 'expm1': math.expm1, 'log1p': math.log1p, 'exp2': lambda x: 2.0 ** x, 'sinc': _sinc,
    'deg2rad': math.radians, 'radians': math.radians, 'rad2deg': math.degrees, 'degrees': math.degrees, 'cbrt': math.cbrt if hasattr(math, 'cbrt') else lambda x: math.copysign(abs(x) ** (1 / 3), x), 'gamma': math.gamma, 'lgamma': math.lgamma, 'erf': math.erf,
    **{n: getattr(math, n) for n in ('atan', 'asin', 'acos', 'asinh', 'acosh', 'atanh')}, **{'arc' + n[1:]: getattr(math, n) for n in ('atan', 'asin', 'acos', 'asinh', 'acosh', 'atanh')}}.items()})
FOLD2.update({'nan_to_num': lambda x: x, 'logical_not': lambda x: not x, 'isreal': lambda x: not isinstance(x, complex) or not x.imag, 'iscomplex': lambda x: isinstance(x, complex) and bool(x.imag), 'round': lambda x: round(_r(x)), 'real_if_close': lambda x: x})
def leaves(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple) and t:
        if t[0] in ('par', 'elt'): out.add(t)
        elif t[0] == 'poly':
            for m, _ in t[1]:
                for a, _ in m: leaves(a, out)
        elif t[0] != 'c':
            for x in (t[1:] if isinstance(t[0], str) else t): leaves(x, out)
    return out
