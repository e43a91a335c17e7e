"""Development aid: the abstract results of library calls ( transfer functions ) against the values the library gives.
usage: xval.py SNIPPETS [ VERBOSE ].  Each line of the file is an expression over the formal arguments below, or "statements ;; expression".
No check uses this; it tests the interpreter, not the package."""
import ast, json, math, os, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
HEAD = 'import cmath\nimport functools\nimport itertools\nimport math\nimport operator\nimport numpy\nimport numpy as np\nimport scipy.signal\nimport scipy.linalg\nimport warnings\nimport copy\n'
R = random.Random(5)
def num(): return round(R.uniform(-2, 2), 4)
VALS = dict(x=[num() for _ in range(4)], w=[num() for _ in range(4)], z=[complex(num(), num()) for _ in range(3)], m=[[num() for _ in range(3)] for _ in range(2)], q=[[num() for _ in range(2)] for _ in range(2)], f=0.7321, g=-1.337, c=complex(0.3, -0.8), l=[num() for _ in range(3)], i=[3, -1, 2, 7], k=2, n=5, s='Hann', t=True)
def main():
    lines = [l.strip() for l in open(sys.argv[1]) if l.strip() and not l.startswith('#')]
    verbose = len(sys.argv) > 2
    src = HEAD + 'class Probe(object):\n'
    for j, l in enumerate(lines):
        body, _, e = l.rpartition(';;')
        src += f'    @staticmethod\n    def p{j}({", ".join(VALS)}):\n' + ''.join('        ' + b.replace('\\n', '\n        ') + '\n' for b in filter(None, [body.strip()])) + f'        return {e.strip()}\n'
    ast.parse(src)
    tmp = tempfile.mkdtemp()
    try:
        os.mkdir(tmp + '/diamondback'); open(tmp + '/diamondback/__init__.py', 'w').close(); open(tmp + '/diamondback/probe.py', 'w').write(src)
        open(tmp + '/vals.json', 'w').write(repr(VALS)); real = concrete(tmp, len(lines))
        from sa import core, poly
        bad = 0; imp = []
        for normal in (True, False):
            core.ip.NORMAL = normal; core.ip.MAXITEMS = 64; core.ip.SPLIT = 16 if normal else 0
            ctx = core.Ctx(tmp, 'X')
            for j, l in enumerate(lines):
                for mode in ('items', 'sym') if not normal else ('items', 'const'):
                    r = judge(ctx, poly, j, real[j], mode)
                    if r is None: continue
                    if r.startswith('?'):
                        if mode == 'items' and normal or 'Error' in r: imp.append(f'{l}   [{mode}{normal:d}] {r}')
                    else: bad += 1; print(f'MISMATCH [{mode} {normal:d}] {l}\n     {r}')
        if verbose:
            for l in imp: print('imprecise', l)
        print(len(lines), 'snippets', bad, 'mismatches', len(imp), 'imprecise')
    finally: shutil.rmtree(tmp)
def concrete(tmp, n):
    prog = f'''
import sys, json
sys.path.insert(0, {tmp!r})
import numpy, warnings
warnings.simplefilter('ignore')
from diamondback.probe import Probe
V = eval(open({tmp!r} + '/vals.json').read())
def ser(v):
    if isinstance(v, numpy.ndarray):
        return ['arr', v.dtype.kind, list(v.shape), [ser(q) for q in v.ravel().tolist()]]
    if isinstance(v, numpy.generic): return ser(v.item())
    if isinstance(v, bool): return ['bool', v]
    if isinstance(v, (int, float, complex)): return ['num', repr(v), type(v).__name__]
    if isinstance(v, str): return ['str', v]
    if v is None: return ['none']
    if isinstance(v, (list, tuple)): return [type(v).__name__ if type(v) in (list, tuple) else 'tuple', [ser(q) for q in v]]
    if isinstance(v, (range,)): return ser(list(v))
    return ['other', type(v).__name__]
out = []
for j in range({n}):
    a = dict(V)
    for k in 'xwzmqi': a[k] = numpy.array(a[k])
    a['l'] = list(a['l'])
    try: out.append(ser(getattr(Probe, 'p%d' % j)(**a)))
    except Exception as e: out.append(['exc', type(e).__name__, str(e)[:80]])
print(json.dumps(out))
'''
    r = subprocess.run(['/opt/venv/bin/python', '-B', '-c', prog], capture_output=True, text=True)
    if r.returncode: print(r.stderr[-2000:]); sys.exit(1)
    return json.loads(r.stdout)
def judge(ctx, poly, j, real, mode):
    from sa import core
    from sa.dom import Dim, E0
    from sa.interp import V, vconst
    from sa.drive import blank, array, listof, fnum, cnum
    from sa.props import lines as L
    I = ctx.I; st = blank(I); env = {}; poly.REAL.clear()
    def at(label, vals, cplx=False):
        fs = L.forms(label, len(vals), 'c' if cplx else 'f')
        for i, v in enumerate(vals):
            if cplx: env[('elt', label, i)] = v.real; env[('elt', label + "'", i)] = v.imag; poly.REAL.add(label + "'")
            else: env[('elt', label, i)] = v
        return fs
    A = {}
    for k, v in VALS.items():
        if mode == 'const' and k not in 'ckn':
            if isinstance(v, list):
                flat = [q for r in v for q in (r if isinstance(r, list) else [r])]
                kind = 'c' if k == 'z' else 'i' if k == 'i' else 'f'
                A[k] = L.vec(st, k, [('c', q) for q in flat], kind, 'list' if k == 'l' else 'arr')
                if isinstance(v[0], list): A[k] = A[k].r(shape=(Dim(len(v)), Dim(len(v[0]))))
            else: A[k] = vconst(v)
        elif k in 'xw': A[k] = L.vec(st, k, at(k, v)) if mode != 'sym' else array(st, k, 'f', ('N',))
        elif k == 'z': A[k] = L.vec(st, k, at(k, v, True), 'c') if mode != 'sym' else array(st, k, 'c', ('M',))
        elif k in 'mq':
            flat = [q for r in v for q in r]
            A[k] = L.vec(st, k, at(k, flat)).r(shape=(Dim(len(v)), Dim(len(v[0])))) if mode != 'sym' else array(st, k, 'f', ('R', 'C') if k == 'm' else ('Q', 'Q'))
        elif k == 'l': A[k] = L.vec(st, k, at(k, v), 'f', 'list') if mode != 'sym' else listof(st, k, 'f', 'K')
        elif k == 'i': A[k] = L.vec(st, k, [('c', q) for q in v], 'i') if mode != 'sym' else array(st, k, 'i', ('N',))
        elif k in 'fg':
            A[k] = fnum(k); env[('par', k)] = v; poly.REAL.add(k)
        elif k == 'c': A[k] = cnum(k); env[('par', k)] = v
        else: A[k] = vconst(v)
    dims = {'x.N': 4, 'w.N': 4, 'z.M': 3, 'm.R': 2, 'm.C': 3, 'q.Q': 2, 'l.K': 3, 'i.N': 4}
    I.events.clear()
    n = ctx.R.n['undecided']; und = set(ctx.R.und)
    r = ctx.guard('x', str(j), lambda: ctx.D.static('Probe', f'p{j}', [], A, st))
    if r is None:
        e = [u for u in ctx.R.und if u not in und]
        err = ctx.R.errors[-1] if ctx.R.errors and any('analysis error' in u for u in e) else ''
        return '? ' + str(e)[:150] + (' Error ' + err[-300:] if err else '')
    if real[0] == 'exc': return None if r.raises or not r.results else f'? raises {real[1:]} in reality'
    if not r.results: return f'no result, raises {[str(o.v.c) for o in r.raises]} but really {str(real)[:100]}'
    why = []
    for v, s in r.results:
        e = compare(ctx, poly, v, s, real, env, dims, mode)
        if e is None: return None
        why.append(e)
    q = [e for e in why if e.startswith('?')]
    return q[0] if q else why[0]
def compare(ctx, poly, v, s, real, env, dims, mode):
    from sa.dom import NOC
    I = ctx.I
    def val(q):
        if q.c is not NOC and isinstance(q.c, (int, float, complex, bool)): return q.c
        if q.t is None: return None
        try: return poly.evaluate(q.t, env)
        except poly.NoForm: return None
        except Exception as e: return None
    def scalar(q, want, kind):
        if q.k == 'any': return '? any'
        if q.k == 'bool' and kind == 'b' or q.k in ('num', 'bool'): pass
        else: return f'kind {q.k} for {kind}'
        if q.k == 'num' and q.dt is not None and kind not in q.dt: return f'element kind {set(q.dt)} but really {kind}'
        if q.iv is not None and not isinstance(want, complex):
            lo, lc, hi, hc = q.iv
            if want < lo - 1e-9 * (1 + abs(lo)) or want > hi + 1e-9 * (1 + abs(hi)): return f'interval {q.iv} but really {want}'
        if mode == 'sym':
            if q.c is not NOC and isinstance(q.c, (int, float, complex)) and abs(q.c - want) > 1e-7: return f'constant {q.c} but really {want}'
            if q.d is not None:
                g = ev(q.d)
                if g is not None and abs(g - want) > 1e-9: return f'dimension {q.d} = {g} but really {want}'
            return None
        u = val(q)
        if u is None: return f'? {str(q.t)[:80]}'
        if u != u and want != want: return None
        if abs(complex(u) - complex(want)) > 1e-6 * (1 + abs(want)): return f'value {u} but really {want}   {str(q.t)[:120]}'
        return None
    def ev(d):
        r = d.c
        for a, k in d.m:
            if a in dims: r += k * dims[a]
            elif isinstance(a, tuple) and a[0] == 'fdiv' and ev(a[1]) is not None: r += k * (ev(a[1]) // a[2])
            else: return None
        return r
    k = real[0]
    if v.k == 'any': return '? any'
    if k == 'num':
        if v.k == 'arr' and v.shape is not None and not v.shape: v = I.vitems(s, v)[0] if I.vitems(s, v) else I.content(s, v, 'keep')
        return scalar(v, eval(real[1]) if real[1] not in ('nan', 'inf', '-inf') else float(real[1]), {'int': 'i', 'float': 'f', 'complex': 'c'}[real[2]])
    if k == 'bool':
        if v.k == 'arr': return '? arr'
        if v.k not in ('bool', 'num'): return f'kind {v.k} for bool'
        from sa.ext import truth
        u = v.c if v.c is not NOC else val(v)
        if u is None: return '?bool'
        return None if bool(u) == real[1] else f'{u} but really {real[1]}'
    if k == 'str': return None if v.k == 'str' and (v.c is NOC or v.c == real[1]) else f'{v.k} {v.c} but really {real}'
    if k == 'none': return None if v.k == 'none' else f'kind {v.k} for None'
    if k == 'other': return None
    if k == 'arr':
        if v.k != 'arr': return f'kind {v.k} for array'
        if v.dt is not None and real[1] in 'bifc' and real[1] not in v.dt: return f'array of {set(v.dt)} but really {real[1]}'
        if v.shape is not None:
            if len(v.shape) != len(real[2]): return f'shape {v.shape} but really {real[2]}'
            for d, w in zip(v.shape, real[2]):
                g = None if d is None else ev(d)
                if g is not None and abs(g - w) > 1e-9: return f'shape {v.shape} but really {real[2]}'
        its = I.vitems(s, v) if mode != 'sym' else None
        if mode == 'sym':
            e = I.content(s, v, 'keep')
            if e is not None and real[3]:
                for w in real[3]:
                    b = scalar(e, eval(w[1]) if w[0] == 'num' and w[1] not in ('nan', 'inf', '-inf') else w[1] if w[0] == 'bool' else float(w[1]), {'b': 'b', 'i': 'i', 'f': 'f', 'c': 'c', 'u': 'i'}.get(real[1], 'f'))
                    if b: return b
            return None
        if its is None: return '? no items' if real[3] else ('? shape' if v.shape is None else None)
        if len(its) != len(real[3]): return f'{len(its)} items but really {len(real[3])}'
        for q, w in zip(its, real[3]):
            b = scalar(q, w[1] if w[0] == 'bool' else eval(w[1]) if w[1] not in ('nan', 'inf', '-inf') and 'nan' not in w[1] else float('nan') if 'nan' in w[1] else float(w[1]), real[1])
            if b: return b
        return None
    if k in ('list', 'tuple'):
        if v.k not in ('list', 'tuple'): return '? ' + v.k if v.k in ('any', 'iter', 'set', 'range') else f'kind {v.k} for {k}'
        its = I.vitems(s, v) if mode != 'sym' or v.k == 'tuple' else None
        if its is None:
            return '? no items' if mode != 'sym' else None
        if len(its) != len(real[1]): return f'{len(its)} items but really {len(real[1])}'
        for q, w in zip(its, real[1]):
            b = compare(ctx, poly, q, s, w, env, dims, mode)
            if b: return b
        return None
    return None
main()
