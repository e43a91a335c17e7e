"""C32, C34: reconstruction by the wavelet transform, positions and values of resampled signals."""
import math
from ..core import *
from .. import poly, interp as ip
from .tables import WAVE, signal
from .lines import forms, vec, add, mul, build, only, leaf, C0, attr
from .laws import agree, results, smallbank

# ------------------------------------------------------------------ C32
def impulses(rows, cols, at, kind):
    """Signal with formal values at some positions and zero elsewhere."""
    out = []; n = 0
    for i in range(rows):
        for j in range(cols):
            if (i * cols + j) in at:
                t = leaf('x', n)
                if kind == 'c': t = add(t, mul(('c', 1j), leaf("x'", n)))
                out.append(t); n += 1
            else: out.append(C0)
    return out
def matrix(st, fs, rows, cols, kind):
    v = vec(st, 'x', fs, kind)
    return v.r(shape=(Dim(rows), Dim(cols)))
def c32(ctx):
    poly.REAL.clear(); poly.REAL.update(("x", "x'")); ip.TERMSIZE = 60000; ip.RECUR = 9
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    site = ctx.site('WaveletTransform', 'transform')
    def both(lab, style, order, fs, shape, kind, count, want, key, cont='arr'):
        st = blank(I)
        r = build(ctx, 'WaveletTransform', lab, st, style=vconst(style), order=vconst(order))
        if r is None: return
        o, st = r
        x = vec(st, 'x', fs, kind, cont) if len(shape) == 1 else matrix(st, fs, *shape, kind)
        r = only(ctx, 'reconstruction', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'transform', [], dict(x=x, count=vconst(count)), st, op='k1')), 'WaveletTransform', 'transform', 'a signal')
        if r is None: return
        y, st = r
        r = only(ctx, 'reconstruction', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'transform', [], dict(x=y, count=vconst(count), inverse=vconst(True)), st, op='k2')), 'WaveletTransform', 'transform', 'the transform of a signal')
        if r is None: return
        z, st = r
        agree(ctx, 'reconstruction', lab, st, z, want, site, f'{lab}: the inverse transform of the transform is not the signal{", delayed by the order less one" if order > 1 else ""}', key, tol=2e-6, shape=shape, floor=1.0, scales=(1.0, 1.0, 1e-12, 1e9))
    for style in WAVE:
        for order in WAVE[style]:
            d = order - 1
            more = [q for q in ctx.limits(14, 130, 'WaveletTransform', 'FirFilter') if q % 2 == 0] if order in (1, 3) else []; ctx.room(max(more, default=0) + 2)
            for n in sorted({*((2, 4, 6, 8, 12) if order == 1 else (max(2, order + 1 & ~1), order + 7 & ~1)), *more}):
                for kind in 'fc':
                    for cont in ('arr', 'list'):
                        if cont == 'list' and order > 3 or not ctx.mine(): continue
                        at = range(n) if n <= 12 and order <= 5 else (0, 1, 2, 5)
                        fs = impulses(1, n, at, kind)
                        both(f'WaveletTransform( {style}, {order} ), one stage, {n} {"complex" if kind == "c" else "real"} samples{", list" if cont == "list" else ""}', style, order, fs, (n,), kind, 1, [fs[i - d] if i >= d else C0 for i in range(n)], f'one|{style}|{order}', cont)
            if order > 7 and not deep: continue
            for rows, cols in ((2, 2), (4, 2), (2, 4), (4, 4), (2, 1), (8, 1), (1, 8), (6, 8), (8, 6)):
                if rows * cols > 48 or not ctx.mine(): continue
                at = range(rows * cols) if rows * cols <= 8 else (0, 1, cols, cols + 1)
                fs = impulses(rows, cols, at, 'f')
                dr, dc = (d if rows > 1 else 0), (d if cols > 1 else 0)
                both(f'WaveletTransform( {style}, {order} ), one stage, {rows} by {cols} samples', style, order, fs, (rows, cols), 'f', 1, [fs[(i - dr) * cols + j - dc] if i >= dr and j >= dc else C0 for i in range(rows) for j in range(cols)], f'two|{style}|{order}')
    ctx.room(130)
    for count in sorted({2, 3, 4, 5, 6, *(q for q in ctx.limits(2, 7, 'WaveletTransform') if q < 8)}):
        for n in (2 ** count, 2 ** count * 3):
            if n > (48 if count < 5 else 128) or not ctx.mine(): continue
            fs = impulses(1, n, range(n) if n <= 16 else (0, 1, 5, n - 1), 'f')
            both(f'WaveletTransform( Haar, 1 ), {count} stages, {n} samples', 'Haar', 1, fs, (n,), 'f', count, fs, f'stages|{count}')
        for rows, cols in ((2 ** count, 2 ** count), (2 ** count, 1), (1, 2 ** count), (4, 8)):
            if rows * cols > 64 or rows != 1 and rows % 2 ** count or cols != 1 and cols % 2 ** count or not ctx.mine(): continue
            fs = impulses(rows, cols, range(rows * cols) if rows * cols <= 16 else (0, 1, 9, rows * cols - 1), 'f')
            both(f'WaveletTransform( Haar, 1 ), {count} stages, {rows} by {cols} samples', 'Haar', 1, fs, (rows, cols), 'f', count, fs, f'stages|{count}')

# ------------------------------------------------------------------ C34
def value(cs, p):
    r = C0
    for j, c in enumerate(cs): r = add(r, mul(('c', float(p) ** j), c))
    return r
def half_even(x):
    f = math.floor(x); d = x - f
    return int(f + (d > 0.5 or d == 0.5 and f % 2 == 1))
def c34(ctx):
    poly.REAL.clear(); poly.REAL.update(('c', "c'", 'x', "x'"))
    R, I = ctx.R, ctx.I
    deep = ctx.tier != 'quick'
    site = ctx.site('PolynomialRateFilter', 'filter')
    for order in (1, 2, 3):
        for rate in (0.25, 0.4, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, math.e, 3.0, math.pi, 0.004, 0.02, 40.0, 250.0):
            more = ctx.limits(12, 66, 'PolynomialRateFilter') if rate in (0.5, 1.0, 1.25) else []; ctx.room(2 * max(more, default=0) + 2)
            low = {0.004: {500, 760}, 0.02: {60, 160}, 40.0: {2, 4}, 250.0: {3}}.get(rate, set()); ctx.room(1000)
            if order > 1: low = {0.02: {60}, 40.0: {3}}.get(rate, set())
            if order > 1 and rate in (0.004, 250.0): continue
            for n in sorted(low or {2, 3, 4, 5, 7, 8, 11, 12, *more}):
                for kind in 'fc':
                    if kind == 'c' and n not in (5, 8) or not ctx.mine(): continue
                    m = half_even(n * rate)
                    if m > 36 and n < 13 and not low: continue
                    for degree in sorted({1, order}):
                        cs = forms('c', degree + 1, kind)
                        lab = f'PolynomialRateFilter( {rate:.4g}, {order} ), {n} {"complex" if kind == "c" else "real"} samples of a polynomial of degree {degree}'
                        st = blank(I)
                        r = build(ctx, 'PolynomialRateFilter', lab, st, rate=vconst(rate), order=vconst(order))
                        if r is None: continue
                        r = only(ctx, 'polynomial', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(r[0], 'filter', [vec(r[1], 'x', [value(cs, k) for k in range(n)], kind)], {}, r[1], op='k1')), 'PolynomialRateFilter', 'filter', 'a signal')
                        if r is None: continue
                        y, st = r
                        its = I.vitems(st, y) if y.k == 'arr' else None
                        if its is None:
                            d = y.shape[0].const if y.shape and y.shape[0] is not None else None
                            if d is not None and d != m: R.bad('length', lab, f'{lab}: {d} samples instead of {m}', *site, key=f'length|{order}')
                            else: R.undecided('polynomial', lab, 'not known element by element')
                            continue
                        if len(its) != m: R.bad('length', lab, f'{lab}: {len(its)} samples instead of {m}', *site, key=f'length|{order}'); continue
                        R.ok('length', lab)
                        at = [i for i in range(m) if degree == 1 or 1.0 + 1e-9 < i / rate < n - 2 - 1e-9]
                        if not at: continue
                        agree(ctx, 'polynomial', lab, st, V('tuple', c=tuple(its[i] for i in at)), [value(cs, i / rate) for i in at], site, f'{lab}: an output is not the value of the polynomial at its position', f'polynomial|{order}', tol=1e-7)
    site = ctx.site('PolyphaseRateFilter', 'filter')
    for rr, cc in ((4, 3), (5, 2), (120, 1)):
        for rate in (1e-4, 0.4, 0.5, 0.75, 1.0, 4 / 3, 1.5, 2.0, 3.0, 4.0, 4 / 1.599, 4 / 1.33317, 64.0, 96.3, 120.0):
            if rate > rr or rate > 60 and rr == 5 or rate < 60 and rr > 5: continue
            for kind in 'fc':
                if kind == 'c' and rr > 5: continue
                more = ctx.limits(6, 66, 'PolyphaseRateFilter') if rate in (0.5, 1.0, 1.5) and kind == 'f' and rr == 4 else []; ctx.room(2 * max(more, default=0) + 4)
                for plan in [(1,), (5,), (2, 3), (1, 1, 4), (3, 6), (0, 4), (3, 0, 3)] + [(q, 2) for q in more] if rr < 9 else [(2, 3), (6,)]:  # 0: a reset
                    if not ctx.mine(): continue
                    lab = f'PolyphaseRateFilter( {rate:.4g} ) with a bank of {rr} rows of {cc}, {" + ".join(str(n) if n else "reset" for n in plan)} {"complex" if kind == "c" else "real"} samples'
                    st = blank(I)
                    bank = smallbank(ctx, st, rr, cc)
                    if bank is None: R.undecided('polyphase', lab, 'bank not found'); continue
                    r = build(ctx, 'PolyphaseRateFilter', lab, st, rate=vconst(rate))
                    if r is None: continue
                    o, st = r; xs = forms('x', sum(plan), kind)
                    s = [C0] * cc; pos = 0.0; done = 0
                    for ci, n in enumerate(plan):
                        want = []; fine = []
                        if not n:
                            t = forms('r', 1, kind)[0]; s = [t] * cc
                            q = only(ctx, 'reset', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'reset', [V('num', dt=KD(kind), deps=frozenset(['arg:r']), lin='L', mv=frozenset(['r']), t=t)], {}, st, op='r')), 'PolyphaseRateFilter', 'reset', 'a reset')
                            if q is None: break
                            st = q[1]; continue
                        for x in xs[done:done + n]:
                            s = [x] + s[1:]
                            while pos < rr - 1e-6:
                                k = min(half_even(round(pos, 9)), rr - 1)
                                if abs(pos - math.floor(pos) - 0.5) >= 1e-6: fine.append(len(want))  # not between two rows
                                r_ = C0
                                for c, t in zip(bank[k], s): r_ = add(r_, mul(('c', c), t))
                                want.append(r_); pos += rr / rate
                            pos -= rr; s = [s[0]] + s[:-1]
                        part = xs[done:done + n]; done += n
                        q = only(ctx, 'polyphase', lab, ctx.guard('analysis', lab, lambda: ctx.D.method(o, 'filter', [vec(st, f'x{ci}', part, kind)], {}, st, op=f'k{ci + 1}')), 'PolyphaseRateFilter', 'filter', 'a signal')
                        if q is None: break
                        y, st = q
                        if not want:
                            c = I.vitems(st, y) if y.k == 'arr' else None
                            if y.shape and y.shape[0] is not None and y.shape[0].const == 0 or c == (): R.ok('polyphase', lab)
                            elif c: R.bad('polyphase', lab, f'{lab}: {len(c)} outputs instead of none', *site, key='polyphase')
                            else: R.undecided('polyphase', lab, 'length not known')
                            continue
                        c = I.vitems(st, y) if y.k == 'arr' else None
                        if c is not None and len(c) == len(want) and len(fine) < len(want):
                            if not fine: R.ok('polyphase', lab); continue
                            y = V('tuple', c=tuple(c[i] for i in fine)); want = [want[i] for i in fine]
                        if not agree(ctx, 'polyphase', lab, st, y, want, site, f'{lab}: an output is not the row of the bank at its position applied to the most recent samples', 'polyphase'): break
