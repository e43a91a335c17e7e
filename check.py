#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo's current source by static analysis."""
import os, sys, time
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import core
from sa.props import registry, tables
def given(f, prop, force):
    """A check which, where something is undecided, looks for violations with given samples instead of formal ones."""
    def g(ctx):
        R = ctx.R; extra = None
        try: extra = f(ctx)
        except core.Late: R.undecided('analysis', 'worker', 'out of time')
        if sum(r['undecided'] for r in R.rules.values()) <= registry.GIVEN[prop] and not force: return extra
        ctx.t0 = max(ctx.t0, time.time() + 150.0 - core.TIME.get(ctx.tier, core.TIME['thorough'])[1]) if time.time() - ctx.t0 < 600.0 else ctx.t0; ctx.over = False; ctx.alarm()  # time of its own
        for k in range(len(tables.SCALE)):
            ctx.R = core.Report(prop); ctx.unit = 0; tables.CONC = k
            try: f(ctx)
            except core.AnchorMissing: pass
            except core.Late: break
            except Exception as e: R.undecided('analysis', 'given samples', f'analysis stopped: {type(e).__name__}')
            finally:
                q, ctx.R, tables.CONC = ctx.R, R, None
                for n, v in q.viol.items(): R.viol.setdefault(n, v)
                if force and q.und and not R.und: R.undecided('given', k, str({a: b[:2] for a, b in q.und.items()})[:600])
        return extra
    return g
def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    root = os.environ.get('VERIF_REPO', '/repo')
    f, expl = registry.CHECKS[prop]
    if prop in registry.GIVEN: f = given(f, prop, os.environ.get('VERIF_GIVEN') == '1')
    core.ip.MAXITEMS = registry.ITEMS.get(prop, core.ip.MAXITEMS)
    core.ip.NORMAL = prop in registry.NORMAL
    core.ip.SPLIT = registry.SPLIT.get(prop, 0)
    try:
        ctx = core.Ctx(root, prop, tier)
        extra = core.run(ctx, f, 1 if prop in registry.SINGLE else int(os.environ.get('VERIF_JOBS', '0')) or None)
    except core.AnchorMissing as e:
        print(f'{prop}: anchor missing: {e}'); return 2
    except SyntaxError as e:
        print(f'{prop}: the source cannot be parsed: {e}'); return 2
    if ctx.I.loadskips: ctx.R.undecided('definitions', 'load', f'not interpreted: {ctx.I.loadskips[:5]}')
    return core.finish(ctx, expl, extra)
if __name__ == '__main__': sys.exit(main())
