"""No call modifies what its caller owns.

The analyses of the other properties are run again with an effects monitor: every object reachable from the
arguments of a call into the package is watched while the package's code runs."""
import importlib
import multiprocessing
import os
import time
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from jfsa.check import Ctx
from jfsa.effects import Effects

# parameters whose documented purpose is to collect results for the caller
COLLECT = {'timing', 'info'}
QUICK = 'P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P28 P29 P30 P31'.split()


class ECtx(Ctx):
    """runs another property's scenarios, keeping only what they did to the caller's data"""
    def interp(self, config=None):
        I = super().interp(config)
        I.fx = Effects(I, COLLECT)
        return I

    def ob(self, key, ok, detail='', where=None):
        return ok

    def eq(self, key, got, want, where=None):
        return True

    def eqs(self, key, got, want, where=None):
        return True


def job(a):
    pid, tier, repo = a
    m = importlib.import_module('props.' + pid)
    c = ECtx(pid, tier, repo)
    t0 = time.time()
    err = []
    try:
        m.run(c)
    except Exception as ex:
        err.append('%s: %s: %s' % (pid, type(ex).__name__, ex))
        if os.environ.get('JFSA_TB'):
            import traceback
            traceback.print_exc()
    calls, objs, bad, fns, n = {}, {}, [], set(), 0
    for I in c.interps:
        if I.fx is None:
            continue
        for k, v in I.fx.calls.items():
            calls[k] = calls.get(k, 0) + v
            objs[k] = max(objs.get(k, 0), I.fx.objects[k])
        bad += [b for b in I.fx.bad if b not in bad]
        fns |= I.functions
        n += I.callsites
    return pid, calls, objs, bad, fns, n, err + ['%s: %s' % (pid, e) for e in c.errors], c.files, time.time() - t0


DEEP = 'P01 P02 P03 P06 P08 P09 P11 P12 P14 P15 P16 P17 P18 P21 P23 P24 P25 P26 P28 P29 P31'.split()


def run(ctx):
    """an effects analysis over the scenarios of all other properties: for every call of the package from outside, the objects reachable
    from its arguments (arrays, lists, dictionaries, meshes) and the modules' defaults and settings are watched while the package's code is
    interpreted; a store into one of them, also through a view of an array, is a violation at that statement"""
    slow = ['P07', 'P22', 'P04', 'P10', 'P30', 'P05', 'P19', 'P20', 'P13']
    order = slow + [p for p in QUICK if p not in slow]
    tier = lambda p: 'thorough' if ctx.thorough and p in DEEP else 'quick'
    done = {}
    for workers in (min(8, os.cpu_count() or 1), 2):
        with ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context('fork')) as pool:
            fut = [(p, pool.submit(job, (p, tier(p), ctx.repo))) for p in order if p not in done]
            for p, f in fut:
                try:
                    done[p] = f.result()
                except BrokenProcessPool:   # a worker was ended from outside (memory): the rest is done with fewer workers
                    pass
    ctx.errors += ['%s: its analysis was ended from outside' % p for p in order if p not in done]
    res = [done[p] for p in order if p in done]
    calls, objs, bad = {}, {}, {}
    I = ctx.interp()
    for pid, c, o, b, fns, n, err, files, dt in res:
        if os.environ.get('JFSA_T'):
            print(pid, '%.1f' % dt, len(c), len(b), err[:3])
        for k, v in c.items():
            calls[k] = calls.get(k, 0) + v
            objs[k] = max(objs.get(k, 0), o[k])
        for x in b:
            bad.setdefault(x[0], []).append(x)
        I.functions |= fns
        I.callsites += n
        ctx.files |= files
        ctx.errors += err
    for k in sorted(calls):
        for fn, where, text in bad.get(k, [])[:8]:
            ctx.ob('%s leaves the caller\'s data and the package\'s defaults unchanged' % k, False, text, where)
        if k not in bad:
            ctx.ob('%s leaves the caller\'s data and the package\'s defaults unchanged' % k, True, '%d calls, up to %d objects watched' % (calls[k], objs[k]))
