"""Obligation bookkeeping, verdicts, evidence."""
import json
import os
import sys
import time
import traceback
from .arr import ShapeError, Unmodelled, Arr, arr_equal
from . import arr as A
from . import expr as X
from .interp import Broken, ProgramError, ProgramRaise
from . import interp as IN

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Abort(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, repo):
        self.pid = pid
        self.tier = tier
        self.repo = repo
        self.obs = []          # (key, ok, where, detail)
        self.errors = []
        self.interps = []
        self.assumptions = []
        self.scen = ''
        self.files = set()
        self.read = set()      # functions analysed on the syntax tree

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def interp(self, config=None):
        from .harness import new_interp
        I = new_interp(self.repo, config)
        self.interps.append(I)
        return I

    # ---- obligations
    def ob(self, key, ok, detail='', where=None):
        self.obs.append(('%s/%s' % (self.scen, key), bool(ok), where or '', detail))
        return ok

    def eq(self, key, got, want, where=None):
        """two abstract arrays / scalars denote the same value at every index"""
        try:
            if not isinstance(got, Arr):
                if got is None or isinstance(got, (str, tuple, list)):
                    return self.ob(key, False, 'expected a numeric value, found %r' % (got,), where)
                if hasattr(got, 'items') and not isinstance(got, Arr):
                    from .m_core import asarr
                    got = asarr(self.interps[-1], got, 'j')
            d = arr_equal(A.to_arr(got), A.to_arr(want))
        except ShapeError as ex:
            d = 'shape: %s' % ex
        return self.ob(key, d is None, d or '', where)

    def eqs(self, key, got, want, where=None):
        d = X.same_values(X.num(got), X.num(want))
        return self.ob(key, d, '' if d else X.difftext(X.num(got), X.num(want)), where)

    def scenario(self, name, fn, *args, expect_raise=False):
        old = self.scen
        self.scen = name
        try:
            return fn(*args)
        except ProgramError as ex:
            self.ob('runs', False, 'the analysed code cannot complete: %s at %s' % (getattr(ex, 'msg', ex), getattr(ex, 'where', None)),
                    getattr(ex, 'where', None))
        except ShapeError as ex:
            w = self.interps[-1].where() if self.interps else ''
            if os.environ.get('JFSA_TB'):
                traceback.print_exc()
            self.ob('shapes', False, 'array shapes do not agree: %s' % ex, w)
        except Abort:
            pass
        except (Unmodelled, Broken) as ex:
            self.errors.append('%s: %s: %s' % (name, type(ex).__name__, ex))
            if os.environ.get('JFSA_TB'):
                traceback.print_exc()
        except RecursionError as ex:
            self.errors.append('%s: recursion' % name)
        except Exception as ex:
            self.errors.append('%s: internal %s: %s' % (name, type(ex).__name__, ex))
            if os.environ.get('JFSA_TB'):
                traceback.print_exc()
        finally:
            self.scen = old
        return None


def load_known():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=P13 key=<obligation key> | text
                body, _, text = line[6:].partition('|')
                d = dict(x.split('=', 1) for x in body.split() if '=' in x)
                out[(d['property'], d['key'])] = text.strip()
    return out


def main(pid, tier, run, repo, level='proof'):
    t0 = time.time()
    X.MISMATCH = None
    ctx = Ctx(pid, tier, repo)
    try:
        run(ctx)
    except Exception as ex:
        ctx.errors.append('driver: %s: %s' % (type(ex).__name__, ex))
        if os.environ.get('JFSA_TB'):
            traceback.print_exc()
    known = load_known()
    bad = [o for o in ctx.obs if not o[1]]
    new, kn = [], []
    for o in bad:
        k = (pid, o[0].replace(' ', '_'))
        (kn if k in known else new).append(o)
    funcs = sorted(set().union(ctx.read, *[i.functions for i in ctx.interps]))
    calls = sum(i.callsites for i in ctx.interps)
    ok = sum(1 for o in ctx.obs if o[1])
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'obligations': len(ctx.obs), 'discharged': ok + len(kn) * 0,
            'checker_cmd': 'python3 check.py %s --tier %s' % (pid, tier),
            'trusted_base': ['/verif/jfsa (abstract interpreter, term normaliser, numpy/jax/scipy/petsc4py API models)',
                             'CPython ast parser'],
            'rule': (run.__doc__ or '').strip(),
            'functions_analysed': funcs, 'call_sites_evaluated': calls,
            'scenarios': sorted({o[0].split('/')[0] for o in ctx.obs}),
            'samples': [{'obligation': o[0], 'holds': o[1], 'where': o[2], 'detail': o[3][:1500]} for o in (bad + ctx.obs)[:40]],
            'analysis_errors': ctx.errors,
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
    for o in kn:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, o[0], known[(pid, o[0].replace(' ', '_'))]))
    for e in ctx.errors:
        print('ANALYSIS-ERROR %s' % e[:1500])
    for o in new[:6]:
        print('  violated obligation: %s\n    at %s\n    %s' % (o[0], o[2] or '(see functions)', o[3][:1300]))
    print('%s %s: %d obligations, %d discharged, %d functions, %d calls, %.1fs' % (
        pid, tier, len(ctx.obs), ok, len(funcs), calls, time.time() - t0))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, ROOT)))
        return 1
    if ctx.errors or not ctx.obs:
        return 2
    return 0
