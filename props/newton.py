"""Loop-invariant analysis shared by the Newton-type checks."""
from .solverworld import *
from jfsa.interp import Env, Inst, NativeObj, PDict
from jfsa import expr as X
from jfsa.arr import ShapeError


def stub_linear(s, name='inc'):
    """replace linear_solver by an opaque solve that records what it is asked"""
    n = [0]

    def lin(I, a, k, node):
        names = ['A', 'b', 'x0', 'linear_options']
        d = dict(zip(names, a))
        d.update(k)
        n[0] += 1
        b = asarr(I, d['b'], 'j')
        M = d['A'].s['M']
        nm = '%s%d' % (name, n[0])
        s.I.event('lin', M=M, b=b, x0=d.get('x0'), opts=d.get('linear_options'), node=node, out=nm)
        if not A.same_size(M.axes[0].size, b.axes[0].size):
            raise ShapeError('linear solve with %s rows and right-hand side of size %s' % (X.show(M.axes[0].size), X.show(b.axes[0].size)))
        return symbolic(nm, [M.axes[1].size])
    s.I.overrides['jax_fem.solver:linear_solver'] = lin


def where_fn(s, name, mod='jax_fem.solver'):
    f = s.I.get(mod, name)
    return '%s:%s %s' % (mod, getattr(f.node, 'lineno', '?'), name)


def norm_of(a):
    a = A.ravel(a) if a.ndim != 1 else a
    v = None
    tot = num(0)
    for bk, it, vs in A.axis_cases(a.axes[0]):
        e = a.get([it])
        t = mul(e, e)
        for v in reversed(vs):
            t = mksum(v, X.VARSIZE[v.args[0]], t)
        tot = add(tot, t)
    return power(tot, num('1/2'))


def all_finite(a):
    tot = num(1)
    for bk, it, vs in A.axis_cases(a.axes[0]):
        t = opq('isfinite', a.get([it]))
        for v in reversed(vs):
            t = X.red('all', v, X.VARSIZE[v.args[0]], t)
        tot = X.band(tot, t)
    return tot


def red_residual(s, d, state=()):
    """residual Newton must drive to zero at reduced/full dofs d"""
    full = d if s.P is None else A.matmul(s.P, d)
    r = s.residual(full, state=state)
    return r if s.P is None else A.matmul(A.transpose(s.P), r)


def full_of(s, d):
    return d if s.P is None else A.matmul(s.P, d)


def sc(x):
    return A.scalar_of(x) if isinstance(x, Arr) else X.num(x)


def val_eq(x, y):
    try:
        if isinstance(x, Arr) or isinstance(y, Arr):
            x, y = A.to_arr(x), A.to_arr(y)
            if x.ndim != y.ndim:
                return False
            return A.arr_equal(x, y) is None
        return X.equal(X.num(x), X.num(y))
    except (ShapeError, A.Unmodelled, TypeError, AttributeError):
        return False


class LoopRoles:
    """express the loop-carried state as functions of the carried dofs"""

    def __init__(self, rec, dofs_key, cands):
        """cands: {role: F(dofs Arr) -> value}"""
        self.rec = rec
        self.H = rec.head[dofs_key]
        self.role = {dofs_key: 'dofs'}
        self.sub_arr, self.sub_sym = {}, {}
        e, n = rec.entry[dofs_key], rec.next[dofs_key]
        for k in sorted(rec.head, key=lambda k: 0 if isinstance(rec.head[k], Arr) else 1 + ('rel' in str(k[1]))) * 2:
            if k in self.role or k[1] is None:
                continue
            for nm, F in cands.items():
                try:
                    via = None
                    if isinstance(F, tuple):
                        F, vr, G = F
                        via = next((kk for kk, r in self.role.items() if r == vr), None)
                    N, E = self.mat(rec.next[k]), self.mat(rec.entry[k])
                    if via is not None and val_eq(N, G(self.mat(rec.next[via]), self.mat(rec.entry[via]))) \
                            and val_eq(E, G(self.mat(rec.entry[via]), self.mat(rec.entry[via]))) \
                            or val_eq(N, F(n)) and val_eq(E, F(e)):
                        self.role[k] = nm
                        hv = self.mat(rec.head[k])
                        want = F(self.H)
                        if isinstance(hv, Arr):
                            w = A.to_arr(want)
                            self.sub_arr[hv.head_name] = (lambda w, hv: lambda i: w.get(A.unleaf(hv.axes, i)))(w, hv)
                        elif isinstance(hv, X.E):
                            self.sub_sym[hv.args[0]] = A.scalar_of(want) if isinstance(want, Arr) else X.num(want)
                        break
                except (TypeError, ShapeError, A.Unmodelled):
                    continue

    @staticmethod
    def mat(v):
        return v.s['M'] if isinstance(v, NativeObj) and isinstance(v.s.get('M'), Arr) else v

    def term(self, e):
        e = X.num(e)
        if self.sub_sym:
            e = X.replace_apps(e, {k: (lambda v: lambda i: v)(v) for k, v in self.sub_sym.items()})
        if self.sub_arr:
            e = X.replace_apps(e, self.sub_arr)
        return X.norm(e)

    def arr(self, a):
        return Arr(a.axes, lambda i: self.term(a.get(i)), a.dtype, a.lib)


def find_dofs(s, rec, flat):
    """the carried array the returned solution is read from"""
    for k, hv in rec.head.items():
        if isinstance(hv, Arr) and getattr(hv, 'head_name', None) and hv.ndim == 1:
            if val_eq(flat, full_of(s, hv)) if A.same_size(hv.axes[0].size, s.ntot if s.P is None else s.nred) else False:
                return k
    return None


def flat_sol(s, r):
    l = items(r)
    return cat([A.ravel(asarr(s.I, x, 'j')) for x in l])


def newton_obligations(ctx, s, r, rec, lin, fin, d0, tol, rtol, w, state=()):
    """obligations of one analysed Newton solve; r: returned solution list"""
    ctx.ob('one solution array per variable', len(items(r)) == s.nv, '', w)
    flat = flat_sol(s, r)
    if not ctx.ob('one iteration loop', len(rec) == 1, '%d loops with a run-time guard' % len(rec), w):
        return
    rec = rec[0]
    k = find_dofs(s, rec, flat)
    if not ctx.ob('solution is the last iterate', k is not None, 'the returned arrays are not the dofs carried by the loop', rec.where):
        return
    R = lambda d: red_residual(s, d, state)
    N0 = norm_of(R(rec.entry[k]))
    cands = {'res': R, 'norm': (lambda d: norm_of(R(d)), 'res', lambda x, x0: norm_of(x)),
             'rel': (lambda d: div(norm_of(R(d)), N0), 'norm', lambda x, x0: div(sc(x), sc(x0))),
             'go': (lambda d: X.band(X.lt(rtol, div(norm_of(R(d)), N0)), X.lt(tol, norm_of(R(d)))), 'none', None),
             'stop': (lambda d: sub(1, X.band(X.lt(rtol, div(norm_of(R(d)), N0)), X.lt(tol, norm_of(R(d))))), 'none', None),
             'tangent': lambda d: s.A_red(full_of(s, d), state)}
    ro = LoopRoles(rec, k, cands)
    ctx.eq('starting dofs', rec.entry[k], d0, rec.where)
    nrm = norm_of(R(ro.H))
    want = X.band(X.lt(rtol, div(nrm, N0)), X.lt(tol, nrm))
    ctx.ob('no other exit', not rec.breaks, '', rec.where)
    ctx.eqs('loop continues exactly while residual and relative residual exceed the tolerances', ro.term(rec.guard), want, rec.where)
    if ctx.ob('one linear solve per iteration', len(lin) == 1, '%d' % len(lin), rec.where):
        e = lin[0]
        ctx.eq('matrix of the linear solve', ro.arr(e['M']), s.A_red(full_of(s, ro.H), state), e['where'])
        ctx.eq('right-hand side of the linear solve', ro.arr(e['b']),
               A.elementwise(lambda x: mul(-1, x), R(ro.H)), e['where'])
        ctx.eq('update', ro.arr(rec.next[k]), A.elementwise(lambda x, y: add(x, y), ro.H, symbolic(e['out'], [ro.H.axes[0].size])), rec.where)
    fin = [ro.term(e['cond']) for e in fin]
    ctx.ob('returned dofs asserted finite', any(X.equal(f, all_finite(ro.H)) for f in fin),
           'assertions: %s' % [X.show(f, 200) for f in fin], w)
    ctx.ob('residual norm asserted finite', any(X.equal(f, opq('isfinite', nrm)) for f in fin),
           'assertions: %s' % [X.show(f, 200) for f in fin], w)
    return k, ro


def run_newton(ctx, s, cfg, d0, tol, rtol, p=None, state=()):
    I = s.I
    n0, l0 = len(I.events), len(I.loops)
    w = where_fn(s, 'solver')
    r = s.call('solver', p or s.p, PDict(I, {'newton': PDict(I, cfg)}))
    ev = I.events[n0:]
    return newton_obligations(ctx, s, r, I.loops[l0:], [e for e in ev if e['kind'] == 'lin'],
                              [e for e in ev if e['kind'] in ('assert', 'guard') and e.get('cond') is not None], d0, tol, rtol, w, state)


TOL, RTOL = num('1/1000000'), num('1/100000000')


def zeros_of(size):
    return Arr([ax(size)], lambda i: num(0))
