from .newton import *
from jfsa.m_np import linsolve
from jfsa.interp import ProgramRaise, ProgramError

AMGX_ON = 'amgx'


def assured(ev):
    return [e['cond'] for e in ev if e['kind'] in ('assert', 'guard') and e.get('cond') is not None]


def checked(ev, nrm, cmax='1/10'):
    """some run-time check implies nrm < cmax"""
    for c in assured(ev):
        lits = [num(cmax)] + [x for x in X.walk(c) if x.op == 'num']
        for l in {id(x): x for x in lits}.values():
            l = norm(X.add(0, l))
            for cand in (l, norm(mul(-1, l)), norm(div(1, l)) if not X.equal(l, num(0)) else l, norm(mul(-1, div(1, l))) if not X.equal(l, num(0)) else l):
                v = X.bound_num(cand) if hasattr(X, 'bound_num') else cand
                if cand.op != 'num' or not (0 < cand.args[0] <= num(cmax).args[0]):
                    continue
                for w in (X.lt(nrm, cand), X.le(nrm, cand), sub(1, X.lt(cand, nrm)), sub(1, X.le(cand, nrm))):
                    if X.equal(c, w):
                        return True
    return False


def run(ctx):
    """Value numbering of linear_solver for every backend and option combination: the returned vector is the
    backend's solution of exactly the given matrix and right-hand side; the backend, Krylov type, preconditioner type
    and preconditioner switch are the requested ones or the documented defaults; iterative backends check the
    residual of the vector they return; the options dictionary is left as it was."""
    def sysm():
        I = ctx.interp({})
        n = size_sym('n')
        M = symbolic('Mt', [n, n], 'f', 'n')
        b, x0 = symbolic('bb', [n], 'f', 'n' if I.fx else 'j'), symbolic('x0', [n], 'f', 'n' if I.fx else 'j')
        m = NativeObj(I, 'mat', M=M, coo=None, opts=(), id='A', size=(n, n))
        return I, n, M, b, x0, m

    def where(I, name):
        f = I.get('jax_fem.solver', name)
        return 'jax_fem.solver:%s %s' % (getattr(f.node, 'lineno', '?'), name)

    def scen(opts, method, want, fname, x0none=False):
        I, n, M, b, x0, m = sysm()
        od = PDict(I, {k: PDict(I, dict(v)) for k, v in opts.items()})
        I.get('jax_fem.solver', 'linear_solver')
        ev0 = len(I.events)
        r = I.call(I.get('jax_fem.solver', 'linear_solver'), [m, b, None if x0none else x0, od], {})
        ev = I.events[ev0:]
        w = where(I, fname)
        ctx.eq('solution of the given system', r, linsolve(I, M, b), w)
        ls = [e for e in ev if e['kind'] == 'linsolve']
        if ctx.ob('one backend is used', len(ls) == 1, '%d' % len(ls), w):
            e = ls[0]
            ctx.ob('backend', e['method'] == method, 'used %s, requested %s' % (e['method'], method), e.get('where'))
            if method in ('iter', 'amgx') and (e.get('x0') is not None or not x0none):
                ctx.eq('starting vector', e.get('x0'), A.full([n], num(0)) if x0none else x0, e.get('where'))
            if method == 'iter' and want['pc'] and e.get('pc') is not None:
                ctx.eq('the preconditioner divides by the diagonal', e['pc'],
                       A.elementwise(lambda p, q: div(p, q), b, Arr([M.axes[0]], lambda i: M.get([i[0], i[0]]))), e.get('where'))
            if method == 'amgx':
                path = opts['amgx_solver'].get('cfg_path')
                src = e.get('src')
                ctx.ob('configuration', src is not None and (src == ('create_from_file', path) if path else src[0] == 'create_from_dict'),
                       'configured from %r, requested %r' % (src and src[0], path), e.get('where'))
            for k, v in want.items():
                got = e.get(k)
                if k == 'pc' and method == 'iter':
                    ctx.ob('preconditioner %s' % ('on' if v else 'off'), (got is not None) == v, '', e.get('where'))
                else:
                    ctx.ob('option %s' % k, got == v, 'used %r, requested %r' % (got, v), e.get('where'))
        if method != 'spsolve':
            x = asarr(I, r, 'j')
            nrm = norm_of(A.elementwise(lambda p, q: sub(p, q), A.matmul(M, x), b))
            ctx.ob('residual of the answer is checked', checked(ev, nrm), 'run-time checks: %s' % [X.show(c, 160) for c in assured(ev)], w)
        same = list(od.d) == list(opts) and all(dict(od.d[k].d) == dict(v) for k, v in opts.items())
        ctx.ob('options left unchanged', same, '%s' % (od.d,), w)
    J = 'jax_solver'
    confs = [('nothing named', {}, 'iter', {'pc': True}, 'jax_solve'), ('jax defaults', {J: {}}, 'iter', {'pc': True}, 'jax_solve'),
             ('jax preconditioned', {J: {'precond': True}}, 'iter', {'pc': True}, 'jax_solve'),
             ('jax without preconditioner', {J: {'precond': False}}, 'iter', {'pc': False}, 'jax_solve'),
             ('direct', {'spsolve_solver': {}}, 'spsolve', {}, 'scipy_spsolve'),
             ('petsc defaults', {'petsc_solver': {}}, 'ksp', {'ksp': 'bcgsl', 'pc': 'ilu', 'psolver': None}, 'petsc_solve'),
             ('petsc ksp', {'petsc_solver': {'ksp_type': 'minres'}}, 'ksp', {'ksp': 'minres', 'pc': 'ilu'}, 'petsc_solve'),
             ('petsc pc', {'petsc_solver': {'pc_type': 'jacobi'}}, 'ksp', {'ksp': 'bcgsl', 'pc': 'jacobi'}, 'petsc_solve'),
             ('petsc both', {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'none'}}, 'ksp', {'ksp': 'gmres', 'pc': 'none'}, 'petsc_solve'),
             ('petsc tfqmr', {'petsc_solver': {'ksp_type': 'tfqmr', 'pc_type': 'lu'}}, 'ksp', {'ksp': 'tfqmr', 'pc': 'lu'}, 'petsc_solve'),
             ('amgx defaults', {'amgx_solver': {}}, 'amgx', {}, 'AMGX_solve_host'),
             ('amgx configured', {'amgx_solver': {'cfg_path': 'c.json'}}, 'amgx', {}, 'AMGX_solve_host')]
    for nm, o, meth, want, f in confs:
        ctx.scenario(nm, scen, o, meth, want, f)
        if meth in ('iter', 'amgx'):
            ctx.scenario(nm + ', no starting vector', scen, o, meth, want, f, True)

    def custom():
        I, n, M, b, x0, m = sysm()
        got = []

        def cs(I, a, k, node):
            got.append((a, k))
            return symbolic('answer', [n])
        od = PDict(I, {'custom_solver': Native('custom', cs)})
        r = I.call(I.get('jax_fem.solver', 'linear_solver'), [m, b, x0, od], {})
        w = where(I, 'linear_solver')
        ctx.eq('answer of the custom solver is returned', r, symbolic('answer', [n]), w)
        if ctx.ob('custom solver called once', len(got) == 1 and len(got[0][0]) == 4, '', w):
            a = got[0][0]
            ctx.ob('custom solver gets the matrix', a[0] is m, '', w)
            ctx.eq('custom solver gets the right-hand side', a[1], b, w)
            ctx.eq('custom solver gets the starting vector', a[2], x0, w)
            ctx.ob('custom solver gets the options', isinstance(a[3], PDict) and a[3].d.get('custom_solver') is od.d['custom_solver'], '', w)
    ctx.scenario('custom solver', custom)

    def noamgx():
        I = ctx.interp({'imports_fail': ['pyamgx']})
        n = size_sym('n')
        m = NativeObj(I, 'mat', M=symbolic('Mt', [n, n], 'f', 'n'), coo=None, opts=(), id='A', size=(n, n))
        f = I.get('jax_fem.solver', 'linear_solver')
        try:
            I.call(f, [m, symbolic('bb', [n]), None, PDict(I, {'amgx_solver': PDict(I, {})})], {})
            ok = False
        except ProgramRaise:
            ok = True
        ctx.ob('unavailable backend is an error', ok, 'the amgx backend returns although its package is missing', where(I, 'AMGX_solve'))
    ctx.scenario('amgx not installed', noamgx)
