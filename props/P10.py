from .adjoint import *


def run(ctx):
    """Value numbering and loop invariants with a constraint matrix P set on the problem: the Newton iteration solves
    P^T A P against -P^T r at P x, the tangent returned is the reduced one, the returned solution is P x, the linear
    solve starts from a vector of the reduced size, the line search measures the reduced residual, and gradients use
    the reduced transposed tangent with P applied to the result."""
    def newton(nv, nbc):
        s = SP(ctx, nv, nbc, True)
        stub_linear(s)
        run_newton(ctx, s, {}, zeros_of(s.nred), TOL, RTOL)
        for e in [e for e in s.I.events if e['kind'] == 'lin']:
            x0 = e.get('x0')
            ok = x0 is None or isinstance(x0, Arr) and x0.ndim == 1 and A.same_size(x0.axes[0].size, s.nred)
            ctx.ob('starting vector of the linear solve has the reduced size', ok, '', e['where'])

    def matrix(nv, nbc):
        s = SP(ctx, nv, nbc, True)
        s.I.setattr(s.p, 'V', symbolic('V1', [s.nnz], 'f', 'n'))
        m = s.call('get_A', s.p)
        ctx.eq('reduced matrix', m.s['M'], s.A_red(V=symbolic('V1', [s.nnz], 'f', 'n')), where_fn(s, 'get_A'))

    def search(nv):
        from . import P21
        P21.search_scen(ctx, nv, 1, True)
    confs = [(1, 1), (2, 1), (1, 0), (1, 2)] + ([(3, 1), (2, 2), (4, 1)] if ctx.thorough else [])
    for nv, nbc in confs:
        ctx.scenario('newton, %d variables %d conditions' % (nv, nbc), newton, nv, nbc)
        ctx.scenario('matrix, %d variables %d conditions' % (nv, nbc), matrix, nv, nbc)
    ctx.scenario('line search', search, 1)
    ctx.scenario('gradient', gradient_scen, ctx, 1, 1, True, 'array', False, False)
    ctx.scenario('gradient 2 variables', gradient_scen, ctx, 2, 1, True, 'list', True, True)
    ctx.scenario('line search 2 variables', search, 2)
