from .newton import *


def run(ctx):
    """Inductive-invariant check of the Newton loop of solver(): every quantity tested by the loop guard and every
    quantity passed to the linear solve is, at loop entry and after the loop body, the stated function (row-eliminated
    residual, its norm, ratio to the initial norm, row-eliminated tangent) of the current dofs; the update is
    dofs + solution of (tangent at dofs) d = -(residual at dofs); the only exit is the negated guard and it is
    followed by finiteness assertions on the returned dofs and the residual norm."""
    def scen(nv, nbc, pmat, opts, guess):
        s = SP(ctx, nv, nbc, pmat)
        stub_linear(s)
        cfg, tol, rtol = {}, TOL, RTOL
        if opts:
            tol, rtol = X.sym('tol', pos=True), X.sym('rel_tol', pos=True)
            cfg.update(tol=tol, rel_tol=rtol)
        d0 = zeros_of(s.nred if pmat else s.ntot)
        if guess:
            g = [symbolic('g%d' % v, [s.nnt[v], s.vec[v]], 'f', 'n' if s.I.fx else 'j') for v in range(nv)]
            cfg['initial_guess'] = PList(s.I, g)
            d0 = s.vec_of([lambda n, d, v=v: app('g%d' % v, n, d) for v in range(nv)])
        run_newton(ctx, s, cfg, d0, tol, rtol)
    confs = [(1, 1, False, False, False), (2, 1, False, True, True), (1, 1, True, False, False)]
    confs += [(3, 1, False, False, False), (2, 1, True, True, False), (1, 0, False, True, True), (1, 1, False, True, True)]
    if ctx.thorough:
        confs += [(2, 2, True, True, False), (3, 1, False, True, True), (1, 3, False, False, False)]
    for nv, nbc, pm, o, g in confs:
        ctx.scenario('%d variables %d conditions%s%s%s' % (nv, nbc, ' constraints' if pm else '', ' tolerances' if o else '',
                                                         ' initial guess' if g else ''), scen, nv, nbc, pm, o, g)
