from .newton import *


def search_scen(ctx, nv, nbc, pmat):
    s = SP(ctx, nv, nbc, pmat)
    I = s.I
    size = s.nred if pmat else s.ntot
    u, d = symbolic('u', [size]), symbolic('inc', [size])
    w = where_fn(s, 'line_search')
    r = asarr(I, s.call('line_search', s.p, u, d), 'j')
    pt = lambda a: A.elementwise(lambda x, y: add(x, mul(a, y)), u, d)
    N = [norm_of(red_residual(s, pt(num(a)))) for a in ('1', '1/2', '1/4', '1/8')]
    al = num('1/8')
    for a, k in (('1/4', 3), ('1/2', 2), ('1', 1)):
        al = X.ite(X.lt(N[k - 1], N[k]), num(a), al)
    ctx.eq('accepted point', r, pt(al), w)
    ctx.ob('no run-time loop left', not I.loops, '', w)


def run(ctx):
    """Value numbering of line_search: the returned point is dofs + alpha * increment with alpha the last of
    1, 1/2, 1/4, 1/8 reached by halving while the norm of the row-eliminated (and, with constraints, reduced) residual
    does not grow; the residual used is that of the trial point, Dirichlet conditions included."""
    confs = [(1, 1, False), (1, 1, True), (2, 0, False)]
    confs += [(2, 1, False), (2, 0, True)]
    if ctx.thorough:
        confs += [(3, 2, False), (2, 2, True)]
    for nv, nbc, pm in confs:
        ctx.scenario('%d variables %d conditions%s' % (nv, nbc, ' constraints' if pm else ''), search_scen, ctx, nv, nbc, pm)
