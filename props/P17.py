from .common import *
from .P02 import tangent_check


def run(ctx):
    """Value numbering after initialize_geometric_quantities(points): residual, tangent and every exported geometric
    field are those of the supplied coordinates, none of the mesh's original coordinates survives."""
    def scen(nv, ns, before):
        u = Univ(ctx, nv, ns, True)
        I, W, p = u.I, u.W, u.p
        if before:
            u.method('newton_update', u.sol_list)
        np_ = [symbolic('moved%d' % v, [W.nnt[v], W.dim]) for v in range(nv)]
        u.method('initialize_geometric_quantities', PList(I, np_))
        pts = [(lambda n, i, v=v: app('moved%d' % v, n, i)) for v in range(nv)]
        u.spec.sp = [Spec(W, v, pts[v]) for v in range(nv)]
        w = where_of(I, p, 'initialize_geometric_quantities')
        for which in ('compute_residual', 'newton_update'):
            r = items(u.method(which, u.sol_list))
            for v in range(nv):
                ctx.eq('%s var %d' % (which, v), r[v], u.residual_spec(v), w)
        tangent_check(ctx, u)
        sol = u.sol[0]
        for v, fe in enumerate(items(I.getattr(p, 'fes'))):
            s = u.spec.sp[v]
            ctx.eq('fes[%d].JxW' % v, I.getattr(fe, 'JxW'), Arr([ax(W.nc), ax(W.nq)], lambda i, s=s: s.JxW(*i)), w)
            ctx.eq('fes[%d].shape_grads' % v, I.getattr(fe, 'shape_grads'),
                   Arr([ax(W.nc), ax(W.nq), ax(W.nn[v]), ax(W.dim)], lambda i, s=s: s.grad(*i)), w)
        u.method('initialize_geometric_quantities')
        u.spec.sp = [Spec(W, v) for v in range(nv)]
        r = items(u.method('compute_residual', u.sol_list))
        for v in range(nv):
            ctx.eq('back to mesh coordinates var %d' % v, r[v], u.residual_spec(v), w)
    ctx.scenario('1 variable 1 surface', scen, 1, 1, True)
    ctx.scenario('2 variables 1 surface', scen, 2, 1, False)
    ctx.scenario('1 variable 2 surfaces', scen, 1, 2, False)
    ctx.scenario('3 variables 1 surface', scen, 3, 1, True)

    def maps(m):
        m.check(ctx, 'before: ')
        m.I.call(m.I.getattr(m.p, 'initialize_geometric_quantities'), [PList(m.I, [symbolic('moved', [m.W.nnt[0], m.W.dim])])])
        m.move(lambda n, i: app('moved', n, i))
        m.check(ctx, 'moved: ')
    from .P02 import maps_check
    maps_check(ctx, maps)
