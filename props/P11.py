from .common import *


def run(ctx):
    """Value numbering of the volume geometry: shape-function gradients are reference gradients times the inverse
    Jacobian of the isoparametric map of the same cell and point, the integration weight is the determinant times the
    quadrature weight, quadrature points are the mapped reference points; for the mesh's own and for supplied
    coordinates, per variable and stacked over variables."""
    def fe_level(custom):
        I = ctx.interp()
        W = World(I)
        fe = W.fe(0)
        sp = Spec(W, 0)
        args = []
        if custom:
            q = symbolic('newpts', [W.nnt[0], W.dim])
            args = [q]
            sp = Spec(W, 0, lambda n, i: app('newpts', n, i))
        g, jw = items(I.call(I.getattr(fe, 'get_shape_grads'), args))
        w = where_of(I, fe, 'get_shape_grads')
        ctx.eq('shape function gradients', g, Arr([ax(W.nc), ax(W.nq), ax(W.nn[0]), ax(W.dim)], lambda i: sp.grad(*i)), w)
        ctx.eq('integration weights', jw, Arr([ax(W.nc), ax(W.nq)], lambda i: sp.JxW(*i)), w)
        x = I.call(I.getattr(fe, 'get_physical_quad_points'), args)
        ctx.eq('quadrature points', x, Arr([ax(W.nc), ax(W.nq), ax(W.dim)], lambda i: sp.xq(*i)),
               where_of(I, fe, 'get_physical_quad_points'))

    def problem_level(nv):
        u = Univ(ctx, nv, 0, False)
        W, I, p = u.W, u.I, u.p
        sps = [Spec(W, v) for v in range(nv)]
        w = where_of(I, p, 'initialize_geometric_quantities')
        g = lambda n: I.getattr(p, n)
        ctx.eq('problem.JxW', g('JxW'), A.transpose(A.stack(
            [Arr([ax(W.nc), ax(W.nq)], lambda i, s=s: s.JxW(*i)) for s in sps]), (1, 0, 2)), w)
        ctx.eq('problem.shape_grads', g('shape_grads'), cat(
            [Arr([ax(W.nc), ax(W.nq), ax(W.nn[v]), ax(W.dim)], lambda i, s=sps[v]: s.grad(*i)) for v in range(nv)], 2), w)
        ctx.eq('problem.v_grads_JxW', g('v_grads_JxW'), cat(
            [Arr([ax(W.nc), ax(W.nq), ax(W.nn[v]), ax(1), ax(W.dim)],
                 lambda i, s=sps[v]: s.vJ(i[0], i[1], i[2], i[4])) for v in range(nv)], 2), w)
        ctx.eq('problem.physical_quad_points', g('physical_quad_points'),
               Arr([ax(W.nc), ax(W.nq), ax(W.dim)], lambda i: sps[0].xq(*i)), w)
        for v, fe in enumerate(items(g('fes'))):
            ctx.eq('fes[%d].shape_grads' % v, I.getattr(fe, 'shape_grads'),
                   Arr([ax(W.nc), ax(W.nq), ax(W.nn[v]), ax(W.dim)], lambda i, s=sps[v]: s.grad(*i)), w)
            ctx.eq('fes[%d].JxW' % v, I.getattr(fe, 'JxW'), Arr([ax(W.nc), ax(W.nq)], lambda i, s=sps[v]: s.JxW(*i)), w)
    ctx.scenario('mesh coordinates', fe_level, False)
    ctx.scenario('supplied coordinates', fe_level, True)
    for nv in ((1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3)):
        ctx.scenario('%d variables' % nv, problem_level, nv)
