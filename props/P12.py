from .common import *


def run(ctx):
    """Value numbering of the surface geometry: on every selected face the gradients, shape values, points and the
    surface measure (Nanson) are those of the face's own cell and local face number; for the mesh's own and for
    supplied coordinates, per variable and stacked over variables."""
    def bnd_(ns):
        return symbolic('bnd', [ns, 2], 'i')

    def fe_level(custom):
        I = ctx.interp()
        W = World(I)
        fe = W.fe(0)
        sp = Spec(W, 0)
        args = []
        if custom:
            args = [symbolic('newpts', [W.nnt[0], W.dim])]
            sp = Spec(W, 0, lambda n, i: app('newpts', n, i))
        ns = size_sym('nsel')
        b = Arr([ax(ns), ax(2)], lambda i: X.ite(eq(i[1], num(0)), app('bc', i[0]), app('bf', i[0])), 'i', 'n')
        declare('bc', int=True, lo=num(0), hi=W.nc)
        declare('bf', int=True, lo=num(0), hi=W.nf)
        C, F = (lambda s: app('bc', s)), (lambda s: app('bf', s))
        g, n = items(I.call(I.getattr(fe, 'get_face_shape_grads'), [b] + args))
        w = where_of(I, fe, 'get_face_shape_grads')
        ctx.eq('face gradients', g, Arr([ax(ns), ax(W.nfq), ax(W.nn[0]), ax(W.dim)],
                                        lambda i: sp.fgrad(C(i[0]), F(i[0]), *i[1:])), w)
        ctx.eq('surface measure', n, Arr([ax(ns), ax(W.nfq)], lambda i: sp.nanson(C(i[0]), F(i[0]), i[1])), w)
        x = I.call(I.getattr(fe, 'get_physical_surface_quad_points'), [b] + args)
        ctx.eq('surface quadrature points', x, Arr([ax(ns), ax(W.nfq), ax(W.dim)],
                                                   lambda i: sp.fxq(C(i[0]), F(i[0]), i[1], i[2])),
               where_of(I, fe, 'get_physical_surface_quad_points'))

    def problem_level(nv, ns):
        u = Univ(ctx, nv, ns, False)
        W, I, p = u.W, u.I, u.p
        sps = [Spec(W, v) for v in range(nv)]
        w = where_of(I, p, 'initialize_geometric_quantities')
        g = lambda n, k: items(I.getattr(p, n))[k]
        for nm in ('nanson_scale', 'selected_face_shape_grads', 'selected_face_shape_vals', 'physical_surface_quad_points'):
            ctx.ob('%s has one entry per boundary set' % nm, len(items(I.getattr(p, nm))) == ns, '', w)
        for k in range(ns):
            b = u.bnd[k]
            nf = b.axes[0].size
            C = lambda s: b.get([s, num(0)])
            F = lambda s: b.get([s, num(1)])
            ctx.eq('set %d measure' % k, g('nanson_scale', k), A.transpose(A.stack(
                [Arr([ax(nf), ax(W.nfq)], lambda i, s=s: s.nanson(C(i[0]), F(i[0]), i[1])) for s in sps]), (1, 0, 2)), w)
            ctx.eq('set %d gradients' % k, g('selected_face_shape_grads', k), cat(
                [Arr([ax(nf), ax(W.nfq), ax(W.nn[v]), ax(W.dim)],
                     lambda i, s=sps[v]: s.fgrad(C(i[0]), F(i[0]), *i[1:])) for v in range(nv)], 2), w)
            ctx.eq('set %d shape values' % k, g('selected_face_shape_vals', k), cat(
                [Arr([ax(nf), ax(W.nfq), ax(W.nn[v])], lambda i, s=sps[v]: s.fN(F(i[0]), *i[1:])) for v in range(nv)], 2), w)
            ctx.eq('set %d points' % k, g('physical_surface_quad_points', k),
                   Arr([ax(nf), ax(W.nfq), ax(W.dim)], lambda i: sps[0].fxq(C(i[0]), F(i[0]), i[1], i[2])), w)
    ctx.scenario('mesh coordinates', fe_level, False)
    ctx.scenario('supplied coordinates', fe_level, True)
    for nv, ns in ((1, 2), (2, 1), (3, 2)) + (((4, 1), (4, 2)) if ctx.thorough else ()):
        ctx.scenario('%d variables %d sets' % (nv, ns), problem_level, nv, ns)

    from .P02 import maps_check
    maps_check(ctx, lambda m: m.check(ctx, '', False) if m.ns else None)
