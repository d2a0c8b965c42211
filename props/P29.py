from .common import *


def run(ctx):
    """Value numbering of convert_from_dof_to_quad, convert_from_dof_to_face_quad and sol_to_grad: interpolation of the
    cell's own nodal values with the shape functions (gradients) of the same point."""
    def scen():
        u = Univ(ctx, 1, 1, False)
        I, W, p = u.I, u.W, u.p
        fe = items(I.getattr(p, 'fes'))[0]
        sp = Spec(W)
        k = size_sym('k')
        sol = symbolic('v', [W.nnt[0], k])
        U = lambda c, a, d: app('v', sp.cell(c, a), d)
        call = lambda nm, *a: (I.call(I.getattr(fe, nm), list(a)), where_of(I, fe, nm))
        r, w = call('convert_from_dof_to_quad', sol)
        ctx.eq('quad values', r, Arr([ax(W.nc), ax(W.nq), ax(k)],
                                     lambda i: S(W.nn[0], lambda a: mul(sp.N(i[1], a), U(i[0], a, i[2])))), w)
        r, w = call('sol_to_grad', sol)
        ctx.eq('quad gradients', r, Arr([ax(W.nc), ax(W.nq), ax(k), ax(W.dim)],
                                        lambda i: S(W.nn[0], lambda a: mul(sp.grad(i[0], i[1], a, i[3]), U(i[0], a, i[2])))), w)
        b = u.bnd[0]
        r, w = call('convert_from_dof_to_face_quad', sol, b)
        C, F = (lambda s: b.get([s, num(0)])), (lambda s: b.get([s, num(1)]))
        ctx.eq('face values', r, Arr([b.axes[0], ax(W.nfq), ax(k)],
                                     lambda i: S(W.nn[0], lambda a: mul(sp.fN(F(i[0]), i[1], a), U(C(i[0]), a, i[2])))), w)
        np_ = [symbolic('moved', [W.nnt[0], W.dim])]
        u.method('initialize_geometric_quantities', PList(I, np_))
        s2 = Spec(W, 0, lambda n, i: app('moved', n, i))
        r, w = call('sol_to_grad', sol)
        ctx.eq('quad gradients on moved mesh', r, Arr([ax(W.nc), ax(W.nq), ax(k), ax(W.dim)],
               lambda i: S(W.nn[0], lambda a: mul(s2.grad(i[0], i[1], a, i[3]), U(i[0], a, i[2])))), w)
        r, w = call('convert_from_dof_to_quad', sol)
        ctx.eq('quad values on moved mesh', r, Arr([ax(W.nc), ax(W.nq), ax(k)],
                                                   lambda i: S(W.nn[0], lambda a: mul(sp.N(i[1], a), U(i[0], a, i[2])))), w)
        r, w = call('convert_from_dof_to_face_quad', sol, b)
        ctx.eq('face values on moved mesh', r, Arr([b.axes[0], ax(W.nfq), ax(k)],
                                                   lambda i: S(W.nn[0], lambda a: mul(sp.fN(F(i[0]), i[1], a), U(C(i[0]), a, i[2])))), w)
    ctx.scenario('interpolation', scen)
