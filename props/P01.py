from .common import *


def run(ctx):
    """Value numbering of Problem.__init__ + compute_residual for a generic mesh: the residual of every variable is
    the sum over all cells and all selected faces of the user kernel applied to that cell's (face's) data, each
    exactly once, scattered to the rows of its own nodes; equality of closed forms with an independent
    specification."""
    def scen(nv, ns, iv):
        u = Univ(ctx, nv, ns, iv)
        r = items(u.method('compute_residual', u.sol_list))
        ctx.ob('one residual per variable', len(r) == nv, '%d entries' % len(r))
        for v in range(nv):
            ctx.eq('residual of variable %d' % v, r[v], u.residual_spec(v), where_of(u.I, u.p, 'compute_residual_vars'))
        # what user kernels take the variables of a cell apart with
        I, W, w = u.I, u.W, 'jax_fem/problem.py Problem.__post_init__'
        cs = asarr(I, I.getattr(u.p, 'num_nodes_cumsum'), 'n')
        for v in range(nv + 1):
            t = num(0)
            for k in range(v):
                t = add(t, W.nn[k])
            ctx.eqs('node offset %d' % v, cs.get([num(v)]), t, w)
        t = num(0)
        for v in range(nv):
            t = add(t, mul(W.nn[v], W.vec[v]))
        flat = symbolic('flat', [norm(t)])
        parts = items(I.call(I.getattr(u.p, 'unflatten_fn_dof'), [flat]))
        o = num(0)
        for v in range(nv):
            ctx.eq('dofs of variable %d in a cell' % v, parts[v], Arr([ax(W.nn[v]), ax(W.vec[v])],
                   lambda i, o=o, v=v: app('flat', norm(add(o, mul(i[0], W.vec[v]), i[1])))), w)
            o = add(o, mul(W.nn[v], W.vec[v]))
    confs = [(1, 2, True), (2, 1, True), (1, 0, True)]
    confs += [(3, 2, True), (2, 2, True), (2, 0, False)]
    if ctx.thorough:
        confs += [(4, 2, True), (3, 0, False)]
    for nv, ns, iv in confs:
        ctx.scenario('%d variables %d surfaces%s' % (nv, ns, ' internal vars' if iv else ''), scen, nv, ns, iv)
    from .P02 import maps_check
    maps_check(ctx, lambda m: m.check(ctx, '', False))
