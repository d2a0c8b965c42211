from .newton import *

CHANGES = ['values', 'nodes', 'components', 'all', 'fewer', 'more', 'in place', 'other problem', 'constraints added', 'constraints replaced',
           'constraints replaced, same size', 'constraints changed in place',
           'constraints removed', 'parameters', 'matrix only']


def run(ctx):
    """Value numbering of two consecutive solves of the same problem object with its Dirichlet data, constraint matrix
    or parameters replaced in between (nodes only, components only, values only, fewer, more, list entries replaced in
    place), and of solves of two problems interleaved: the second solve satisfies every obligation of the Newton check with the
    data in force when it is called."""
    def scen(nv, change):
        pm = change.startswith(('constraints replaced', 'constraints removed', 'constraints changed'))
        s = SP(ctx, nv, 1, pm)
        I = s.I
        stub_linear(s)
        go = lambda p=None, state=(): run_newton(ctx, s, {}, zeros_of(s.nred if s.P is not None else s.ntot), TOL, RTOL, p, state)
        if change != 'matrix only':
            s.call('solver', s.p, PDict(I, {}))
        else:
            s.call('get_A', s.p)
        st = ()
        I.loops = []
        old = [[items(I.getattr(fe, k))[0] for fe in s.fes] for k in ('node_inds_list', 'vec_inds_list', 'vals_list')]
        if change in ('all', 'matrix only'):
            s.set_bc('x')
        elif change == 'fewer':
            s.set_bc('x', 0)
        elif change == 'more':
            s.set_bc('x', 2)
        elif change in ('values', 'nodes', 'components', 'in place'):
            keep = {'values': (0, 1), 'nodes': (1, 2), 'components': (0, 2), 'in place': ()}[change]
            lists = [[I.getattr(fe, k) for fe in s.fes] for k in ('node_inds_list', 'vec_inds_list', 'vals_list')]
            s.bc_one('y', keep, lists, change == 'in place')
        elif change == 'constraints added':
            s.add_P('Q')
        elif change == 'constraints replaced':
            s.add_P('Q', norm(add(s.nred, 1)))
        elif change in ('constraints replaced, same size', 'constraints changed in place'):
            s.add_P('Q', s.nred, change.endswith('place'))
        elif change == 'constraints removed':
            I.delattr(s.p, 'P_mat')
            s.P = None
        elif change == 'parameters':
            par = symbolic('par', [size_sym('npar')])
            I.call(I.getattr(s.p, 'set_params'), [par], {})
            st = [lam_of(par)]
        if change == 'other problem':
            q = I.call(s.mod.env.vars['mk'], [], {})
            s.fes = [I.call(s.mod.env.vars['mkfe'], [], {}) for _ in range(nv)]
            for v, fe in enumerate(s.fes):
                for k, x in (('vec', s.vec[v]), ('num_total_nodes', s.nnt[v]), ('num_total_dofs', norm(mul(s.nnt[v], s.vec[v])))):
                    I.setattr(fe, k, x)
            s.set_bc('z')
            s.setup(q, 'q')
            s.p = q
            go(q)
            return
        go(state=st)
    for ch in CHANGES:
        ctx.scenario('second solve after change: %s' % ch, scen, 1, ch)
    if ctx.thorough:
        for ch in CHANGES:
            ctx.scenario('2 variables, second solve after change: %s' % ch, scen, 2, ch)
