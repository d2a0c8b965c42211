from .solverworld import *


def run(ctx):
    """Value numbering of apply_bc_vec, apply_bc, assign_bc and of the tangent built by get_A: for any residual, any
    dofs and any number of conditions, constrained entries of the residual become dof minus prescribed value (later
    conditions win), constrained matrix rows become identity rows, every other entry is unchanged, for all
    variables."""
    def mod_where(s, name):
        f = s.fn(name)
        return 'jax_fem.solver:%s %s' % (getattr(f.node, 'lineno', '?'), name)

    def vecs(nv, nbc):
        s = SP(ctx, nv, nbc)
        I = s.I
        r, u = s.dofs('r'), s.dofs('u')
        sc = X.sym('scale')
        ctx.eq('eliminated residual', s.call('apply_bc_vec', r, u, s.p), s.bc_res(s.split(r), s.split(u)), mod_where(s, 'apply_bc_vec'))
        ctx.eq('eliminated residual, scaled', s.call('apply_bc_vec', r, u, s.p, sc), s.bc_res(s.split(r), s.split(u), sc),
               mod_where(s, 'apply_bc_vec'))
        rf = ufunc('rf', [s.ntot])
        g = s.call('apply_bc', rf, s.p)
        want = Arr([ax(s.ntot)], lambda i: X.uf('rf', [lam_of(u)], [A.flat_index(i[0])]))
        ctx.eq('wrapped residual function', I.call(g, [u]), s.bc_res(s.split(want), s.split(u)), mod_where(s, 'apply_bc'))
        g = s.call('apply_bc', rf, s.p, sc)
        ctx.eq('wrapped residual function, scaled', I.call(g, [u]), s.bc_res(s.split(want), s.split(u), sc), mod_where(s, 'apply_bc'))
        ctx.eq('assigned boundary values', s.call('assign_bc', u, s.p),
               s.vec_of([s.over(v, s.split(u)[v], lambda b, n, d: b) for v in range(nv)]), mod_where(s, 'assign_bc'))

    def mats(nv, nbc):
        s = SP(ctx, nv, nbc)
        s.I.setattr(s.p, 'V', symbolic('V1', [s.nnz], 'f', 'n'))
        m = s.call('get_A', s.p)
        ctx.eq('matrix', m.s['M'], s.A_full(V=symbolic('V1', [s.nnz], 'f', 'n')), mod_where(s, 'get_A'))
        ctx.ob('matrix is assembled', m.s.get('ready', True), '', mod_where(s, 'get_A'))

    def csr(nv, nbc):
        s = SP(ctx, nv, nbc)
        u = s.dofs('u')
        m = s.call('assembleCSR', s.p, u)
        ctx.eq('assembleCSR matrix', m.s['M'], s.A_full(u), mod_where(s, 'assembleCSR'))
    confs = [(1, 1), (1, 2), (2, 1), (1, 0)]
    confs += [(2, 2), (3, 1), (1, 3)]
    if ctx.thorough:
        confs += [(3, 2), (2, 3), (4, 1)]
    for nv, nbc in confs:
        ctx.scenario('%d variables %d conditions' % (nv, nbc), vecs, nv, nbc)
        ctx.scenario('matrix %d variables %d conditions' % (nv, nbc), mats, nv, nbc)
    for nv, nbc in ((1, 1), (2, 1)):
        ctx.scenario('dynamic relaxation matrix %d variables %d conditions' % (nv, nbc), csr, nv, nbc)
