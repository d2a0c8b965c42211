from .common import *
from jfsa.m_ext import coo_dense


def offsets(W):
    out, o = [], num(0)
    for v in range(W.nv):
        out.append(o)
        o = add(o, mul(W.nnt[v], W.vec[v]))
    return out, norm(o)


def tangent_check(ctx, u, name=''):
    """dense meaning of (I,J,V) equals d residual / d dofs, block by block"""
    I, W, p = u.I, u.W, u.p
    off, tot = offsets(W)
    M = coo_dense(I, I.getattr(p, 'I'), I.getattr(p, 'J'), I.getattr(p, 'V'), tot, tot)
    for v in range(W.nv):
        R = u.residual_spec(v)
        for w in range(W.nv):
            n, d = fresh('n', W.nnt[v]), fresh('d', W.vec[v])
            m, e = fresh('m', W.nnt[w]), fresh('e', W.vec[w])
            got = M.get([add(off[v], mul(n, W.vec[v]), d), add(off[w], mul(m, W.vec[w]), e)])
            want = X.diff(R.get([n, d]), 'u%d' % w, (m, e))
            ctx.eqs('%stangent block (%d,%d)' % (name, v, w), got, want, where_of(I, p, 'compute_newton_vars'))


def maps_check(ctx, f):
    """problems stated by constitutive maps instead of universal kernels"""
    from .P15 import Maps
    for nm, a in (('flux, mass and surface maps', (True, True, 'map', False, True, 1)), ('maps and kernels', (True, True, 'both', True, True, 2)),
                  ('mass map', (False, True, None, False, False, 0)), ('flux map, surface kernels', (True, False, 'univ', False, True, 1))):
        ctx.scenario(nm, lambda a=a: f(Maps(ctx, *a)))


def run(ctx):
    """Value numbering of newton_update: the matrix denoted by the triplets (I, J, V) equals, block by block, the
    derivative of the residual with respect to the degrees of freedom (product/chain rule on closed forms), its
    residual equals compute_residual, and a second call replaces the values of the first."""
    def scen(nv, ns, iv):
        u = Univ(ctx, nv, ns, iv)
        r = items(u.method('newton_update', u.sol_list))
        ctx.ob('one residual per variable', len(r) == nv, '%d entries' % len(r))
        for v in range(nv):
            ctx.eq('newton_update residual of variable %d' % v, r[v], u.residual_spec(v), where_of(u.I, u.p, 'compute_newton_vars'))
        tangent_check(ctx, u)
        ctx.eqs('number of dofs', u.I.getattr(u.p, 'num_total_dofs_all_vars'), offsets(u.W)[1])

    def again():
        u = Univ(ctx, 1, 1, True)
        u.method('newton_update', PList(u.I, [symbolic('w0', [u.W.nnt[0], u.W.vec[0]])]))
        u.method('newton_update', u.sol_list)
        tangent_check(ctx, u, 'second call: ')
    confs = [(1, 2, True), (2, 1, True), (1, 0, False)]
    confs += [(3, 2, True), (2, 2, True), (2, 0, False)]
    if ctx.thorough:
        confs += [(4, 2, True), (3, 0, False)]
    for nv, ns, iv in confs:
        ctx.scenario('%d variables %d surfaces%s' % (nv, ns, ' internal vars' if iv else ''), scen, nv, ns, iv)
    ctx.scenario('two calls', again)
    maps_check(ctx, lambda m: m.check(ctx))
