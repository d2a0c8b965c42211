from .common import *
from jfsa.interp import PDict, NativeObj


def where_fn(I, name):
    return 'jax_fem.mma:%s %s' % (getattr(I.get('jax_fem.mma', name).node, 'lineno', '?'), name)


def dense(I, x):
    return x.s['M'] if isinstance(x, NativeObj) and isinstance(x.s.get('M'), Arr) else asarr(I, x, 'j')


def setup(ctx, nfl=None):
    I = ctx.interp()
    W = World(I, 1)
    nfl = nfl if nfl is not None else size_sym('nfl')
    fe = W.fe(0, None)
    I.setattr(fe, 'JxW', symbolic('JxW', [W.nc, W.nq], 'f', 'j'))
    I.setattr(fe, 'flex_inds', symbolic('flex', [nfl], 'i', 'n', hi=W.nc))
    return I, W, fe, nfl


def kd(I):
    """the nearest-neighbour search that was made: (points searched, uf names)"""
    return I.kdq


def weights(ctx):
    I, W, fe, n = setup(ctx)
    w = where_fn(I, 'compute_filter_kd_tree')
    r = items(I.call(I.get('jax_fem.mma', 'compute_filter_kd_tree'), [fe]))
    if not ctx.ob('weights and row sums', len(r) == 2, '', w):
        return
    H, Hs = dense(I, r[0]), dense(I, r[1])
    q = [e for e in I.events if e['kind'] == 'kdquery']
    if not ctx.ob('one neighbour search', len({o.s['id'] for o, _ in kd(I)}) == 1 and q, '%d' % len(q), w):
        return
    o = kd(I)[0][0]
    cen = lambda c, d: S(W.nn[0], lambda a: mul(app('pts', app('cells', c, a), d), div(1, W.nn[0])))
    j = fresh('j', n)
    ctx.eq('points searched are the centroids of the flexible cells', o.s['pts'],
           Arr([ax(n), ax(W.dim)], lambda i: cen(app('flex', A.flat_index(i[0])), A.flat_index(i[1]))), w)
    k = X.emin(num(20), n)
    for e in q:
        ctx.eqs('neighbours searched', e['k'], k, e['where'])
    vol = S(W.nc, lambda c: S(W.nq, lambda p: app('JxW', c, p)))
    rmin = mul(num('3/2'), power(div(vol, W.nc), div(1, W.dim)))

    def h(i, jj):
        d = fresh('d', W.dim)
        pl = X.lam((d,), norm(cen(app('flex', i), d)))
        dist = lambda r_: X.uf('kd_d%d' % o.s['id'], [pl], [r_])
        ind = lambda r_: X.uf('kd_i%d' % o.s['id'], [pl], [r_])
        return S(k, lambda r_: mul(eq(ind(r_), jj), X.emax(sub(rmin, dist(r_)), num(0))))
    want = Arr([ax(n), ax(n)], lambda i: h(A.flat_index(i[0]), A.flat_index(i[1])))
    ctx.eq('weights', H, want, w)
    ctx.eq('row sums', A.ravel(Hs), Arr([ax(n)], lambda i: S(n, lambda jj: h(A.flat_index(i[0]), jj))), w)


def filters(ctx):
    I = ctx.interp()
    n, m = size_sym('nvar'), size_sym('m')
    from jfsa.m_ext import mk_sp
    ft = fixture(I, 'from jax.experimental.sparse import BCOO\nH = BCOO.fromdense(Hd)\nft = {"H": H, "Hs": Hs}\n',
                 {'Hd': symbolic('H', [n, n], 'f', 'j'), 'Hs': symbolic('Hs', [n], 'f', 'j')}, 'filt').env.vars['ft']
    rho, dJ, dvc = symbolic('rho', [n, 1], 'f', 'n'), symbolic('dJ', [n, 1], 'f', 'n' if I.fx else 'j'), symbolic('dvc', [m, n, 1], 'f', 'n' if I.fx else 'j')
    w = where_fn(I, 'applyDensityFilter')
    r = I.call(I.get('jax_fem.mma', 'applyDensityFilter'), [ft, rho])
    ctx.eq('filtered density', dense(I, r), Arr([ax(n), ax(num(1))], lambda i: div(S(n, lambda j: mul(app('H', A.flat_index(i[0]), j), app('rho', j, num(0)))), app('Hs', A.flat_index(i[0])))), w)
    w = where_fn(I, 'applySensitivityFilter')
    r = items(I.call(I.get('jax_fem.mma', 'applySensitivityFilter'), [ft, rho, dJ, dvc]))
    if ctx.ob('two filtered sensitivities', len(r) == 2, '', w):
        f = lambda j: div(app('rho', j, num(0)), mul(X.emax(num('1/1000'), app('rho', j, num(0))), app('Hs', j)))
        ctx.eq('objective sensitivity', dense(I, r[0]), Arr([ax(n), ax(num(1))], lambda i: S(n, lambda j: mul(app('H', A.flat_index(i[0]), j), f(j), app('dJ', j, num(0))))), w)
        ctx.eq('constraint sensitivities', dense(I, r[1]), Arr([ax(m), ax(n), ax(num(1))], lambda i: S(n, lambda j: mul(app('H', A.flat_index(i[1]), j), f(j), app('dvc', A.flat_index(i[0]), j, num(0))))), w)


def run(ctx):
    """Value numbering of the filter: the neighbour search runs over the centroids of the flexible cells with at most as
    many neighbours as there are cells, the weight matrix holds max(radius - distance, 0) at the neighbours found and
    nothing elsewhere, and the density and sensitivity filters are the stated weighted sums."""
    ctx.scenario('weights', weights, ctx)
    ctx.scenario('filters', filters, ctx)
