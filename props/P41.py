from .common import *
from jfsa.interp import ProgramError
from jfsa.arr import ShapeError

FE_SRC = 'jax_fem.fe'
LOCF = {0: 'lambda: FLAG', 1: 'lambda p: LOC0(p)', 2: 'lambda p, i: LOC1(p, i)', 3: 'lambda p, i, q: LOC1(p, i)'}


def names():
    nm = {'LOC0': loc_fn('LOC0'), 'LOC1': loc_fn('LOC1'), 'FLAG': True, 'KU': kernel_uf('KU')}
    for k in range(3):
        nm['VAL%d' % k] = ufunc('VAL%d' % k, [])
        nm['KS%d' % k] = kernel_uf('KS%d' % k)
        nm['SM%d' % k] = ufunc('SM%d' % k, lambda a: [a[0].axes[0].size])
    return nm


def cond(locs, nc, nvl):
    return '[[%s], %s, [%s]]' % (', '.join(LOCF[a] for a in locs), [0] * nc, ', '.join('lambda p: VAL%d(p)' % k for k in range(nvl)))


def run(ctx):
    """constant propagation and path analysis of the construction of elements and problems and of the update of Dirichlet conditions for every
    malformed description up to three entries per list: each path must end in a raised error, and each well-formed one in a result"""
    def outcome(key, ok, fn, where):
        try:
            fn()
            got = True
        except (ProgramError, ShapeError) as ex:
            got, why = False, '%s at %s' % (getattr(ex, 'msg', ex), getattr(ex, 'where', None))
        if ok:
            ctx.ob('%s is accepted' % key, got, '' if got else why, where)
        else:
            ctx.ob('%s is refused' % key, not got, 'the description is accepted without an error' if got else '', where)

    def conditions(locs, nc, nvl, update, nv=1):
        I = ctx.interp()
        W = World(I, nv)
        good = len(locs) == nc == nvl and all(a in (1, 2) for a in locs)
        mod = fixture(I, 'BC = %s\nOK = %s\n' % (cond(locs, nc, nvl), cond([1], 1, 1)), names())
        fe_cls = I.get(FE_SRC, 'FiniteElement')
        w = '%s Dirichlet_boundary_conditions' % FE_SRC
        key = 'locations with %s arguments, %d components, %d values' % (list(locs), nc, nvl)
        if update:
            fe = W.fe(0, mod.env.vars['OK'])
            w = where_of(I, fe, 'update_Dirichlet_boundary_conditions')
            outcome(key, good, lambda: I.call(I.getattr(fe, 'update_Dirichlet_boundary_conditions'), [mod.env.vars['BC']]), w)
        else:
            outcome(key, good, lambda: W.fe(0, mod.env.vars['BC']), w)

    def second_variable(locs, nc, nvl):
        I = ctx.interp()
        W = World(I, 2)
        good = len(locs) == nc == nvl and all(a in (1, 2) for a in locs)
        outcome('second variable: locations with %s arguments, %d components, %d values' % (list(locs), nc, nvl), good,
                lambda: W.problem('def get_universal_kernel(self):\n    return KU\n', names(), bc='[%s, %s]' % (cond([1], 1, 1), cond(locs, nc, nvl))),
                'jax_fem.problem Problem.__post_init__')

    def groups(locs, kind, n):
        I = ctx.interp()
        W = World(I, 1)
        body = 'def get_universal_kernel(self):\n    return KU\n'
        if kind == 'maps':
            body += 'def get_surface_maps(self):\n    return [%s]\n' % ', '.join('SM%d' % k for k in range(n))
        elif kind == 'kernels':
            body += 'def get_universal_kernels_surface(self):\n    return [%s]\n' % ', '.join('KS%d' % k for k in range(n))
        good = (len(locs) == n if kind else not locs) and all(a in (1, 2) for a in locs)
        key = 'boundary locations with %s arguments and %s' % (list(locs), '%d surface %s' % (n, kind) if kind else 'no surface definition')
        outcome(key, good, lambda: W.problem(body, names(), locs='[%s]' % ', '.join(LOCF[a] for a in locs) if locs else 'None'),
                'jax_fem.problem Problem.pre_jit_fns')

    def dims(ref, d):
        I = ctx.interp()
        W = World(I, 1, dim=ref)

        def make():
            fe = I.call(I.get(FE_SRC, 'FiniteElement'), [], {'mesh': W.mesh(0), 'vec': W.vec[0], 'dim': d, 'ele_type': W.ele[0], 'quadrature_rule': None,
                                                              'quadrature_order': None, 'dirichlet_bc_info': None})
            return I.call(I.getattr(fe, 'get_shape_grads'), [])
        outcome('%d-dimensional element in a %d-dimensional problem' % (ref, d), ref == d, make, 'jax_fem.fe FiniteElement.get_shape_grads')

    one = lambda k: (1, 2, 1)[:k]
    lens = [(a, b, c) for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3)]
    if not ctx.thorough:
        lens = [t for t in lens if max(t) < 3 or t in ((3, 3, 3), (3, 2, 3), (2, 3, 3), (3, 3, 2), (2, 3, 2))]
    for upd in (False, True):
        for a, b, c in lens:
            ctx.scenario('conditions at %s' % ('update' if upd else 'construction'), conditions, one(a), b, c, upd)
        for locs in ((0,), (3,), (1, 3), (3, 1), (0, 2), (2, 0), (2, 3), (1, 2, 0)):
            ctx.scenario('conditions at %s' % ('update' if upd else 'construction'), conditions, locs, len(locs), len(locs), upd)
    for locs, b, c in (((1,), 1, 1), ((1,), 2, 2), ((1, 2), 2, 1), ((1, 2), 1, 2), ((3,), 1, 1), ((2, 0), 2, 2)):
        ctx.scenario('conditions at construction', second_variable, locs, b, c)
    for kind in ('maps', 'kernels'):
        for m in range(3):
            for n in range(4 if ctx.thorough else 3):
                ctx.scenario('boundary groups', groups, one(m), kind, n)
    for m in range(3):
        ctx.scenario('boundary groups', groups, one(m), None, 0)
    for locs in ((0,), (3,), (1, 3), (0, 2), (2, 3)):
        ctx.scenario('boundary groups', groups, locs, 'kernels', len(locs))
        ctx.scenario('boundary groups', groups, locs, 'maps', len(locs))
    for ref, d in ((2, 2), (3, 3), (2, 3), (3, 2)):
        ctx.scenario('dimensions', dims, ref, d)
