"""fixtures shared by several checks"""
from jfsa.harness import *
from jfsa.femspec import *
from jfsa import femspec as FS
from jfsa import arr as A
from jfsa import expr as X
from jfsa.m_core import asarr

LOCS = '[lambda p: LOC0(p), lambda p, i: LOC1(p, i)]'


def loc_fn(name):
    return ufunc(name, [], 'b')


def where_of(I, obj, name):
    f = I.getattr(obj, name)
    fn = getattr(f, 'fn', f)
    n = getattr(fn, 'node', None)
    return '%s:%s %s' % (getattr(fn, 'module', '?'), getattr(n, 'lineno', '?'), name)


class Univ:
    """Problem with a universal volume kernel KU, ns universal surface kernels
    KS<k>, one internal variable per cell/quad and one on surface 0"""

    def __init__(self, ctx, nv=1, ns=2, iv=True, bc='None', names=None, extra_body='', config=None, dim=None):
        self.I = I = ctx.interp(config)
        self.W = W = World(I, nv, dim=dim)
        self.nv, self.ns = nv, ns
        nm = {'KU': kernel_uf('KU'), 'LOC0': loc_fn('LOC0'), 'LOC1': loc_fn('LOC1')}
        for k in range(ns):
            nm['KS%d' % k] = kernel_uf('KS%d' % k)
        body = 'def get_universal_kernel(self):\n    return KU\n'
        if ns:
            body += 'def get_universal_kernels_surface(self):\n    return [%s]\n' % ', '.join('KS%d' % k for k in range(ns))
        self.iv, self.ivs = [], [[] for _ in range(ns)]
        if iv:
            si = size_sym('s_iv')
            self.IV = symbolic('IV', [W.nc, W.nq, si])
            nm['IV'] = self.IV
            self.iv = [lambda c: Arr([ax(W.nq), ax(si)], lambda i: app('IV', c, *i))]
            body += 'def custom_init(self):\n    self.internal_vars = [IV]\n'
            if ns:
                body += '    self.internal_vars_surfaces = [[mkIS(self.boundary_inds_list[0])]%s]\n' % (', []' * (ns - 1))
                nm['mkIS'] = Native('mkIS', lambda I_, a, k, n: Arr([a[0].axes[0], ax(W.nfq)], lambda i: app('IS', *i)))
                self.ivs[0] = [lambda s: Arr([ax(W.nfq)], lambda i: app('IS', s, *i))]
        if names:
            nm.update(names)
        locs = 'None' if not ns else '[' + ', '.join(['lambda p: LOC0(p)', 'lambda p, i: LOC1(p, i)'][:ns]) + ']'
        self.p = W.problem(body + extra_body, nm, bc=bc, locs=locs)
        self.sol = [symbolic('u%d' % v, [W.nnt[v], W.vec[v]]) for v in range(nv)]
        self.sol_list = PList(I, list(self.sol))
        self.bnd = list(self.I.getattr(self.p, 'boundary_inds_list').items)
        self.spec = Problem_(W, [lambda n, d, v=v: app('u%d' % v, n, d) for v in range(nv)], self.iv, self.bnd, self.ivs)

    def method(self, name, *args, **kw):
        return self.I.call(self.I.getattr(self.p, name), list(args), kw)

    def residual_spec(self, v):
        return self.spec.residual(v, self.spec.uf_cell('KU'), self.spec.uf_face(['KS%d' % k for k in range(self.ns)]))


def items(x):
    return list(x.items) if hasattr(x, 'items') and not isinstance(x, Arr) else list(x)
