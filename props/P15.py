from .common import *
from jfsa.m_ext import coo_dense


class Maps:
    def __init__(self, ctx, tm, mm, sm, ku, iv, ns):
        self.I = I = ctx.interp()
        self.W = W = World(I, 1)
        like = lambda arrs: arrs[0].axes
        nm = {'TM': kernel_uf('TM', like), 'MM': kernel_uf('MM', like), 'KU': kernel_uf('KU'),
              'LOC0': loc_fn('LOC0'), 'LOC1': loc_fn('LOC1')}
        body = ''
        if tm:
            body += 'def get_tensor_map(self):\n    return TM\n'
        if mm:
            body += 'def get_mass_map(self):\n    return MM\n'
        if ku:
            body += 'def get_universal_kernel(self):\n    return KU\n'
        for k in range(ns):
            nm['SM%d' % k] = kernel_uf('SM%d' % k, like)
            nm['KS%d' % k] = kernel_uf('KS%d' % k)
        if ns and sm in ('map', 'both'):
            body += 'def get_surface_maps(self):\n    return [%s]\n' % ', '.join('SM%d' % k for k in range(ns))
        if ns and sm in ('univ', 'both'):
            body += 'def get_universal_kernels_surface(self):\n    return [%s]\n' % ', '.join('KS%d' % k for k in range(ns))
        self.iv, self.ivs = [], [[] for _ in range(ns)]
        if iv:
            si = size_sym('s_iv')
            nm['IV'] = symbolic('IV', [W.nc, W.nq, si])
            self.iv = [lambda c: Arr([ax(W.nq), ax(si)], lambda i: app('IV', c, *i))]
            body += 'def custom_init(self):\n    self.internal_vars = [IV]\n'
            if ns:
                body += '    self.internal_vars_surfaces = [[mkIS(self.boundary_inds_list[0])]%s]\n' % (', []' * (ns - 1))
                nm['mkIS'] = Native('mkIS', lambda I_, a, k, n: Arr([a[0].axes[0], ax(W.nfq)], lambda i: app('IS', *i)))
                self.ivs[0] = [lambda s: Arr([ax(W.nfq)], lambda i: app('IS', s, *i))]
        locs = 'None' if not ns else '[' + ', '.join(['lambda p: LOC0(p)', 'lambda p, i: LOC1(p, i)'][:ns]) + ']'
        self.p = W.problem(body, nm, locs=locs)
        self.bnd = items(I.getattr(self.p, 'boundary_inds_list'))
        self.u = lambda n, d: app('u0', n, d)
        self.sp = sp = Spec(W)
        self.spec = Problem_(W, [self.u], self.iv, self.bnd, self.ivs)
        self.tm, self.mm, self.sm, self.ku, self.ns = tm, mm, sm, ku, ns

    def move(self, pts):
        self.sp = Spec(self.W, 0, pts)
        self.spec.sp = [self.sp]

    def fields(self, tag):
        """assign fresh internal variables"""
        I, W, ns = self.I, self.W, self.ns
        si = size_sym('s_new')
        nm = 'IV' + tag
        I.setattr(self.p, 'internal_vars', PList(I, [symbolic(nm, [W.nc, W.nq, si])]))
        self.iv[:] = [lambda c: Arr([ax(W.nq), ax(si)], lambda i: app(nm, c, *i))]
        lists = []
        for k in range(ns):
            nms = 'IS%s%d' % (tag, k)
            lists.append(PList(I, [Arr([self.bnd[k].axes[0], ax(W.nfq)], lambda i, nms=nms: app(nms, *i))]))
            self.ivs[k][:] = [lambda s, nms=nms: Arr([ax(W.nfq)], lambda i: app(nms, s, *i))]
        I.setattr(self.p, 'internal_vars_surfaces', PList(I, lists))

    def check(self, ctx, tag='', tangent=True):
        """residual (and tangent) of the assembled problem against the documented weak form"""
        I, W, p = self.I, self.W, self.p
        u = PList(I, [symbolic('u0', [W.nnt[0], W.vec[0]])])
        want = self.residual()
        w = where_of(I, p, 'pre_jit_fns')
        r = items(I.call(I.getattr(p, 'compute_residual'), [u]))
        ctx.eq(tag + 'residual', r[0], want, w)
        if tangent:
            r = items(I.call(I.getattr(p, 'newton_update'), [u]))
            ctx.eq(tag + 'residual of newton_update', r[0], want, w)
            tot = norm(mul(W.nnt[0], W.vec[0]))
            M = coo_dense(I, I.getattr(p, 'I'), I.getattr(p, 'J'), I.getattr(p, 'V'), tot, tot)
            n, d, m, e = fresh('n', W.nnt[0]), fresh('d', W.vec[0]), fresh('m', W.nnt[0]), fresh('e', W.vec[0])
            ctx.eqs(tag + 'tangent', M.get([add(mul(n, W.vec[0]), d), add(mul(m, W.vec[0]), e)]), X.diff(want.get([n, d]), 'u0', (m, e)), w)

    def ivq(self, c, q):
        return [A.index_axis(f(c), 0, q) for f in self.iv]

    def cell(self, c, v, a, d):
        W, sp = self.W, self.sp
        ua = lambda b, e: self.u(sp.cell(c, b), e)
        tot = num(0)
        if self.tm:
            def t(q, j):
                ug = Arr([ax(W.vec[0]), ax(W.dim)], lambda i: S(W.nn[0], lambda b: mul(ua(b, i[0]), sp.grad(c, q, b, i[1]))))
                return mul(uf_value('TM', [ug] + self.ivq(c, q), [d, j]), sp.vJ(c, q, a, j))
            tot = add(tot, S(W.nq, lambda q: S(W.dim, lambda j: t(q, j))))
        if self.mm:
            def m(q):
                uq = Arr([ax(W.vec[0])], lambda i: S(W.nn[0], lambda b: mul(ua(b, i[0]), sp.N(q, b))))
                x = Arr([ax(W.dim)], lambda i: sp.xq(c, q, i[0]))
                return mul(uf_value('MM', [uq, x] + self.ivq(c, q), [d]), sp.N(q, a), sp.JxW(c, q))
            tot = add(tot, S(W.nq, m))
        if self.ku:
            tot = add(tot, self.spec.uf_cell('KU')(c, v, a, d))
        return tot

    def face(self, k, s, v, a, d):
        W, sp = self.W, self.sp
        c, f = self.bnd[k].get([s, num(0)]), self.bnd[k].get([s, num(1)])
        tot = num(0)
        if self.sm in ('map', 'both'):
            def m(q):
                uq = Arr([ax(W.vec[0])], lambda i: S(W.nn[0], lambda b: mul(self.u(sp.cell(c, b), i[0]), sp.fN(f, q, b))))
                x = Arr([ax(W.dim)], lambda i: sp.fxq(c, f, q, i[0]))
                iv = [A.index_axis(g(s), 0, q) for g in self.ivs[k]]
                return mul(uf_value('SM%d' % k, [uq, x] + iv, [d]), sp.fN(f, q, a), sp.nanson(c, f, q))
            tot = add(tot, S(W.nfq, m))
        if self.sm in ('univ', 'both'):
            tot = add(tot, self.spec.uf_face(['KS%d' % i for i in range(self.ns)])(k, s, v, a, d))
        return tot

    def residual(self):
        return self.spec.residual(0, self.cell, self.face)


def run(ctx):
    """Value numbering of get_laplace_kernel, get_mass_kernel, get_surface_kernel and their combination: the assembled
    residual and tangent equal the closed form of the documented weak form (flux : grad v + source . v over cells,
    surface map . v over selected faces, plus universal kernels), maps fed with the point's own gradient/value/
    position/internal variables."""
    def scen(tm, mm, sm, ku, iv, ns):
        m = Maps(ctx, tm, mm, sm, ku, iv, ns)
        u = PList(m.I, [symbolic('u0', [m.W.nnt[0], m.W.vec[0]])])
        r = items(m.I.call(m.I.getattr(m.p, 'compute_residual'), [u]))
        ctx.eq('residual', r[0], m.residual(), where_of(m.I, m.p, 'pre_jit_fns'))
        r = items(m.I.call(m.I.getattr(m.p, 'newton_update'), [u]))
        ctx.eq('residual of newton_update', r[0], m.residual(), where_of(m.I, m.p, 'pre_jit_fns'))
    T, F = True, False
    # every combination of cell maps with every combination of surface maps
    surf = [(None, 0), ('map', 1), ('univ', 2), ('both', 2)]
    confs = [(bool(m & 1), bool(m & 2), s, bool(m & 4), iv, ns) for m in range(1, 8) for s, ns in surf if m or ns for iv in (T, F)
             if ctx.thorough or iv or m in (1, 2)]
    for tm, mm, sm, ku, iv, ns in confs:
        nm = ' '.join(x for x in ['tensor' if tm else '', 'mass' if mm else '', 'universal' if ku else '',
                                  'surface:%s x%d' % (sm, ns) if ns else '', 'internal vars' if iv else ''] if x)
        ctx.scenario(nm, scen, tm, mm, sm, ku, iv, ns)
