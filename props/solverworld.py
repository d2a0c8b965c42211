"""A hand-built `problem` for the solver-level checks: finite-element spaces with
symbolic sizes, symbolic Dirichlet data, opaque residual/tangent evaluation."""
from .common import *
from jfsa.m_jax import tree_flatten
from jfsa.m_ext import mk_sp, coo_dense


class SP:
    def __init__(self, ctx, nv=1, nbc=1, pmat=False, config=None):
        self.ctx = ctx
        self.I = I = ctx.interp(config)
        self.nv, self.nbc = nv, nbc
        self.bc_params = False
        self.nnt = [size_sym('nnt%d' % v) for v in range(nv)]
        self.vec = [size_sym('vec%d' % v) for v in range(nv)]
        self.off, o = [], num(0)
        for v in range(nv):
            self.off.append(norm(o))
            o = add(o, mul(self.nnt[v], self.vec[v]))
        self.ntot = norm(o)
        self.nnz = size_sym('nnz')
        shapes = ', '.join('np.zeros((N%d, C%d))' % (v, v) for v in range(nv))
        src = ('import jax\nimport jax.numpy as np\nimport jax.flatten_util\n'
               'class FE:\n    pass\nclass AP:\n    def newton_update(self, sol_list):\n        return NEWTON(self, sol_list)\n'
               '    def compute_residual(self, sol_list):\n        return RES(self, sol_list)\n'
               '    def set_params(self, params):\n        SETP(self, params)\n'
               'p = AP()\nfes = [FE() for _ in range(%d)]\n'
               '_, p.unflatten_fn_sol_list = jax.flatten_util.ravel_pytree([%s])\n'
               'def mk():\n    q = AP()\n    q.unflatten_fn_sol_list = p.unflatten_fn_sol_list\n    return q\n'
               'def mkfe():\n    return FE()\n' % (nv, shapes))
        g = {'NEWTON': Native('newton_update', self._newton), 'RES': Native('compute_residual', self._res),
             'SETP': Native('set_params', self._setp)}
        for v in range(nv):
            g['N%d' % v], g['C%d' % v] = self.nnt[v], self.vec[v]
        m = fixture(I, src, g, 'apfix')
        self.mod = m
        self.p = m.env.vars['p']
        self.fes = items(m.env.vars['fes'])
        self.trace = []          # ('newton'|'residual'|'params', inst, dofs lam)
        for v, fe in enumerate(self.fes):
            for k, x in (('vec', self.vec[v]), ('num_total_nodes', self.nnt[v]),
                         ('num_total_dofs', norm(mul(self.nnt[v], self.vec[v])))):
                I.setattr(fe, k, x)
        self.set_bc('')
        self.setup(self.p)
        self.P = None
        if pmat:
            self.add_P('P')

    def add_P(self, nm, size=None, inplace=False):
        self.nred = size if size is not None else size_sym('nred' if nm == 'P' else 'nred' + nm)
        self.P = Arr([ax(self.ntot), ax(self.nred)], lambda i: app(nm, *[A.flat_index(x) for x in i]), 'f', 'n')
        if inplace:
            self.I.getattr(self.p, 'P_mat').s['M'] = self.P
        else:
            self.I.setattr(self.p, 'P_mat', mk_sp(self.I, self.P))

    def bc_one(self, tag, keep, lists, inplace):
        """replace some of (nodes, components, values) of the single condition; keep: indices of lists kept"""
        I = self.I
        for v, fe in enumerate(self.fes):
            s = size_sym('n_bc%s%d_0' % ('' if keep else tag, v), 0)
            nm = '%d_0' % v
            declare('nd%s' % (tag + nm), inj=True)
            new = [symbolic('nd' + tag + nm, [s], 'i', 'j', hi=self.nnt[v], inj=True), symbolic('vc' + tag + nm, [s], 'i', 'j', hi=self.vec[v]),
                   symbolic('bv' + tag + nm, [s], 'f', 'j')]
            for j, k in enumerate(('node_inds_list', 'vec_inds_list', 'vals_list')):
                if j in keep:
                    continue
                if inplace:
                    I.setitem(lists[j][v], 0, new[j])
                else:
                    I.setattr(fe, k, PList(I, [new[j]]))
        base = self.bc_arrays
        self.nbc_now = 1

        def bc_arrays(v, i):
            s, nd, vc, bv = base(v, i)
            nm = '%s%d_%d' % (tag, v, i)
            if not keep:
                s = size_sym('n_bc%s%d_%d' % (tag, v, i), 0)
            return (s, nd if 0 in keep else (lambda k: app('nd' + nm, k)), vc if 1 in keep else (lambda k: app('vc' + nm, k)),
                    bv if 2 in keep else (lambda k: app('bv' + nm, k)))
        self.bc_arrays = bc_arrays

    def setup(self, p, tag=''):
        I = self.I
        I.setattr(p, 'fes', PList(I, list(self.fes)))
        I.setattr(p, 'offset', PList(I, list(self.off)))
        I.setattr(p, 'num_total_dofs_all_vars', self.ntot)
        I.setattr(p, 'num_vars', self.nv)
        I.setattr(p, 'I', symbolic('rowI' + tag, [self.nnz], 'i', 'n', hi=self.ntot))
        I.setattr(p, 'J', symbolic('colJ' + tag, [self.nnz], 'i', 'n', hi=self.ntot))
        I.setattr(p, 'V', symbolic('V0', [self.nnz], 'f', 'n'))

    def set_bc(self, tag, nbc=None, fes=None):
        I = self.I
        for v, fe in enumerate(fes or self.fes):
            nd, vc, vl = [], [], []
            for i in range(self.nbc if nbc is None else nbc):
                s = size_sym('n_bc%s%d_%d' % (tag, v, i), 0)
                nm = '%s%d_%d' % (tag, v, i)
                declare('nd' + nm, inj=True)
                nd.append(symbolic('nd' + nm, [s], 'i', 'j', hi=self.nnt[v], inj=True))
                vc.append(symbolic('vc' + nm, [s], 'i', 'j', hi=self.vec[v]))
                vl.append(symbolic('bv' + nm, [s], 'f', 'j'))
            I.setattr(fe, 'node_inds_list', PList(I, nd))
            I.setattr(fe, 'vec_inds_list', PList(I, vc))
            I.setattr(fe, 'vals_list', PList(I, vl))
        self.tag = tag
        self.nbc_now = self.nbc if nbc is None else nbc

    # ---- opaque problem methods
    def flat(self, sol_list):
        """sol_list -> one flat lam per variable"""
        return [lam_of(asarr(self.I, s, 'j')) for s in items(sol_list)]

    def state(self, p):
        """terms the residual of this problem object depends on besides dofs"""
        I = self.I
        x = p.f.get('_params')
        if x is None:
            return []
        return [lam_of(asarr(I, l, 'j')) for l in tree_flatten(I, x, None)[0]]

    def res_arr(self, v, lams, state=()):
        return Arr([ax(self.nnt[v]), ax(self.vec[v])],
                   lambda i: X.uf('R%d' % v, list(lams) + list(state), [A.flat_index(x) for x in i]), 'f', 'j')

    def V_arr(self, lams, state=()):
        return Arr([ax(self.nnz)], lambda i: X.uf('Vt', list(lams) + list(state), [A.flat_index(i[0])]), 'f', 'n')

    def check_sol(self, sol_list, what):
        I = self.I
        l = items(sol_list)
        if len(l) != self.nv:
            raise ShapeError('%s called with %d solution arrays (%s)' % (what, len(l), I.where()))
        for v, s in enumerate(l):
            s = asarr(I, s, 'j')
            if s.ndim != 2 or not A.same_size(s.axes[0].size, self.nnt[v]) or not A.same_size(s.axes[1].size, self.vec[v]):
                raise ShapeError('%s called with variable %d of wrong shape (%s)' % (what, v, I.where()))
        return l

    def _newton(self, I, a, k, n):
        p, sol = a[0], self.check_sol(a[1], 'newton_update')
        l = self.flat(PList(I, sol))
        st = self.state(p)
        I.setattr(p, 'V', self.V_arr(l, st))
        self.trace.append(('newton', p, l))
        return PList(I, [self.res_arr(v, l, st) for v in range(self.nv)])

    def _res(self, I, a, k, n):
        p, sol = a[0], self.check_sol(a[1], 'compute_residual')
        l = self.flat(PList(I, sol))
        self.trace.append(('residual', p, l))
        return PList(I, [self.res_arr(v, l, self.state(p)) for v in range(self.nv)])

    def _setp(self, I, a, k, n):
        p = a[0]
        self.trace.append(('params', p, a[1]))
        I.setattr(p, '_params', a[1])
        if self.bc_params:
            for v, fe in enumerate(self.fes):
                I.setattr(fe, 'vals_list', PList(I, [self.bc_val_arr(v, i, self.state(p)) for i in range(self.nbc)]))

    def bc_val_arr(self, v, i, st):
        return Arr([ax(size_sym('n_bc%s%d_%d' % (self.tag, v, i), 0))], lambda idx: X.uf('bvp%d_%d' % (v, i), st, [A.flat_index(idx[0])]), 'f', 'j')

    # ---- specification side
    def dofs(self, name):
        return Arr([ax(self.ntot)], lambda i: app(name, A.flat_index(i[0])), 'f', 'j')

    def split(self, vecarr):
        """flat -> per variable (n,d) accessor"""
        return [lambda n, d, v=v: vecarr.get([norm(add(self.off[v], mul(n, self.vec[v]), d))]) for v in range(self.nv)]

    def bc_arrays(self, v, i):
        nm = '%s%d_%d' % (self.tag, v, i)
        s = size_sym('n_bc%s%d_%d' % (self.tag, v, i), 0)
        return s, (lambda k: app('nd' + nm, k)), (lambda k: app('vc' + nm, k)), (lambda k: app('bv' + nm, k))

    def over(self, v, base, val):
        """(n,d) -> value after overwriting condition after condition; val(k, i, n, d)"""
        def f(n, d):
            out = base(n, d)
            for i in range(self.nbc_now):
                s, nd, vc, bv = self.bc_arrays(v, i)
                ind = lambda k: mul(eq(nd(k), n), eq(vc(k), d))
                out = add(mul(sub(1, S(s, ind)), out), S(s, lambda k: mul(ind(k), val(bv(k), n, d))))
            return out
        return f

    def vec_of(self, fs):
        """per-variable (n,d) functions -> flat Arr"""
        parts = [A.ravel(Arr([ax(self.nnt[v]), ax(self.vec[v])], lambda i, f=f: f(*[A.flat_index(x) for x in i])))
                 for v, f in enumerate(fs)]
        return cat(parts)

    def bc_res(self, res, dofs, scale=1):
        """res, dofs: per-variable (n,d) accessors"""
        return self.vec_of([self.over(v, res[v], lambda b, n, d, v=v: sub(dofs[v](n, d), mul(b, scale))) for v in range(self.nv)])

    def R(self, dofs, state=()):
        """per-variable residual accessors at flat dofs Arr"""
        l = self.lams(dofs)
        return [lambda n, d, v=v: X.uf('R%d' % v, l + list(state), [n, d]) for v in range(self.nv)]

    def lams(self, dofs):
        sp = self.split(dofs)
        out = []
        for v in range(self.nv):
            n, d = fresh('n', self.nnt[v]), fresh('d', self.vec[v])
            out.append(lam((n, d), sp[v](n, d)))
        return out

    def residual(self, dofs, scale=1, state=()):
        """row-eliminated residual at flat dofs"""
        return self.bc_res(self.R(dofs, state), self.split(dofs), scale)

    def bc_hit(self, p):
        """indicator of constrained row p"""
        miss = num(1)
        for v in range(self.nv):
            for i in range(self.nbc_now):
                s, nd, vc, bv = self.bc_arrays(v, i)
                miss = mul(miss, sub(1, S(s, lambda k: eq(norm(add(self.off[v], mul(nd(k), self.vec[v]), vc(k))), p))))
        return sub(1, miss)

    def K(self, dofs=None, state=(), V=None, p=None):
        """COO meaning of the assembled tangent at dofs"""
        I = self.I
        V = V if V is not None else self.V_arr(self.lams(dofs), state)
        p = p or self.p
        return coo_dense(I, I.getattr(p, 'I'), I.getattr(p, 'J'), V, self.ntot, self.ntot)

    def A_full(self, dofs=None, state=(), V=None, p=None):
        K = self.K(dofs, state, V, p)

        def f(idx):
            a, b = A.flat_index(idx[0]), A.flat_index(idx[1])
            h = self.bc_hit(a)
            return add(mul(sub(1, h), K.get([a, b])), mul(h, eq(a, b)))
        return Arr(K.axes, f, 'f', 'n')

    def A_red(self, dofs=None, state=(), V=None):
        if self.P is None:
            return self.A_full(dofs, state, V)
        return A.matmul(A.transpose(self.P), A.matmul(self.A_full(dofs, state, V), self.P))

    def fn(self, name, mod='jax_fem.solver'):
        return self.I.get(mod, name)

    def call(self, name, *a, **k):
        return self.I.call(self.fn(name), list(a), k)
