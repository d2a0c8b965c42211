"""Independent closed forms of the finite-element quantities over a World."""
from . import expr as X
from .expr import num, app, mksum, fresh, mul, add, norm, opq, eq, lam, power, div, sub
from . import arr as A
from .arr import Arr, ax, symbolic, Axis
from .interp import Native
from .m_core import asarr


def S(size, f, hint='k'):
    v = fresh(hint, size)
    return mksum(v, num(size), f(v))


def matl(n, f):
    i, j = fresh('i', n), fresh('j', n)
    return lam((i, j), f(i, j))


class Spec:
    """geometry of variable v of World W at coordinates `pts` (default: mesh points)"""

    def __init__(self, W, v=0, pts=None):
        self.W = W
        self.v = v
        s = W.points[v]
        self.pts = pts if pts is not None else (lambda n, i: s.get([n, i]))
        self.cell = lambda c, a: W.cells[v].get([c, a])
        self.N = lambda q, a: app(W.N[v], q, a)
        self.dN = lambda q, a, j: app(W.dN[v], q, a, j)
        self.fN = lambda f, q, a: app(W.fN[v], f, q, a)
        self.fdN = lambda f, q, a, j: app(W.fdN[v], f, q, a, j)
        self.nn, self.dim = W.nn[v], W.dim

    # volume
    def J(self, c, q):
        return matl(self.dim, lambda i, j: S(self.nn, lambda a: mul(self.pts(self.cell(c, a), i), self.dN(q, a, j))))

    def grad(self, c, q, a, i):
        J = self.J(c, q)
        return S(self.dim, lambda k: mul(self.dN(q, a, k), opq('inv', J, k, i)))

    def JxW(self, c, q):
        return mul(opq('det', self.J(c, q)), app('wq', q))

    def vJ(self, c, q, a, i):
        return mul(self.grad(c, q, a, i), self.JxW(c, q))

    def xq(self, c, q, i):
        return S(self.nn, lambda a: mul(self.N(q, a), self.pts(self.cell(c, a), i)))

    # faces: c cell, f local face
    def fJ(self, c, f, q):
        return matl(self.dim, lambda i, j: S(self.nn, lambda a: mul(self.pts(self.cell(c, a), i), self.fdN(f, q, a, j))))

    def fgrad(self, c, f, q, a, i):
        J = self.fJ(c, f, q)
        return S(self.dim, lambda k: mul(self.fdN(f, q, a, k), opq('inv', J, k, i)))

    def nanson(self, c, f, q):
        J = self.fJ(c, f, q)

        def comp(i):
            return S(self.dim, lambda k: mul(app('fn', f, k), opq('inv', J, k, i)))
        n2 = S(self.dim, lambda i: mul(comp(i), comp(i)))
        return mul(power(n2, num('1/2')), opq('det', J), app('fw', f, q))

    def fxq(self, c, f, q, i):
        return S(self.nn, lambda a: mul(self.fN(f, q, a), self.pts(self.cell(c, a), i)))


def lams_of(a):
    """one lambda term per block of the array (blocks of concatenated axes)"""
    out = []
    for kk, idx, vs in a.cases():
        e = a.get(idx)
        out.append(lam(vs, e) if vs else e)
    return out


def kernel_uf(name, out=None):
    """user kernel f(args...) -> array shaped like out(args) (default: like args[0]);
    an uninterpreted function of every element of every argument"""
    def fn(I, a, k, n):
        if k:
            I.unmodelled('keyword arguments to user kernel')
        arrs = [asarr(I, x, 'j', n) for x in a]
        I.event('ucall', name=name, shapes=[x.shape for x in arrs], args=arrs)
        lams = [l for x in arrs for l in lams_of(x)]
        axes = list(out(arrs)) if out else [arrs[0].axes[0]]
        return Arr(axes, lambda idx: X.uf(name, lams, [e for i in idx for e in A._leaf(i)]), 'f', 'j')
    return Native(name, fn)


def uf_value(name, arrs, leaf):
    return X.uf(name, [l for x in arrs for l in lams_of(x)], leaf)


def cat(arrs, axis=0):
    return arrs[0] if len(arrs) == 1 else A.concat(arrs, axis)


class Problem_:
    """expected weak-form quantities of a Problem over World W.

    sols[v](n,d): nodal dofs; iv: list of per-cell internal variables (c -> Arr);
    bnd[k]: boundary set k (Arr (nface,2)); ivs[k]: list of (face -> Arr)"""

    def __init__(self, W, sols, iv=(), bnd=(), ivs=(), pts=None):
        self.W, self.sols, self.iv, self.bnd, self.ivs = W, sols, iv, bnd, ivs
        self.sp = [Spec(W, v, pts[v] if pts else None) for v in range(W.nv)]

    def cell_flat(self, c):
        W = self.W
        return cat([A.ravel(Arr([ax(W.nn[v]), ax(W.vec[v])],
                                lambda i, v=v: self.sols[v](self.sp[v].cell(c, i[0]), i[1])))
                    for v in range(W.nv)])

    def cell_args(self, c):
        W, sp = self.W, self.sp
        nv = W.nv
        x = Arr([ax(W.nq), ax(W.dim)], lambda i: sp[0].xq(c, i[0], i[1]))
        g = cat([Arr([ax(W.nq), ax(W.nn[v]), ax(W.dim)], lambda i, v=v: sp[v].grad(c, *i)) for v in range(nv)], 1)
        jw = A.stack([Arr([ax(W.nq)], lambda i, v=v: sp[v].JxW(c, i[0])) for v in range(nv)], 0)
        vg = cat([Arr([ax(W.nq), ax(W.nn[v]), ax(1), ax(W.dim)], lambda i, v=v: sp[v].vJ(c, i[0], i[1], i[3])) for v in range(nv)], 1)
        return [self.cell_flat(c), x, g, jw, vg] + [f(c) for f in self.iv]

    def face_args(self, k, s):
        W, sp = self.W, self.sp
        nv = W.nv
        c, f = self.bnd[k].get([s, num(0)]), self.bnd[k].get([s, num(1)])
        x = Arr([ax(W.nfq), ax(W.dim)], lambda i: sp[0].fxq(c, f, i[0], i[1]))
        sv = cat([Arr([ax(W.nfq), ax(W.nn[v])], lambda i, v=v: sp[v].fN(f, i[0], i[1])) for v in range(nv)], 1)
        sg = cat([Arr([ax(W.nfq), ax(W.nn[v]), ax(W.dim)], lambda i, v=v: sp[v].fgrad(c, f, *i)) for v in range(nv)], 1)
        ns = A.stack([Arr([ax(W.nfq)], lambda i, v=v: sp[v].nanson(c, f, i[0])) for v in range(nv)], 0)
        return [self.cell_flat(c), x, sv, sg, ns] + [g(s) for g in (self.ivs[k] if k < len(self.ivs) else [])], c

    def nfaces(self, k):
        return self.bnd[k].axes[0].size

    def residual(self, v, cell_val, face_val=None):
        """Arr (nnt_v, vec_v); cell_val(c, v, a, d), face_val(k, s, v, a, d)"""
        W = self.W

        def fn(idx):
            n, d = idx
            tot = S(W.nc, lambda c: S(W.nn[v], lambda a: mul(eq(self.sp[v].cell(c, a), n), cell_val(c, v, a, d))), 'c')
            for k in range(len(self.bnd)):
                tot = add(tot, S(self.nfaces(k), lambda s: S(W.nn[v], lambda a: mul(
                    eq(self.sp[v].cell(self.bnd[k].get([s, num(0)]), a), n), face_val(k, s, v, a, d))), 's'))
            return tot
        return Arr([ax(W.nnt[v]), ax(W.vec[v])], fn)

    def leaf(self, v, a, d):
        return [a, d] if self.W.nv == 1 else [num(v), a, d]

    def uf_cell(self, name):
        return lambda c, v, a, d: uf_value(name, self.cell_args(c), self.leaf(v, a, d))

    def uf_face(self, names):
        def f(k, s, v, a, d):
            args, c = self.face_args(k, s)
            return uf_value(names[k], args, self.leaf(v, a, d))
        return f
