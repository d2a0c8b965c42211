"""Abstract environments shared by the checks.

Everything here is *specification side*: names of sizes, symbolic meshes,
uninterpreted user callbacks.  No code of /repo is executed; the interpreter
walks its syntax trees with these abstract inputs."""
import ast
from . import expr as X
from .expr import num, app, sym, size_sym, declare, mksum, mul, add, norm, ONE, ZERO
from . import arr as A
from .arr import Arr, ax, symbolic
from .interp import (Interp, Env, Mod, Func, Native, PList, PDict, Inst, Cls, Opq, NativeObj, Bound)


def new_interp(repo=None, config=None):
    I = Interp(repo, config)
    I.overrides['jax_fem.logger_setup:setup_logger'] = lambda I_, a, k, n: Opq('logger')
    return I


def fixture(I, src, names, modname='fixture'):
    """run harness source (user code stand-in) through the interpreter"""
    env = Env(I, None, modname)
    env.path = '<%s>' % modname
    for k, v in names.items():
        env.vars[k] = v
    m = Mod(modname, env)
    I.modules[modname] = m
    tree = ast.parse(src)
    for n in ast.walk(tree):
        pass
    I.stack.append(('<%s>' % modname, '<module>', tree))
    try:
        for st in tree.body:
            I.exec_block([st], env)
    finally:
        I.stack.pop()
    return m


def ufunc(name, out_sizes, dtype='f'):
    """uninterpreted function of array arguments; out_sizes: list of axes
    sizes or callable(args)->sizes"""
    def fn(I, a, k, n):
        from .m_core import asarr
        lams = []
        for x in a:
            arr = asarr(I, x, 'j', n)
            lams.append(lam_of(arr))
        sizes = out_sizes(a) if callable(out_sizes) else out_sizes
        axes = [ax(s) for s in sizes]

        def get(idx):
            return X.uf(name, lams, list(idx))
        return Arr(axes, get, dtype, 'j')
    return Native(name, fn)


def lam_of(arr):
    vs = [X.fresh('u', a.size) for a in arr.axes]
    if not vs:
        return arr.get(())
    return X.lam(vs, arr.get(tuple(vs)))


# ------------------------------------------------------------------ FE world
class World:
    """Symbolic finite-element problem with nv variables.

    Sizes: nc cells (shared), per variable v: nnt_v total nodes, nn_v nodes per
    cell, vec_v components; dim; nq quads, nf local faces, nfq face quads,
    nfv face vertices (shared)."""

    def __init__(self, I, nv=1, cls_src='', user=None, surfaces=0, bc=None, dim=None, ele=None, shared_mesh=False,
                 location_fns=None, additional='()'):
        self.I = I
        self.nv = nv
        self.nc = size_sym('nc')
        self.dim = size_sym('dim') if dim is None else num(dim)
        self.nq = size_sym('nq')
        self.nf = size_sym('nf')
        self.nfq = size_sym('nfq')
        self.nfv = size_sym('nfv')
        self.nnt, self.nn, self.vec = [], [], []
        self.points, self.cells = [], []
        self.N, self.dN = [], []
        self.fN, self.fdN = [], []
        self.ele = []
        for v in range(nv):
            s = '' if (nv == 1 or shared_mesh) else str(v)
            self.nnt.append(size_sym('nnt' + s))
            self.nn.append(size_sym('nn' + s))
            self.vec.append(size_sym('vec' + str(v) if nv > 1 else 'vec'))
            self.points.append(symbolic('pts' + s, [self.nnt[v], self.dim], 'f', 'n' if I.fx else 'j'))
            self.cells.append(symbolic('cells' + s, [self.nc, self.nn[v]], 'i', 'n' if I.fx else 'j', hi=self.nnt[v]))
            self.N.append('N' + s)
            self.dN.append('dN' + s)
            self.fN.append('fN' + s)
            self.fdN.append('fdN' + s)
            self.ele.append('ELE' + s)
        idx = {e: v for v, e in enumerate(self.ele)}

        def shp(I_, a, k, n):
            v = idx[a[0]]
            I_.event('shape', args=(tuple(a), dict(k)))
            return (symbolic(self.N[v], [self.nq, self.nn[v]], 'f', 'n'),
                    symbolic(self.dN[v], [self.nq, self.nn[v], self.dim], 'f', 'n'),
                    symbolic('wq', [self.nq], 'f', 'n'))

        def fshp(I_, a, k, n):
            v = idx[a[0]]
            I_.event('fshape', args=(tuple(a), dict(k)))
            return (symbolic(self.fN[v], [self.nf, self.nfq, self.nn[v]], 'f', 'n'),
                    symbolic(self.fdN[v], [self.nf, self.nfq, self.nn[v], self.dim], 'f', 'n'),
                    symbolic('fw', [self.nf, self.nfq], 'f', 'n'),
                    symbolic('fn', [self.nf, self.dim], 'f', 'n'),
                    symbolic('finds', [self.nf, self.nfv], 'i', 'n', hi=self.nn[0]))
        I.overrides['jax_fem.basis:get_shape_vals_and_grads'] = shp
        I.overrides['jax_fem.basis:get_face_shape_vals_and_grads'] = fshp
        self.user = user or {}

    # ---- building
    def mesh(self, v=0):
        I = self.I
        M = I.get('jax_fem.generate_mesh', 'Mesh')
        return I.call(M, [self.points[v], self.cells[v], self.ele[v]])

    def fe(self, v=0, bc=None):
        I = self.I
        F = I.get('jax_fem.fe', 'FiniteElement')
        return I.call(F, [], {'mesh': self.mesh(v), 'vec': self.vec[v], 'dim': self.dim, 'ele_type': self.ele[v],
                              'dirichlet_bc_info': bc})

    def problem(self, body='', names=None, bc='None', locs='None', extra=None):
        """instantiate a Problem subclass with the given class body"""
        I = self.I
        ns = {'MESH': [self.mesh(v) for v in range(self.nv)], 'VEC': list(self.vec), 'DIM': self.dim, 'ELE': list(self.ele)}
        nm = {'_vec': None}
        g = dict(names or {})
        for v in range(self.nv):
            g['MESH%d' % v] = ns['MESH'][v]
            g['VEC%d' % v] = self.vec[v]
            g['ELE%d' % v] = self.ele[v]
        g['DIM'] = self.dim
        if self.nv == 1:
            ctor = 'P(MESH0, vec=VEC0, dim=DIM, ele_type=ELE0, dirichlet_bc_info=%s, location_fns=%s%s)' % (bc, locs, extra or '')
        else:
            lst = lambda p: '[' + ', '.join('%s%d' % (p, v) for v in range(self.nv)) + ']'
            ctor = 'P(%s, vec=%s, dim=DIM, ele_type=%s, dirichlet_bc_info=%s, location_fns=%s%s)' % (
                lst('MESH'), lst('VEC'), lst('ELE'), bc, locs, extra or '')
        src = ('import numpy as onp\nimport jax\nimport jax.numpy as np\nfrom jax_fem.problem import Problem\n'
               'class P(Problem):\n    _fixture = 1\n' + '\n'.join('    ' + l for l in body.splitlines()) +
               '\nproblem = %s\n' % ctor)
        m = fixture(I, src, g, 'fixture%d' % len(I.modules))
        self.mod = m
        return m.env.vars['problem']


def prints(a):
    """readable form of an abstract array"""
    if not isinstance(a, Arr):
        return repr(a)
    out = ['Arr%s' % ([X.show(x.size) for x in a.axes],)]
    for kk, idx, vs in a.cases():
        out.append('   %s -> %s' % (kk, X.show(a.get(idx), 3000)))
    return '\n'.join(out)
