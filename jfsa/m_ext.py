"""Transfer functions: PETSc, scipy.sparse, BCOO, pyamgx, and small library objects."""
from .m_jax import *
from .m_core import _adv_injective
from .m_np import linsolve

_n = [0]


def newid():
    _n[0] += 1
    return _n[0]


def dense(I, f, nr, nc, dtype='f', lib='n'):
    return Arr([nr, nc], f, dtype, lib)


def coo_dense(I, Ii, Jj, V, nr, nc, node=None):
    """M[p,q] = sum_k [I_k = p][J_k = q] V_k"""
    Ii, Jj, V = [asarr(I, x, 'n', node) for x in (Ii, Jj, V)]
    for x in (Ii, Jj, V):
        if x.ndim != 1:
            raise ShapeError('COO triplet arrays must be 1-d (%s)' % I.where(node))
    for x in (Ii, Jj):
        if not A.same_size(x.axes[0].size, V.axes[0].size):
            raise ShapeError('COO triplet arrays have different lengths: %s vs %s (%s)' % (
                show(x.axes[0].size), show(V.axes[0].size), I.where(node)))
    ax_ = A.unify_axis(A.unify_axis(Ii.axes[0], Jj.axes[0]), V.axes[0])
    if ax_.kind == 'atom':
        for x in (V, Ii, Jj):
            if x.axes[0].kind != 'atom':
                ax_ = x.axes[0]

    def fn(idx):
        p, q = A.flat_index(idx[0]), A.flat_index(idx[1])
        tot = ZERO
        for bk, it, vs in A.axis_cases(ax_):
            t = mul(eq(Ii.get([it]), p), eq(Jj.get([it]), q), V.get([it]))
            for v in reversed(vs):
                t = mksum(v, X.VARSIZE[v.args[0]], t)
            tot = add(tot, t)
        return tot
    return dense(I, fn, nr, nc)


def hits(I, rows, p, node=None):
    """indicator: p occurs in the row list"""
    rows = asarr(I, rows, 'n', node)
    if rows.ndim == 0:
        return eq(rows.get([]), p)
    axis = rows.axes[0]
    if axis.kind == 'cat':
        r = None
        for kk, part in enumerate(axis.parts):
            sub_ = Arr([part], (lambda kk: lambda idx: rows.get([A.CIdx(kk, idx[0], axis)]))(kk), 'i', 'n')
            h = hits(I, sub_, p, node)
            r = h if r is None else bor(r, h)
        return r
    inj = _adv_injective([rows])
    tot = []
    for bk, it, vs in A.axis_cases(axis):
        d = eq(rows.get([it]), p)
        for v in reversed(vs):
            d = mksum(v, X.VARSIZE[v.args[0]], d) if inj else red('any', v, X.VARSIZE[v.args[0]], d)
        tot.append(d)
    if len(tot) == 1:
        return tot[0]
    r = tot[0]
    for t in tot[1:]:
        r = bor(r, t)
    return r


def csr_parts(I, M, src=None):
    d = {'M': M, 'id': newid()}
    return tuple(Opq('csrpart', (d, w, None)) for w in ('indptr', 'indices', 'data'))


def csr_from_parts(I, data, indices, indptr, node):
    """rebuild a dense meaning from (data, indices, indptr) parts of one matrix"""
    for x, w in ((data, 'data'), (indices, 'indices'), (indptr, 'indptr')):
        if not (isinstance(x, Opq) and x.desc == 'csrpart'):
            I.unmodelled('CSR arrays of unknown provenance', node)
        if x.data[1] != w:
            raise ProgramError('CSR arrays in the wrong order: %s passed as %s' % (x.data[1], w), I.where(node))
    if not (data.data[0]['id'] == indices.data[0]['id'] == indptr.data[0]['id']):
        raise ProgramError('CSR arrays of different matrices combined', I.where(node))
    M = data.data[0]['M']
    f = data.data[2]
    if f is not None:
        M0 = M
        M = Arr(M0.axes, lambda idx: f(M0.get(idx)), M0.dtype, 'n')
    return M


def check_shape(I, M, shape, node):
    if shape is None:
        return
    s = shape_of(I, shape, node)
    for x, a in zip(s, M.axes):
        if not A.same_size(x, a.size):
            raise ShapeError('matrix shape (%s) differs from %s (%s)' % (', '.join(map(show, s)), ', '.join(show(a.size) for a in M.axes), I.where(node)))


def mk_sp(I, M, fmt='csr', **kw):
    return NativeObj(I, 'spmat', M=M, fmt=fmt, id=newid(), **kw)


def sp_sum(I, o, axis, node=None):
    M = o.s['M']
    if axis is None:
        return A.sum_axes(M, [0, 1])
    r = A.sum_axes(M, axes_of(I, axis, 2, node))
    r.lib = 'n'
    return r


# ------------------------------------------------------------------ scipy
@jx('scipy.sparse.csr_array', 'scipy.sparse.csr_matrix', 'scipy.sparse.csc_array', 'scipy.sparse.csc_matrix',
    'scipy.sparse.coo_array', 'scipy.sparse.coo_matrix')
def _(I, a, k, n):
    arg1 = a[0] if a else k['arg1']
    shape = arg(a, k, 1, 'shape', None)
    if isinstance(arg1, NativeObj) and arg1.kind == 'spmat':
        return mk_sp(I, arg1.s['M'])
    if isinstance(arg1, tuple) and len(arg1) == 3:
        M = csr_from_parts(I, arg1[0], arg1[1], arg1[2], n)
        check_shape(I, M, shape, n)
        return mk_sp(I, M)
    if isinstance(arg1, tuple) and len(arg1) == 2 and isinstance(arg1[1], (tuple, PList)):
        V, (i, j) = arg1[0], I.iter_concrete(arg1[1], n)
        if shape is None:
            I.unmodelled('COO matrix without a shape', n)
        s = shape_of(I, shape, n)
        for ix, sz, nm in ((i, s[0], 'row'), (j, s[1], 'column')):
            check_range(I, asarr(I, ix, 'n', n), sz, nm, n)
        return mk_sp(I, coo_dense(I, i, j, V, s[0], s[1], n))
    if isinstance(arg1, Arr) and arg1.ndim == 2:
        return mk_sp(I, withlib(arg1, 'n'))
    I.unmodelled('sparse matrix constructor', n)


def check_range(I, ix, size, nm, node):
    """report an index that provably can exceed the matrix size (upper bound >= size for generic sizes)"""
    for bk, it, vs in A.axis_cases(ix.axes[0]):
        e = norm(ix.get([it]))
        b = X.bound(e, True)
        if b is None:
            continue
        d = norm(sub(b, sub(size, 1)))
        m = X._min_pos(d)
        if m is not None and m > 0:
            raise ProgramError('%s index can reach %s in a matrix of size %s' % (nm, show(b), show(size)), I.where(node))


@jx('scipy.sparse.linalg.spsolve')
def _(I, a, k, n):
    M = asarr(I, a[0], 'n', n)
    b = asarr(I, a[1], 'n', n)
    I.event('linsolve', node=n, method='spsolve', M=M, b=b)
    r = linsolve(I, M, b)
    return withlib(r, 'n')


@jx('scipy.spatial.KDTree', 'scipy.spatial.cKDTree')
def _(I, a, k, n):
    return NativeObj(I, 'kdtree', pts=asarr(I, a[0], 'n', n), id=newid())


@jx('jax.scipy.sparse.linalg.bicgstab', 'jax.scipy.sparse.linalg.cg', 'jax.scipy.sparse.linalg.gmres')
def _(I, a, k, n):
    b = asarr(I, a[1], 'j', n)
    if isinstance(a[0], NativeObj) and isinstance(a[0].s.get('M'), Arr):
        M = a[0].s['M']
    elif isinstance(a[0], (Func, Native, Bound, Partial)):
        nm = 'probe!%d' % newid()
        r0 = asarr(I, I.call(a[0], [A.symbolic(nm, b.axes)], {}, n), 'j', n)
        M = Arr([r0.axes[0], b.axes[0]], lambda i: X.diff(r0.get([i[0]]), nm, tuple(A._leaf(A.conv_index(i[1], b.axes[0])))))
    else:
        M = asarr(I, a[0], 'j', n)
    x0 = arg(a, k, 2, 'x0', None)
    if x0 is not None:
        x0 = asarr(I, x0, 'j', n)
        if x0.ndim != b.ndim or not A.same_size(x0.axes[0].size, b.axes[0].size):
            raise ShapeError('initial guess of the iterative solver has the wrong shape (%s)' % I.where(n))
    Mp = k.get('M')
    if Mp is not None:
        if not isinstance(Mp, (Func, Native, Bound, Partial, NativeObj)):
            I.unmodelled('preconditioner %r' % (Mp,), n)
        pr_ = I.call(Mp, [b], {}, n)
        if pr_ is None:
            raise ProgramError('preconditioner returns None', I.where(n))
        pr_ = asarr(I, pr_, 'j', n)
    else:
        pr_ = None
    I.event('linsolve', node=n, method='iter', M=M, b=b, x0=x0, pc=pr_, kw=k)
    return (withlib(linsolve(I, M, b), 'j'), Opq('info'))


@jx('jax.experimental.sparse.BCOO.from_scipy_sparse')
def _(I, a, k, n):
    return NativeObj(I, 'bcoo', M=withlib(a[0].s['M'], 'j'))


@jx('jax.experimental.sparse.BCOO.fromdense')
def _(I, a, k, n):
    return NativeObj(I, 'bcoo', M=asarr(I, a[0], 'j', n))


# ------------------------------------------------------------------ PETSc objects
@jx('petsc4py.PETSc.Mat')
def _(I, a, k, n):
    return NativeObj(I, 'mat', M=None, coo=None, opts=(), id=newid())


@jx('petsc4py.PETSc.Vec')
def _(I, a, k, n):
    return NativeObj(I, 'vec', v=None)


@jx('petsc4py.PETSc.KSP')
def _(I, a, k, n):
    return NativeObj(I, 'ksp', A=None, type=None, pc=NativeObj(I, 'pc', type=None, solver=None))


def mat_M(I, o, node):
    M = o.s['M']
    if M is None:
        raise ProgramError('PETSc matrix used before values are set', I.where(node))
    if not o.s.get('ready', True):
        raise ProgramError('PETSc matrix used before assemble()', I.where(node))
    return M


def new_mat(I, M):
    return NativeObj(I, 'mat', M=M, coo=None, opts=(), id=newid(), size=(M.axes[0].size, M.axes[1].size))


def sp_matmul(I, P, Q, node=None):
    return A.matmul(P, Q)


MAT = {}


def mat_(name):
    def d(f):
        MAT[name] = f
        return f
    return d


@mat_('create')
def _(I, o, a, k, n):
    return o


@mat_('createAIJ')
def _(I, o, a, k, n):
    size = arg(a, k, 0, 'size')
    s = I.iter_concrete(size, n)
    if len(s) == 2 and isinstance(s[0], (tuple, PList)):
        s = [I.iter_concrete(x, n)[-1] for x in s]
    o.s['size'] = tuple(num(_scal(x)) for x in s)
    csr = k.get('csr')
    if csr is not None:
        ip, ix, dat = I.iter_concrete(csr, n)
        M = csr_from_parts(I, dat, ix, ip, n)
        check_shape(I, M, tuple(s), n)
        o.s['M'] = M
    return o


def _scal(x):
    return A.scalar_of(x) if isinstance(x, Arr) else x


@mat_('setOption')
def _(I, o, a, k, n):
    o.s['opts'] = o.s['opts'] + ((getattr(a[0], 'name', repr(a[0])), a[1]),)


for _nm in ('setType', 'setFromOptions', 'setUp', 'setPreallocationNNZ', 'assemblyBegin', 'assemblyEnd', 'setName', 'view', 'destroy', 'setSizes'):
    MAT[_nm] = lambda I, o, a, k, n: o


@mat_('setPreallocationCOO')
def _(I, o, a, k, n):
    i, j = asarr(I, a[0], 'n', n), asarr(I, a[1], 'n', n)
    check_range(I, i, o.s['size'][0], 'row', n)
    check_range(I, j, o.s['size'][1], 'column', n)
    o.s['coo'] = (I.realize(i), I.realize(j))


@mat_('setValuesCOO')
def _(I, o, a, k, n):
    if o.s['coo'] is None:
        raise ProgramError('setValuesCOO before setPreallocationCOO', I.where(n))
    if o.s.get('pattern_broken'):
        raise ProgramError('setValuesCOO after zeroRows removed entries from the nonzero pattern (KEEP_NONZERO_PATTERN not set)', I.where(n))
    mode = arg(a, k, 1, 'addv', None)
    M = coo_dense(I, o.s['coo'][0], o.s['coo'][1], a[0], o.s['size'][0], o.s['size'][1], n)
    nm = getattr(mode, 'name', '') if mode is not None else ''
    if 'ADD' in nm and o.s['M'] is not None:
        M0 = o.s['M']
        M1 = M
        M = Arr(M0.axes, lambda idx: add(M0.get(idx), M1.get(idx)), 'f', 'n')
    elif mode is True and o.s['M'] is not None:
        I.unmodelled('setValuesCOO mode', n)
    I.event('matvalues', node=n, mat=o)
    o.s['M'] = M
    o.s['ready'] = False


@mat_('assemble')
def _(I, o, a, k, n):
    o.s['ready'] = True
    return o


def _zero(I, o, a, k, n, rows_only):
    M0 = mat_M(I, o, n)
    rows = asarr(I, a[0], 'n', n)
    dg = num(_scal(arg(a, k, 1, 'diag', 1)))
    I.realize(rows)

    def fn(idx):
        p, q = A.flat_index(idx[0]), A.flat_index(idx[1])
        h = hits(I, rows, p, n)
        r = add(mul(sub(1, h), M0.get(idx)), mul(dg, h, eq(p, q)))
        if not rows_only:
            h2 = hits(I, rows, q, n)
            r = add(mul(sub(1, h), sub(1, h2), M0.get(idx)), mul(dg, h, eq(p, q)))
        return r
    o.s['M'] = Arr(M0.axes, fn, 'f', 'n')
    if not any('KEEP_NONZERO_PATTERN' in q[0] and q[1] is True for q in o.s['opts']):
        o.s['pattern_broken'] = True
    I.event('zerorows', node=n, mat=o)


@mat_('zeroRows')
def _(I, o, a, k, n):
    _zero(I, o, a, k, n, True)


@mat_('zeroRowsColumns')
def _(I, o, a, k, n):
    _zero(I, o, a, k, n, False)


@mat_('zeroEntries')
def _(I, o, a, k, n):
    o.s['M'] = A.full(list(o.s['size']), 0, 'f', 'n')


@mat_('transpose')
def _(I, o, a, k, n):
    M = A.transpose(mat_M(I, o, n))
    out = arg(a, k, 0, 'out', None)
    tgt = out if out is not None else o
    tgt.s['M'] = M
    tgt.s['size'] = (M.axes[0].size, M.axes[1].size)
    tgt.s['ready'] = True
    if out is None:
        o.s['coo'] = None if o.s['coo'] is None else (o.s['coo'][1], o.s['coo'][0])
        I.event('mat-inplace-transpose', node=n, mat=o)
    return tgt


@mat_('matMult')
def _(I, o, a, k, n):
    return new_mat(I, withlib(sp_matmul(I, mat_M(I, o, n), mat_M(I, a[0], n), n), 'n'))


@mat_('transposeMatMult')
def _(I, o, a, k, n):
    return new_mat(I, withlib(A.matmul(A.transpose(mat_M(I, o, n)), mat_M(I, a[0], n)), 'n'))


@mat_('PtAP', )
def _(I, o, a, k, n):
    P = mat_M(I, a[0], n)
    return new_mat(I, withlib(A.matmul(A.transpose(P), A.matmul(mat_M(I, o, n), P)), 'n'))


MAT['ptap'] = MAT['PtAP']


@mat_('copy')
def _(I, o, a, k, n):
    return new_mat(I, mat_M(I, o, n))


@mat_('duplicate')
def _(I, o, a, k, n):
    if arg(a, k, 0, 'copy', False):
        return new_mat(I, mat_M(I, o, n))
    r = new_mat(I, A.full(list(o.s['size']), 0, 'f', 'n'))
    return r


@mat_('getSize')
def _(I, o, a, k, n):
    return tuple(pyint(x) for x in o.s['size'])


@mat_('getValuesCSR')
def _(I, o, a, k, n):
    return csr_parts(I, mat_M(I, o, n))


@mat_('mult')
def _(I, o, a, k, n):
    a[1].s['v'] = withlib(A.matmul(mat_M(I, o, n), a[0].s['v']), 'n')


@mat_('multTranspose')
def _(I, o, a, k, n):
    a[1].s['v'] = withlib(A.matmul(A.transpose(mat_M(I, o, n)), a[0].s['v']), 'n')


@mat_('getDiagonal')
def _(I, o, a, k, n):
    M = mat_M(I, o, n)
    r = NativeObj(I, 'vec', v=Arr([M.axes[0]], lambda idx: M.get([idx[0], idx[0]]), 'f', 'n'))
    return r


VEC = {}


def vec_(name):
    def d(f):
        VEC[name] = f
        return f
    return d


@vec_('createSeq')
def _(I, o, a, k, n):
    o.s['v'] = A.full([num(_scal(a[0]))], 0, 'f', 'n')
    return o


VEC['create'] = lambda I, o, a, k, n: o
for _nm in ('assemble', 'assemblyBegin', 'assemblyEnd', 'setUp', 'destroy', 'setFromOptions'):
    VEC[_nm] = lambda I, o, a, k, n: o


@vec_('createWithArray')
def _(I, o, a, k, n):
    o.s['v'] = asarr(I, a[0], 'n', n)
    return o


@vec_('setValues')
def _(I, o, a, k, n):
    ix = asarr(I, a[0], 'n', n)
    v = asarr(I, a[1], 'n', n)
    mode = arg(a, k, 2, 'addv', None)
    add_ = mode is not None and 'ADD' in getattr(mode, 'name', '')
    e = norm(ix.get([i for i in [A.axis_cases(ix.axes[0])[0][1]]])) if ix.axes[0].kind == 'atom' else None
    if e is not None and e.op == 'var' and A.same_size(ix.axes[0].size, o.s['v'].axes[0].size):
        w = o.s['v']
        o.s['v'] = Arr(v.axes, lambda idx: add(w.get(idx), v.get(idx)), 'f', 'n') if add_ else withlib(v, 'n')
        return
    o.s['v'] = scatter(I, o.s['v'], ix, v, 'add' if add_ else 'set', n)


@vec_('getArray')
def _(I, o, a, k, n):
    return o.s['v']


@vec_('setArray')
def _(I, o, a, k, n):
    o.s['v'] = asarr(I, a[0], 'n', n)


@vec_('getSize')
def _(I, o, a, k, n):
    return pyint(o.s['v'].axes[0].size)


@vec_('copy')
def _(I, o, a, k, n):
    return NativeObj(I, 'vec', v=o.s['v'])


VEC['duplicate'] = lambda I, o, a, k, n: NativeObj(I, 'vec', v=A.full(o.s['v'].axes, 0, 'f', 'n'))


@vec_('norm')
def _(I, o, a, k, n):
    return NP['linalg.norm'](I, 'n', [o.s['v']], {}, n)


@vec_('axpy')
def _(I, o, a, k, n):
    v, x = o.s['v'], a[1].s['v']
    al = num(_scal(a[0]))
    o.s['v'] = Arr(v.axes, lambda idx: add(v.get(idx), mul(al, x.get(idx))), 'f', 'n')


KSP = {}


def ksp_(name):
    def d(f):
        KSP[name] = f
        return f
    return d


for _nm in ('create', 'setFromOptions', 'setTolerances', 'setUp', 'setNormType', 'destroy', 'setInitialGuessNonzero', 'setOptionsPrefix', 'setErrorIfNotConverged', 'view'):
    KSP[_nm] = lambda I, o, a, k, n: o


@ksp_('setOperators')
def _(I, o, a, k, n):
    o.s['A'] = a[0]


@ksp_('setType')
def _(I, o, a, k, n):
    o.s['type'] = a[0]


@ksp_('getType')
def _(I, o, a, k, n):
    return o.s['type'] if isinstance(o.s['type'], str) else Opq('str')


@ksp_('getPC')
def _(I, o, a, k, n):
    return o.s['pc']


@ksp_('getConvergedReason')
def _(I, o, a, k, n):
    return sym('ksp_reason!%d' % newid(), int=True)


for _nm in ('getIterationNumber', 'getResidualNorm'):
    KSP[_nm] = lambda I, o, a, k, n: sym('ksp_stat!%d' % newid())


def _ksp_solve(I, o, a, k, n, tr):
    if o.s['A'] is None:
        raise ProgramError('KSP.solve without operators', I.where(n))
    M = mat_M(I, o.s['A'], n)
    if tr:
        M = A.transpose(M)
    b = a[0].s['v']
    I.event('linsolve', node=n, method='ksp', M=M, b=b, ksp=o.s['type'], pc=o.s['pc'].s['type'], psolver=o.s['pc'].s['solver'])
    a[1].s['v'] = withlib(linsolve(I, M, b), 'n')


KSP['solve'] = lambda I, o, a, k, n: _ksp_solve(I, o, a, k, n, False)
KSP['solveTranspose'] = lambda I, o, a, k, n: _ksp_solve(I, o, a, k, n, True)

PC = {}
PC['setType'] = lambda I, o, a, k, n: o.s.__setitem__('type', a[0])
PC['getType'] = lambda I, o, a, k, n: o.s['type'] if isinstance(o.s['type'], str) else Opq('str')
PC['setFactorSolverType'] = lambda I, o, a, k, n: o.s.__setitem__('solver', a[0])
for _nm in ('setFromOptions', 'setUp', 'setHYPREType', 'setOperators'):
    PC[_nm] = lambda I, o, a, k, n: o
