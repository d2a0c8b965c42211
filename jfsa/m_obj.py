"""Attribute / operator behaviour of modelled library objects."""
from .m_ext import *
from .m_core import _sc
from . import m_ext as EX


def part(I, o, w):
    p = o.s.get('parts')
    if p is None or p['M'] is not o.s['M']:
        p = {'M': o.s['M'], 'id': newid(), 'owner': o}
        o.s['parts'] = p
    return Opq('csrpart', (p, w, None))


def meth(o, f, nm):
    return Native(nm, lambda I, a, k, n: f(I, o, a, k, n))


def _spm(I, o, name, node):
    M = o.s['M']
    if name == 'shape':
        return tuple(pyint(x.size) for x in M.axes)
    if name == 'ndim':
        return 2
    if name in ('T',):
        return mk_sp(I, A.transpose(M))
    if name == 'transpose':
        return meth(o, lambda I, o, a, k, n: mk_sp(I, A.transpose(M)), name)
    if name in ('indptr', 'indices', 'data'):
        return part(I, o, name)
    if name in ('tocsr', 'tocsc', 'tocoo', 'copy', 'astype', 'tolil', 'asformat', 'tobsr'):
        return meth(o, lambda I, o, a, k, n: mk_sp(I, o.s['M']), name)
    if name in ('todense', 'toarray'):
        return meth(o, lambda I, o, a, k, n: withlib(o.s['M'], 'n'), name)
    if name in ('eliminate_zeros', 'sort_indices', 'sum_duplicates'):
        return meth(o, lambda I, o, a, k, n: None, name)
    if name == 'diagonal':
        return meth(o, lambda I, o, a, k, n: Arr([M.axes[0]], lambda idx: M.get([idx[0], idx[0]]), 'f', 'n'), name)
    if name == 'sum':
        return meth(o, lambda I, o, a, k, n: sp_sum(I, o, arg(a, k, 0, 'axis', None), n), name)
    if name == 'dot':
        return meth(o, lambda I, o, a, k, n: nobj_binop(I, ast.MatMult, o, a[0], n), name)
    if name == 'multiply':
        return meth(o, lambda I, o, a, k, n: mk_sp(I, arith(I, ast.Mult, o.s['M'], asarr(I, a[0], 'n', n), n)), name)
    if name == 'nnz':
        return sym('nnz!%d' % o.s['id'], int=True, lo=ZERO)
    if name == 'dtype':
        return Opq('dtype', ('f', None))
    if name == 'power':
        return meth(o, lambda I, o, a, k, n: mk_sp(I, A.elementwise(lambda e: power(e, num(a[0])), M)), name)


def _bcoo(I, o, name, node):
    M = o.s['M']
    if name in ('sort_indices', 'sum_duplicates', 'astype'):
        return meth(o, lambda I, o, a, k, n: o, name)
    if name == 'sum':
        def f(I, o, a, k, n):
            ax_ = arg(a, k, 0, 'axis', None)
            return NativeObj(I, 'bcoo', M=A.sum_axes(M, axes_of(I, ax_, M.ndim, n)))
        return meth(o, f, name)
    if name == 'todense':
        return meth(o, lambda I, o, a, k, n: withlib(M, 'j'), name)
    if name == 'T':
        return NativeObj(I, 'bcoo', M=A.transpose(M))
    if name == 'transpose':
        return meth(o, lambda I, o, a, k, n: NativeObj(I, 'bcoo', M=A.transpose(M)), name)
    if name == 'shape':
        return tuple(pyint(x.size) for x in M.axes)
    if name == 'dtype':
        return Opq('dtype', ('f', None))


def _amgx(I, o, name, node):
    if name.startswith('create'):
        def mk(I, o, a, k, n):
            if name in ('create_from_file', 'create_from_dict'):
                o.s['src'] = (name, a[0] if a else None)
            for v in a:
                if isinstance(v, NativeObj) and v.s.get('src') is not None:
                    o.s['src'] = v.s['src']
            return o
        return meth(o, mk, name)
    if name == 'upload_CSR':
        return meth(o, lambda I, o, a, k, n: o.s.__setitem__('M', a[0].s['M']), name)
    if name == 'upload':
        return meth(o, lambda I, o, a, k, n: o.s.__setitem__('v', asarr(I, a[0], 'n', n)), name)
    if name == 'download':
        return meth(o, lambda I, o, a, k, n: o.s['v'], name)
    if name == 'setup':
        return meth(o, lambda I, o, a, k, n: o.s.__setitem__('A', a[0]), name)
    if name == 'solve':
        def f(I, o, a, k, n):
            M, b = o.s['A'].s['M'], a[0].s['v']
            I.event('linsolve', node=n, method='amgx', M=M, b=b, x0=a[1].s.get('v'), src=o.s.get('src'))
            a[1].s['v'] = withlib(linsolve(I, M, b), 'n')
        return meth(o, f, name)
    if name in ('destroy', 'initialize', 'finalize'):
        return meth(o, lambda I, o, a, k, n: None, name)
    if name in ('status', 'iterations_number'):
        return Opq('str')


def _kd(I, o, name, node):
    if name == 'query':
        def f(I, o, a, k, n):
            pt = asarr(I, a[0], 'n', n)
            kk = arg(a, k, 1, 'k', 1)
            ranks = None
            if isinstance(kk, (Arr, PList, tuple, range)) and getattr(kk, 'ndim', 1) == 1:
                ranks = asarr(I, PList(I, list(kk)) if isinstance(kk, range) else kk, 'n', n)
                kk = ranks.axes[0].size
            kk = num(_sc(kk))
            pts = o.s['pts']
            npts = pts.axes[0].size
            I.event('kdquery', node=n, k=kk, npts=npts, ranks=ranks)
            i0 = fresh('c', pt.axes[-1].size)
            nb = pt.ndim - 1
            at = lambda bi: lam((i0,), norm(pt.get(list(bi) + [i0])))
            pl = at([ZERO] * nb)
            dn, inm = 'kd_d%d' % o.s['id'], 'kd_i%d' % o.s['id']
            declare(inm, int=True, lo=ZERO, hi=npts)
            kk1 = norm(kk)
            if ranks is not None:
                mk_ = lambda nm: lambda idx: X.uf(nm, [at(idx[:nb])], [norm(sub(ranks.get(idx[nb:]), 1))])
                ax_ = list(pt.axes[:-1]) + [ranks.axes[0]]
            else:
                mk_ = lambda nm: lambda idx: X.uf(nm, [at(idx[:nb])], [A.flat_index(i) for i in idx[nb:]] or [ZERO])
                ax_ = list(pt.axes[:-1]) + ([] if kk1 is ONE else [Axis(kk1)])
            I.kdq = getattr(I, 'kdq', []) + [(o, pl)]
            return (Arr(ax_, mk_(dn), 'f', 'n'), Arr(ax_, mk_(inm), 'i', 'n'))
        return meth(o, f, name)


def nobj_attr(I, o, name, node=None):
    k = o.kind
    tab = {'mat': EX.MAT, 'vec': EX.VEC, 'ksp': EX.KSP, 'pc': EX.PC}.get(k)
    if tab is not None:
        if k == 'ksp' and name == 'pc':
            return o.s['pc']
        if k == 'mat' and name == 'size':
            return tuple(pyint(x) for x in o.s['size'])
        if k == 'vec' and name in ('array', 'array_r'):
            return o.s['v']
        if k == 'mat' and name == 'T':
            return new_mat(I, A.transpose(mat_M(I, o, node)))
        if name in tab:
            return meth(o, tab[name], name)
        I.unmodelled('PETSc %s.%s' % (k, name), node)
    f = {'spmat': _spm, 'bcoo': _bcoo, 'amgx': _amgx, 'kdtree': _kd}.get(k)
    if f is not None:
        r = f(I, o, name, node)
        if r is None:
            I.unmodelled('%s.%s' % (k, name), node)
        return r
    if k == 'jitfn':
        if name == '__wrapped__':
            return o.s['fn']
        return I.getattr(o.s['fn'], name, node)
    if k == 'custom_vjp':
        if name == 'defvjp':
            def f(I, o, a, kw, n):
                o.s['fwd'], o.s['bwd'] = arg(a, kw, 0, 'fwd'), arg(a, kw, 1, 'bwd')
            return meth(o, f, name)
        if name == 'defjvp':
            def f(I, o, a, kw, n):
                o.s['jvp'] = a[0]
                return a[0]
            return meth(o, f, name)
        return I.getattr(o.s['fn'], name, node)
    if k == 'sds' and name in ('shape', 'dtype'):
        return o.s[name]
    if name in o.s:
        return o.s[name]
    g = o.s.get('__getattr__')
    if g is not None:
        return g(I, o, name, node)
    I.unmodelled('attribute %s of %s' % (name, k), node)


def nobj_hasattr(I, o, name):
    try:
        nobj_attr(I, o, name)
        return True
    except Unmodelled:
        return False


def nobj_setattr(I, o, name, v, node=None):
    if o.kind == 'spmat' and name == 'data' and isinstance(v, Arr):
        I.unmodelled('store to sparse data', node)
    o.s[name] = v


def nobj_call(I, o, a, k, n):
    if o.kind == 'jitfn':
        return call_jit(I, o, a, k, n)
    if o.kind == 'custom_vjp':
        if any(I.tracing_of(l) for l in tree_flatten(I, tuple(a), n)[0] if isinstance(l, (Arr, E))):
            I.unmodelled('differentiating through a custom rule', n)
        return I.call(o.s['fn'], a, k, n)
    if '__call__' in o.s:
        return I.call(o.s['__call__'], a, k, n)
    I.unmodelled('call of %s' % o.kind, n)


def nobj_iter(I, o, node):
    if '__iter__' in o.s:
        return o.s['__iter__']
    I.unmodelled('iteration over %s' % o.kind, node)


def nobj_unop(I, o_op, v, n):
    if v.kind in ('spmat', 'bcoo') and isinstance(o_op, ast.USub):
        return NativeObj(I, v.kind, M=A.elementwise(neg, v.s['M']), id=newid())
    I.unmodelled('unary operator on %s' % v.kind, n)


def nobj_asarray(I, o, lib, node=None):
    if o.kind in ('spmat', 'bcoo'):
        I.unmodelled('np.array of a sparse matrix', node)
    if o.kind == 'vec':
        return o.s['v']
    I.unmodelled('array from %s' % o.kind, node)


def nobj_binop(I, t, a, b, n):
    isa = isinstance(a, NativeObj) and a.kind in ('spmat', 'bcoo')
    isb = isinstance(b, NativeObj) and b.kind in ('spmat', 'bcoo')
    if t is ast.MatMult and (isa or isb):
        x = a.s['M'] if isa else asarr(I, a, 'j', n)
        y = b.s['M'] if isb else asarr(I, b, 'j', n)
        r = A.matmul(x, y)
        if isa and isb:
            return mk_sp(I, r)
        lib = 'j' if (isa and a.kind == 'bcoo') or (isinstance(b, Arr) and b.lib == 'j') or (isinstance(a, Arr) and a.lib == 'j') else 'n'
        if isa and a.kind == 'spmat' or isb and b.kind == 'spmat':
            lib = 'n'
            o_ = y if isa else x
            if isinstance(o_, Arr) and I.tracing_of(o_):
                raise ProgramError('scipy sparse product with a traced value', I.where(n))
        return withlib(r, lib)
    if (isa and (is_scal(b) or isb)) or (isb and is_scal(a)):
        x = a.s['M'] if isa else a
        y = b.s['M'] if isb else b
        if t in (ast.Mult, ast.Add, ast.Sub, ast.Div):
            if t is ast.Mult and isa and isb and a.s.get('fmt') == 'matrix':
                I.unmodelled('sparse matrix product', n)
            return NativeObj(I, (a if isa else b).kind, M=arith(I, t, x, y, n), id=newid())
    if t is ast.MatMult and isinstance(a, NativeObj) and a.kind == 'mat':
        M = mat_M(I, a, n)
        if isinstance(b, NativeObj) and b.kind == 'mat':
            return new_mat(I, A.matmul(M, mat_M(I, b, n)))
        if isinstance(b, NativeObj) and b.kind == 'vec':
            return NativeObj(I, 'vec', v=A.matmul(M, b.s['v']))
    I.unmodelled('operator %s on library objects %s, %s' % (t.__name__, getattr(a, 'kind', a), getattr(b, 'kind', b)), n)


def nobj_getitem(I, o, k, n):
    if o.kind in ('spmat', 'bcoo'):
        M = o.s['M']
        r = arr_getitem(I, M, k, n)
        if r.ndim == 2:
            return mk_sp(I, r)
        return r
    if '__getitem__' in o.s:
        return o.s['__getitem__'](I, o, k, n)
    I.unmodelled('subscript of %s' % o.kind, n)


def nobj_setitem(I, o, k, v, node):
    if o.kind == 'spmat':
        o.s['M'] = setitem_arr(I, o.s['M'], k, v, node)
        return
    I.unmodelled('item store on %s' % o.kind, node)


def opq_setitem(I, o, k, v, node):
    if o.desc == 'csrpart' and o.data[1] == 'data' and isinstance(k, Slice):
        own = o.data[0].get('owner')
        a, b = k.a, k.b
        if own is not None and isinstance(a, Opq) and isinstance(b, Opq) and a.desc == b.desc == 'spptr' \
                and a.data[0] is own and b.data[0] is own:
            r0, r1 = a.data[1], b.data[1]
            if equal(num(v) if is_scal(v) else A.scalar_of(v), 0):
                M = own.s['M']
                one = equal(sub(r1, r0), 1)
                own.s["M"] = Arr(M.axes, lambda idx: mul(sub(1, eq(A.flat_index(idx[0]), r0) if one else band(le(r0, A.flat_index(idx[0])), lt(A.flat_index(idx[0]), r1))), M.get(idx)), "f", "n")
                return
    I.unmodelled('item store on %s' % o.desc, node)
