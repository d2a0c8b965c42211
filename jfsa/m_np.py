"""Transfer functions: numpy / jax.numpy."""
from .m_core import *
from .m_core import _flt, _dt, _join_dt, _sc

NP = {}


def np_(*names):
    def d(f):
        for x in names:
            NP[x] = f
        return f
    return d


_MISS = object()


def arg(a, k, i, name, default=_MISS):
    if name in k:
        return k[name]
    if i is not None and i < len(a):
        return a[i]
    if default is _MISS:
        raise ProgramError('missing argument %s' % name)
    return default


def axes_of(I, ax, nd, n=None):
    if ax is None:
        return list(range(nd))
    if isinstance(ax, (tuple, PList)):
        r = [pyint(x) for x in (ax.items if isinstance(ax, PList) else ax)]
    else:
        r = [pyint(_sc(ax))]
    for x in r:
        if not isinstance(x, int):
            I.unmodelled('run-time axis', n)
        if not -nd <= x < nd:
            raise ShapeError('axis %d is out of bounds for rank %d' % (x, nd))
    return [x % nd for x in r]


def shape_of(I, s, n=None):
    if isinstance(s, (tuple, PList)):
        its = I.iter_concrete(s, n)
        return [num(_sc(x)) for x in its]
    if isinstance(s, Arr):
        return [num(A.scalar_of(x)) for x in I.iter_concrete(s, n)]
    return [num(_sc(s))]


def withlib(r, lib):
    if isinstance(r, Arr) and r.lib != lib:
        r2 = Arr(r.axes, r.fn, r.dtype, lib)
        r2._memo = r._memo
        r2.meta = dict(r.meta)
        return r2
    return r


# ---------------------------------------------------------------- creation
@np_('zeros', 'empty')
def _zeros(I, lib, a, k, n):
    d = dt_of(I, arg(a, k, 1, 'dtype', None), n) or ('f', None)
    return A.full(shape_of(I, arg(a, k, 0, 'shape'), n), 0, d[0], lib)


@np_('ones')
def _ones(I, lib, a, k, n):
    d = dt_of(I, arg(a, k, 1, 'dtype', None), n) or ('f', None)
    return A.full(shape_of(I, arg(a, k, 0, 'shape'), n), 1, d[0], lib)


@np_('full')
def _full(I, lib, a, k, n):
    v = arg(a, k, 1, 'fill_value')
    v = asarr(I, v, lib, n)
    sh = [Axis(s) for s in shape_of(I, arg(a, k, 0, 'shape'), n)]
    d = dt_of(I, arg(a, k, 2, 'dtype', None), n)
    return Arr(sh, lambda idx: A.bget(v, idx), d[0] if d else v.dtype, lib)


def _like(c):
    def f(I, lib, a, k, n):
        x = asarr(I, a[0], lib, n)
        d = dt_of(I, arg(a, k, 1, 'dtype', None), n)
        return A.full(x.axes, c, d[0] if d else x.dtype, lib)
    return f


NP['zeros_like'] = _like(0)
NP['ones_like'] = _like(1)
NP['empty_like'] = _like(0)


@np_('full_like')
def _full_like(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    v = asarr(I, arg(a, k, 1, 'fill_value'), lib, n)
    return Arr(x.axes, lambda idx: A.bget(v, idx), x.dtype, lib)


@np_('eye', 'identity')
def _eye(I, lib, a, k, n):
    s = num(_sc(arg(a, k, 0, 'N')))
    m = arg(a, k, 1, 'M', None)
    m = s if m is None else num(_sc(m))
    return Arr([s, m], lambda idx: eq(A.flat_index(idx[0]), A.flat_index(idx[1])), 'f', lib)


@np_('arange')
def _arange(I, lib, a, k, n):
    a = [num(_sc(x)) for x in a]
    st, sp, dl = ZERO, None, ONE
    if len(a) == 1:
        sp = a[0]
    elif len(a) == 2:
        st, sp = a
    else:
        st, sp, dl = a[:3]
    if 'step' in k:
        dl = num(_sc(k['step']))
    if equal(dl, ONE):
        size = norm(sub(sp, st))
    else:
        d = norm(div(sub(sp, st), dl))
        size = d if is_int(d) else opq('ceil', d)
    dt = 'i' if is_int(st) and is_int(dl) else 'f'
    return Arr([size], lambda idx: add(st, mul(dl, A.flat_index(idx[0]))), dt, lib)


@np_('linspace')
def _linspace(I, lib, a, k, n):
    lo, hi = a[0], a[1]
    m = num(_sc(arg(a, k, 2, 'num', 50)))
    ep = arg(a, k, 3, 'endpoint', True)
    lo, hi = num(_sc(lo)), num(_sc(hi))
    dn = sub(m, 1) if ep else m
    return Arr([m], lambda idx: add(lo, mul(div(sub(hi, lo), dn), A.flat_index(idx[0]))), 'f', lib)


@np_('array', 'asarray', 'ascontiguousarray', 'asanyarray')
def _array(I, lib, a, k, n):
    x = arg(a, k, 0, 'object') if 'object' in k or a else arg(a, k, 0, 'a')
    name = k.pop('__name', 'array')
    d = arg(a, k, 1, 'dtype', None)
    if isinstance(x, NativeObj) and x.kind == 'vec':
        x = x.s['v']
    if isinstance(x, Opq) and x.desc in ('csrpart',):
        return x
    if isinstance(x, Opq) and x.desc not in ('range', 'geniter'):
        return x
    if isinstance(x, NativeObj):
        return I.models.nobj_asarray(I, x, lib, n)
    r = asarr(I, x, lib, n)
    if lib == 'n' and I.tracing_of(r):
        raise ProgramError('numpy conversion of a traced JAX value (not traceable)', I.where(n))
    if d is not None:
        r2 = cast(I, r, d, n)
        if is_scal(r2):
            r2 = asarr(I, r2, lib)
    else:
        r2 = r
    same = name != 'array' or k.get('copy', True) in (False, None)
    if r2 is x and same and r2.lib == lib:
        return r2
    if same and d is not None and isinstance(x, Arr) and x.lib == lib and r.dtype == dt_of(I, d, n)[0] and not dt_of(I, d, n)[1]:
        return x
    r3 = Arr(r2.axes, r2.fn, r2.dtype, lib)
    r3._memo = r2._memo
    r3.meta = dict(r2.meta)
    return r3


@np_('copy')
def _copy(I, lib, a, k, n):
    r = asarr(I, a[0], lib, n)
    r3 = Arr(r.axes, r.fn, r.dtype, lib)
    r3._memo = r._memo
    return r3


@np_('stop_gradient')
def _sg(I, lib, a, k, n):
    return a[0]


# ---------------------------------------------------------------- elementwise
def _sign(x):
    return opq('sign', x)


UN = {
    'sqrt': lambda x: power(x, HALF), 'abs': None, 'absolute': None, 'fabs': None,
    'exp': lambda x: opq('exp', x), 'log': lambda x: opq('log', x), 'log10': lambda x: div(opq('log', x), opq('log', num(10))),
    'sin': lambda x: opq('sin', x), 'cos': lambda x: opq('cos', x), 'tan': lambda x: div(opq('sin', x), opq('cos', x)),
    'tanh': lambda x: opq('tanh', x), 'sinh': lambda x: opq('sinh', x), 'cosh': lambda x: opq('cosh', x),
    'arctan': lambda x: opq('arctan', x), 'arccos': lambda x: opq('arccos', x), 'arcsin': lambda x: opq('arcsin', x),
    'negative': neg, 'square': lambda x: mul(x, x), 'reciprocal': lambda x: power(x, -1), 'sign': _sign,
    'real': lambda x: x, 'conj': lambda x: x, 'conjugate': lambda x: x, 'positive': lambda x: x,
    'floor': lambda x: x if is_int(x) else opq('floor', x), 'ceil': lambda x: x if is_int(x) else opq('ceil', x),
    'round': lambda x: x if is_int(x) else opq('round', x), 'rint': lambda x: x if is_int(x) else opq('round', x), 'around': lambda x: x if is_int(x) else opq('round', x),
    'trunc': lambda x: x if is_int(x) else opq('trunc', x),
    'cbrt': lambda x: power(x, Fraction(1, 3)), 'log1p': lambda x: opq('log', add(1, x)), 'expm1': lambda x: sub(opq('exp', x), 1),
    'nan_to_num': lambda x: opq('nan_to_num', x), 'deg2rad': lambda x: mul(x, sym('pi'), Fraction(1, 180)), 'radians': lambda x: mul(x, sym('pi'), Fraction(1, 180)),
}


def eabs(x):
    x = norm(x)
    if x.op == 'num':
        return num(abs(x.args[0]))
    if nonneg(x):
        return x
    return opq('abs', x)


UN['abs'] = UN['absolute'] = UN['fabs'] = eabs


def _mk_un(nm, f):
    def g(I, lib, a, k, n):
        x = arg(a, k, 0, 'x')
        if isinstance(x, NativeObj) and x.kind == 'spmat':
            return I.models.mk_sp(I, A.elementwise(f, x.s['M']), x.s.get('flavor', 'csr'))
        r = ew(I, f, x, node=n)
        if isinstance(r, Arr):
            keep = nm in ('abs', 'absolute', 'negative', 'sign', 'square', 'conj', 'conjugate', 'positive')
            if not keep and r.dtype in 'ib':
                r.dtype = 'f'
            return withlib(r, 'j' if lib == 'j' or r.lib == 'j' else 'n')
        return r
    return g


for _n, _f in UN.items():
    NP[_n] = _mk_un(_n, _f)


def _mk_bool_un(op):
    def g(I, lib, a, k, n):
        r = ew(I, lambda e: opq(op, e) if e.op != 'num' else num(op == 'isfinite'), a[0], dtype='b', node=n)
        if is_scal(r):
            return asarr(I, num(r), lib)
        r.dtype = 'b'
        return r
    return g


NP['isfinite'] = _mk_bool_un('isfinite')


@np_('isnan')
def _isnan(I, lib, a, k, n):
    r = ew(I, lambda e: opq('isnan', e), a[0], dtype='b', node=n)
    return r


BIN = {
    'add': add, 'subtract': sub, 'multiply': mul, 'true_divide': div, 'power': f_pow, 'maximum': emax, 'minimum': emin,
    'fmax': emax, 'fmin': emin, 'float_power': f_pow,
    'floor_divide': f_floordiv, 'mod': lambda x, y: mod(norm(x), norm(y)), 'remainder': lambda x, y: mod(norm(x), norm(y)),
    'arctan2': lambda x, y: opq('arctan2', x, y), 'hypot': lambda x, y: power(add(mul(x, x), mul(y, y)), HALF),
}


def _mk_bin(f, dt=None):
    def g(I, lib, a, k, n):
        if len(a) > 2 and not isinstance(a[2], type(None)):
            return I.models.np_out(I, g, lib, list(a[:2]), k, a[2], n)
        r = ew(I, f, a[0], a[1], dtype=dt, node=n)
        return withlib(r, 'j') if lib == 'j' and isinstance(r, Arr) else r
    return g


for _n, _f in BIN.items():
    NP[_n] = _mk_bin(_f)


@np_('divide')
def _divide(I, lib, a, k, n):
    w = k.get('where')
    if w is None:
        return ew(I, div, a[0], a[1], node=n)
    out = k.get('out')
    if out is None:
        raise ProgramError('numpy.divide with where= but no out=: unselected entries are uninitialised', I.where(n))
    return ew(I, lambda w_, x, y, o: ite(w_, div(x, y), o), w, a[0], a[1], out, dtype='f', node=n)


CMP = {'less': lt, 'less_equal': le, 'greater': lambda x, y: lt(y, x), 'greater_equal': lambda x, y: le(y, x),
       'equal': eq, 'not_equal': lambda x, y: sub(1, eq(x, y))}
for _n, _f in CMP.items():
    NP[_n] = _mk_bin(_f, 'b')


def tobool(e):
    e = norm(e)
    return e if boolish(e) else norm(sub(1, eq(e, 0)))


NP['logical_and'] = _mk_bin(lambda x, y: band(tobool(x), tobool(y)), 'b')
NP['logical_or'] = _mk_bin(lambda x, y: bor(tobool(x), tobool(y)), 'b')
NP['logical_xor'] = _mk_bin(lambda x, y: add(x, y, mul(-2, x, y)), 'b')
NP['bitwise_and'] = NP['logical_and']
NP['bitwise_or'] = NP['logical_or']


@np_('logical_not', 'invert', 'bitwise_not')
def _lnot(I, lib, a, k, n):
    return ew(I, lambda x: sub(1, tobool(x)), a[0], dtype='b', node=n)


@np_('isclose')
def _isclose(I, lib, a, k, n):
    at = num(_sc(arg(a, k, 3, 'atol', Fraction(1, 10 ** 8))))
    rt = num(_sc(arg(a, k, 2, 'rtol', Fraction(1, 10 ** 5))))
    return ew(I, lambda x, y: le(eabs(sub(x, y)), add(at, mul(rt, eabs(y)))), a[0], a[1], dtype='b', node=n)


@np_('allclose')
def _allclose(I, lib, a, k, n):
    return NP['all'](I, lib, [_isclose(I, lib, a, k, n)], {}, n)


@np_('where')
def _where(I, lib, a, k, n):
    if len(a) == 1:
        m = asarr(I, a[0], lib, n)
        if m.dtype != 'b':
            m = A.elementwise(tobool, m, dtype='b')
        return tuple(mask_index(I, m))
    c, x, y = a[:3]
    if isinstance(c, Arr) and c.ndim == 0 or is_scal(c):
        t = I.under(tobool(num(A.scalar_of(c))))
        if t.op == 'num':
            r = asarr(I, x if t.args[0] != 0 else y, lib, n)
            o = asarr(I, y if t.args[0] != 0 else x, lib, n)
            axs = A.broadcast_axes([r, o])
            return withlib(Arr(axs, lambda idx: A.bget(r, idx), _join_dt([r.dtype, o.dtype]), lib), lib)
    r = ew(I, lambda c_, x_, y_: ite(tobool(c_), x_, y_), c, x, y, node=n)
    if isinstance(r, Arr):
        r.dtype = _join_dt([asarr(I, x).dtype, asarr(I, y).dtype])
        return withlib(r, lib) if lib == 'j' else r
    return asarr(I, num(r), lib)


def _ufunc_reduce(nm):
    def f(I, lib, a, k, n):
        x = asarr(I, a[0], lib, n)
        axis = pyint(arg(a, k, 1, 'axis', 0))
        if axis is None or not isinstance(axis, int):
            I.unmodelled('%s.reduce axis' % nm, n)
        axis = axis % x.ndim
        sz = norm(x.axes[axis].size)
        if sz.op != 'num' or not 0 < sz.args[0] <= 64:
            I.unmodelled('%s.reduce over a symbolic axis' % nm, n)
        parts = [Arr(x.axes[:axis] + x.axes[axis + 1:], (lambda j: lambda i: x.get(list(i[:axis]) + [num(j)] + list(i[axis:])))(j), x.dtype, lib)
                 for j in range(int(sz.args[0]))]
        r = parts[0]
        for p in parts[1:]:
            r = NP[nm](I, lib, [r, p], {}, n)
        return r
    return f


for _rn in ('maximum', 'minimum', 'add', 'multiply', 'logical_or', 'logical_and'):
    NP[_rn + '.reduce'] = _ufunc_reduce(_rn)


@np_('argsort')
def _argsort(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    v = [norm(x.get([num(i)])) for i in range(int(norm(x.axes[0].size).args[0]))] if x.ndim == 1 and norm(x.axes[0].size).op == 'num' else None
    if v is None or any(z.op != 'num' for z in v):
        I.unmodelled('argsort of symbolic values', n)
    order = sorted(range(len(v)), key=lambda i: v[i].args[0])
    if len({z.args[0] for z in v}) != len(v):
        I.unmodelled('argsort with ties', n)
    return A.const_array(order, 'i', lib)


@np_('clip')
def _clip(I, lib, a, k, n):
    lo, hi = arg(a, k, 1, 'min', arg(a, k, None, 'a_min', None)), arg(a, k, 2, 'max', arg(a, k, None, 'a_max', None))
    r = a[0]
    if lo is not None:
        r = ew(I, emax, r, lo, node=n)
    if hi is not None:
        r = ew(I, emin, r, hi, node=n)
    return r


@np_('heaviside')
def _heav(I, lib, a, k, n):
    return ew(I, lambda x, h: add(lt(0, x), mul(eq(x, 0), h)), a[0], a[1], node=n)


# ---------------------------------------------------------------- reductions
def _axis_arg(I, a, k, x, n, pos=1):
    return axes_of(I, arg(a, k, pos, 'axis', None), x.ndim, n)


def _red0(I, r, lib):
    return withlib(r, lib) if isinstance(r, Arr) else r


@np_('sum')
def _sum(I, lib, a, k, n):
    x = a[0]
    if isinstance(x, NativeObj) and x.kind == 'spmat':
        return I.models.sp_sum(I, x, arg(a, k, 1, 'axis', None), n)
    x = asarr(I, x, lib, n)
    if k.get('where') is not None:
        x = ew(I, lambda e, w: mul(e, w), x, k['where'])
    return _red0(I, A.sum_axes(x, _axis_arg(I, a, k, x, n), bool(arg(a, k, None, 'keepdims', False))), 'j' if lib == 'j' else x.lib)


@np_('mean', 'average')
def _mean(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    axs = _axis_arg(I, a, k, x, n)
    w = k.get('weights')
    if w is not None:
        w = asarr(I, w, lib, n)
        if w.ndim != x.ndim:
            if w.ndim == 1 and len(axs) == 1:
                w = Arr([Axis(ONE) if q != axs[0] else w.axes[0] for q in range(x.ndim)], (lambda w0: lambda idx: w0.get([idx[axs[0]]]))(w), 'f', lib)
        s = A.sum_axes(A.elementwise(mul, x, w), axs)
        return A.elementwise(div, s, A.sum_axes(A.elementwise(mul, A.elementwise(lambda e: ONE, x), w), axs))
    s = A.sum_axes(x, axs, bool(arg(a, k, None, 'keepdims', False)))
    m = mul(*[x.axes[q].size for q in axs])
    r = A.elementwise(lambda e: div(e, m), s, dtype='f')
    return withlib(r, 'j' if lib == 'j' else x.lib)


@np_('prod', 'product')
def _prod(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    axs = _axis_arg(I, a, k, x, n)
    for q in axs:
        if x.axes[q].size.op != 'num':
            I.unmodelled('product over an axis of generic size', n)
    for q in sorted(axs, reverse=True):
        m = int(x.axes[q].size.args[0])
        parts = [A.index_axis(x, q, j) for j in range(m)]
        r = parts[0] if parts else A.full([], 1, 'f', lib)
        for p in parts[1:]:
            r = A.elementwise(mul, r, p)
        x = r
    return x


def _mk_red(op):
    def g(I, lib, a, k, n):
        x = a[0]
        if isinstance(x, NativeObj) and x.kind == 'spmat':
            x = x.s['M']
        x = asarr(I, x, lib, n)
        if op in ('all', 'any') and x.dtype != 'b':
            x = A.elementwise(tobool, x, dtype='b')
        return _red0(I, A.reduce_axes(op, x, _axis_arg(I, a, k, x, n), bool(arg(a, k, None, 'keepdims', False))), 'j' if lib == 'j' else x.lib)
    return g


NP['all'] = NP['alltrue'] = _mk_red('all')
NP['any'] = _mk_red('any')
NP['max'] = NP['amax'] = NP['nanmax'] = _mk_red('rmax')
NP['min'] = NP['amin'] = NP['nanmin'] = _mk_red('rmin')


def _mk_arg(op):
    def g(I, lib, a, k, n):
        x = asarr(I, a[0], lib, n)
        ax = arg(a, k, 1, 'axis', None)
        if ax is None:
            x = A.ravel(x)
            q = 0
        else:
            q = axes_of(I, ax, x.ndim, n)[0]
        rest = [y for j, y in enumerate(x.axes) if j != q]

        def fn(idx):
            v = fresh('a', x.axes[q].size)
            e = x.get(list(idx[:q]) + [v] + list(idx[q:]))
            r = opq(op, lam((v,), e))
            return r
        return Arr(rest, fn, 'i', lib)
    return g


NP['argmax'] = _mk_arg('argmax')
NP['argmin'] = _mk_arg('argmin')


@np_('cumsum')
def _cumsum(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    q = 0 if x.ndim == 1 else axes_of(I, arg(a, k, 1, 'axis'), x.ndim, n)[0]
    sz = x.axes[q].size
    if sz.op == 'num':
        m = int(sz.args[0])
        parts = [A.index_axis(x, q, j) for j in range(m)]
        acc, out = None, []
        for p in parts:
            acc = p if acc is None else A.elementwise(add, acc, p)
            out.append(acc)
        return A.stack(out, q)

    def fn(idx):
        v = fresh('c', sz)
        j = A.flat_index(idx[q])
        return mksum(v, sz, mul(le(v, j), x.get([v if p == q else i for p, i in enumerate(idx)])))
    return Arr([Axis(sz) if p == q else y for p, y in enumerate(x.axes)], fn, x.dtype, lib)


@np_('trace')
def _trace(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    p, q = axes_of(I, (arg(a, k, 2, 'axis1', 0), arg(a, k, 3, 'axis2', 1)), x.ndim, n)
    return A.sum_axes(_diagonal(x, p, q), [x.ndim - 2])


def _diagonal(x, p, q):
    if not A.same_size(x.axes[p].size, x.axes[q].size):
        raise ShapeError('diagonal of a non-square matrix')
    rest = [j for j in range(x.ndim) if j not in (p, q)]

    def fn(idx):
        s = [None] * x.ndim
        for j, i in zip(rest, idx):
            s[j] = i
        s[p] = s[q] = idx[-1]
        return x.get(s)
    return Arr([x.axes[j] for j in rest] + [x.axes[p]], fn, x.dtype, x.lib)


@np_('diagonal')
def _diagonal_f(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    return _diagonal(x, 0, 1) if x.ndim == 2 else _diagonal(x, *axes_of(I, (arg(a, k, 2, 'axis1', 0), arg(a, k, 3, 'axis2', 1)), x.ndim, n))


@np_('diag')
def _diag(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    kk = pyint(arg(a, k, 1, 'k', 0))
    if kk != 0:
        I.unmodelled('off-diagonal diag', n)
    if x.ndim == 2:
        return _diagonal(x, 0, 1)
    return Arr([x.axes[0], x.axes[0]], lambda idx: mul(eq(A.flat_index(idx[0]), A.flat_index(idx[1])), x.get([idx[0]])), x.dtype, lib)


# ---------------------------------------------------------------- shape manipulation
@np_('reshape')
def _reshape(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    return A.reshape(x, shape_of(I, arg(a, k, 1, 'newshape', k.get('shape')), n))


@np_('ravel')
def _ravel(I, lib, a, k, n):
    return A.ravel(asarr(I, a[0], lib, n))


@np_('transpose', 'permute_dims')
def _transpose(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    ax = arg(a, k, 1, 'axes', None)
    return A.transpose(x, None if ax is None else [pyint(q) for q in I.iter_concrete(ax, n)])


@np_('swapaxes')
def _swapaxes(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    p, q = axes_of(I, (a[1], a[2]), x.ndim, n)
    perm = list(range(x.ndim))
    perm[p], perm[q] = q, p
    return A.transpose(x, perm)


@np_('moveaxis')
def _moveaxis(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    s, d = axes_of(I, a[1], x.ndim, n), axes_of(I, a[2], x.ndim, n)
    order = [q for q in range(x.ndim) if q not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return A.transpose(x, order)


@np_('expand_dims')
def _expand(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    ax = arg(a, k, 1, 'axis')
    for q in sorted([pyint(v) % (x.ndim + 1) for v in (I.iter_concrete(ax, n) if isinstance(ax, (tuple, PList)) else [ax])]):
        x = A.expand_dims(x, q)
    return x


@np_('squeeze')
def _squeeze(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    ax = arg(a, k, 1, 'axis', None)
    return A.squeeze(x, None if ax is None else axes_of(I, ax, x.ndim, n))


def _seq(I, v, lib, n):
    if isinstance(v, Arr):
        return [A.index_axis(v, 0, j) for j in range(int(pyint(v.axes[0].size)))] if isinstance(pyint(v.axes[0].size), int) else I.unmodelled('sequence from array', n)
    return I.iter_items(v, n)


@np_('concatenate', 'concat')
def _concatenate(I, lib, a, k, n):
    its = _seq(I, arg(a, k, 0, 'arrays', None) if a or 'arrays' in k else None, lib, n)
    ax = arg(a, k, 1, 'axis', 0)
    if any(isinstance(x, GSeg) for x in its):
        return withlib(seg_array(I, its, lib, n, 'concat', pyint(ax) or 0), lib)
    arrs = [asarr(I, x, lib, n) for x in its]
    if not arrs:
        raise ProgramError('need at least one array to concatenate', I.where(n))
    if ax is None:
        arrs = [A.ravel(x) for x in arrs]
        ax = 0
    for x in arrs:
        if x.ndim == 0:
            raise ProgramError('zero-dimensional arrays cannot be concatenated', I.where(n))
    r = A.concat(arrs, axes_of(I, ax, arrs[0].ndim, n)[0])
    return withlib(Arr(r.axes, r.fn, _join_dt([x.dtype for x in arrs]), lib), lib)


def _atleast(x, nd):
    while x.ndim < nd:
        x = A.expand_dims(x, 0)
    return x


@np_('vstack', 'row_stack')
def _vstack(I, lib, a, k, n):
    its = _seq(I, a[0], lib, n)
    if any(isinstance(x, GSeg) for x in its):
        g = [x for x in its if isinstance(x, GSeg)]
        for x in g:
            for v in x.values:
                if isinstance(v, Arr) and v.ndim < 2:
                    I.unmodelled('vstack of generic 1-d pieces', n)
        return withlib(seg_array(I, its, lib, n, 'concat', 0), lib)
    arrs = [_atleast(asarr(I, x, lib, n), 2) for x in its]
    return withlib(A.concat(arrs, 0), lib) if len(arrs) != 1 else arrs[0]


@np_('hstack')
def _hstack(I, lib, a, k, n):
    its = _seq(I, a[0], lib, n)
    if any(isinstance(x, GSeg) for x in its):
        return withlib(seg_array(I, its, lib, n, 'concat', 0 if _g_ndim(its) == 1 else 1), lib)
    arrs = [_atleast(asarr(I, x, lib, n), 1) for x in its]
    return withlib(A.concat(arrs, 0 if arrs[0].ndim == 1 else 1), lib)


def _g_ndim(its):
    for x in its:
        v = x.values[0] if isinstance(x, GSeg) else x
        if isinstance(v, Arr):
            return v.ndim
    return 1


@np_('column_stack')
def _column_stack(I, lib, a, k, n):
    arrs = [asarr(I, x, lib, n) for x in _seq(I, a[0], lib, n)]
    arrs = [A.expand_dims(x, 1) if x.ndim == 1 else x for x in arrs]
    return A.concat(arrs, 1)


@np_('stack')
def _stack(I, lib, a, k, n):
    v = arg(a, k, 0, 'arrays')
    ax = pyint(arg(a, k, 1, 'axis', 0))
    if isinstance(v, Arr):
        if ax == 0:
            return v
        v = PList(I, _seq(I, v, lib, n))
    its = I.iter_items(v, n)
    if any(isinstance(x, GSeg) for x in its):
        r = seg_array(I, its, lib, n, 'stack')
        if ax != 0:
            r = A.transpose(r, _mv(r.ndim, 0, ax))
        return withlib(r, lib)
    arrs = [asarr(I, x, lib, n) for x in its]
    if not arrs:
        raise ProgramError('need at least one array to stack', I.where(n))
    return withlib(A.stack(arrs, ax), lib)


def _mv(nd, s, d):
    o = [q for q in range(nd) if q != s]
    o.insert(d % nd, s)
    return o


@np_('select')
def _select(I, lib, a, k, n):
    cs, vs = I.iter_concrete(arg(a, k, 0, 'condlist'), n), I.iter_concrete(arg(a, k, 1, 'choicelist'), n)
    if len(cs) != len(vs):
        raise ProgramError('select: %d conditions, %d choices' % (len(cs), len(vs)), I.where(n))
    r = arg(a, k, 2, 'default', 0)
    for c, v in reversed(list(zip(cs, vs))):
        r = NP['where'](I, lib, [c, v, r], {}, n)
    return r


@np_('block')
def _block(I, lib, a, k, n):
    def depth(x):
        return 1 + max([depth(y) for y in I.iter_concrete(x, n)] or [0]) if isinstance(x, (PList, tuple)) else 0
    def go(x, d, axis):
        if d == 0:
            return _atleast(asarr(I, x, lib, n), D)
        return NP['concatenate'](I, lib, [PList(I, [go(y, d - 1, axis + 1) for y in I.iter_concrete(x, n)])], {'axis': axis}, n)
    D = depth(a[0])
    return go(a[0], D, -D)


@np_('repeat')
def _repeat(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    r = arg(a, k, 1, 'repeats')
    ax = arg(a, k, 2, 'axis', None)
    if isinstance(r, Arr) and r.ndim > 0 or isinstance(r, (PList, tuple)):
        I.unmodelled('repeat with per-element counts', n)
    r = num(_sc(r))
    if ax is None:
        x = A.ravel(x)
        q = 0
    else:
        q = axes_of(I, ax, x.ndim, n)[0]
    if A.is_one(x.axes[q]):
        return x.like(lambda idx: x.get([ZERO if p == q else i for p, i in enumerate(idx)]), [Axis(r) if p == q else y for p, y in enumerate(x.axes)])
    axp = A.prod_axis([x.axes[q], Axis(r)])
    nleaf = len(A._flatten_factors(x.axes[q]))

    def fn(idx):
        pi = A.conv_index(idx[q], axp)
        its = pi.items[:nleaf]
        inner = its[0] if nleaf == 1 else PIdx(its, axp.parts[:nleaf])
        return x.get([inner if p == q else i for p, i in enumerate(idx)])
    return x.like(fn, [axp if p == q else y for p, y in enumerate(x.axes)])


@np_('tile')
def _tile(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    reps = shape_of(I, arg(a, k, 1, 'reps'), n)
    while x.ndim < len(reps):
        x = A.expand_dims(x, 0)
    reps = [ONE] * (x.ndim - len(reps)) + reps
    for q, r in enumerate(reps):
        if equal(r, ONE):
            continue
        x = _tile1(x, q, r)
    return x


def _tile1(x, q, r):
    if A.is_one(x.axes[q]):
        return x.like(lambda idx: x.get([ZERO if p == q else i for p, i in enumerate(idx)]), [Axis(r) if p == q else y for p, y in enumerate(x.axes)])
    axp = A.prod_axis([Axis(r), x.axes[q]])

    def fn(idx):
        its = A.conv_index(idx[q], axp).items[1:]
        inner = its[0] if len(its) == 1 else PIdx(its, axp.parts[1:])
        return x.get([inner if p == q else i for p, i in enumerate(idx)])
    return x.like(fn, [axp if p == q else y for p, y in enumerate(x.axes)])


@np_('broadcast_to')
def _broadcast_to(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    sh = [Axis(s) for s in shape_of(I, a[1], n)]
    axs = A.broadcast_axes([x, Arr(sh, None)])
    for p, q in zip(axs, sh):
        if not A.same_size(p.size, q.size):
            raise ShapeError('broadcast_to')
    return Arr(axs, lambda idx: A.bget(x, idx), x.dtype, x.lib)


@np_('delete')
def _delete(I, lib, a, k, n):
    x = asarr(I, arg(a, k, 0, 'arr', None), lib, n)
    axis = arg(a, k, 2, 'axis', None)
    if axis is None:
        x, axis = A.ravel(x), 0
    d = axes_of(I, axis, x.ndim, n)[0]
    o = arg(a, k, 1, 'obj', None)
    try:
        o = [pyint(v) for v in (I.iter_items(o, n) if not isinstance(o, (int, X.E)) else [o])]
    except Unmodelled:
        o = [None]
    if not all(isinstance(v, int) and v >= 0 for v in o):
        I.unmodelled('delete of run-time positions', n)
    segs, at = [], 0
    for v in sorted(set(o)):
        if v > at:
            segs.append(A.slice_axis(x, d, num(at), num(v), 1))
        at = v + 1
    segs.append(A.slice_axis(x, d, num(at), x.axes[d].size, 1))
    r = A.concat(segs, d) if len(segs) > 1 else segs[0]
    return withlib(Arr(r.axes, r.fn, x.dtype, lib), lib)


@np_('take')
def _take(I, lib, a, k, n):
    x = arg(a, k, 0, 'a')
    i = arg(a, k, 1, 'indices')
    for v in (x, i):
        if lib == 'n' and isinstance(v, Arr) and I.tracing_of(v):
            raise ProgramError('numpy call on a traced JAX value (not traceable)', I.where(n))
    x = asarr(I, x, lib, n)
    ax = arg(a, k, 2, 'axis', None)
    if ax is None:
        x = A.ravel(x)
        q = 0
    else:
        q = axes_of(I, ax, x.ndim, n)[0]
    i = asarr(I, i, lib, n)
    return withlib(A.take_axis(x, i, q), lib)


@np_('take_along_axis')
def _taa(I, lib, a, k, n):
    x, i = asarr(I, a[0], lib, n), asarr(I, a[1], lib, n)
    q = axes_of(I, arg(a, k, 2, 'axis'), x.ndim, n)[0]
    return Arr(i.axes, lambda idx: x.get([norm(i.get(idx)) if p == q else idx[p] for p in range(x.ndim)]), x.dtype, lib)


@np_('flip', 'flipud', 'fliplr')
def _flip(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    for q in _axis_arg(I, a, k, x, n):
        x = A.slice_axis(x, q, None, None, -1)
    return x


@np_('roll')
def _roll(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    s = num(_sc(a[1]))
    q = axes_of(I, arg(a, k, 2, 'axis', None), x.ndim, n)
    if len(q) != 1:
        I.unmodelled('roll', n)
    q = q[0]
    return x.like(lambda idx: x.get([mod(sub(A.flat_index(i), s), x.axes[q].size) if p == q else i for p, i in enumerate(idx)]))


@np_('meshgrid')
def _meshgrid(I, lib, a, k, n):
    arrs = [asarr(I, x, lib, n) for x in a]
    m = len(arrs)
    ind = k.get('indexing', 'xy')
    order = list(range(m))
    if ind == 'xy' and m >= 2:
        order[0], order[1] = 1, 0
    axs = [arrs[o].axes[0] for o in order]
    out = []
    for j, x in enumerate(arrs):
        pos = order.index(j)
        out.append(Arr(axs, (lambda x, pos: lambda idx: x.get([idx[pos]]))(x, pos), x.dtype, lib))
    return PList(I, out)


@np_('argwhere')
def _argwhere(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    if lib == 'n' and I.tracing_of(x):
        raise ProgramError('numpy call on a traced JAX value (not traceable)', I.where(n))
    return withlib(argwhere(I, x), lib)


@np_('nonzero')
def _nonzero(I, lib, a, k, n):
    m = asarr(I, a[0], lib, n)
    if m.dtype != 'b':
        m = A.elementwise(tobool, m, dtype='b')
    return tuple(mask_index(I, m))


@np_('flatnonzero')
def _flatnonzero(I, lib, a, k, n):
    m = A.ravel(asarr(I, a[0], lib, n))
    return mask_index(I, m)[0]


@np_('isin', 'in1d')
def _isin(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    t = A.ravel(asarr(I, a[1], lib, n))
    v = fresh('m', t.axes[0].size)
    te = t.get([v])
    return Arr(x.axes, lambda idx: opq('in', x.get(idx), lam((v,), te)), 'b', lib)


@np_('unique')
def _unique(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    if k:
        I.unmodelled('unique with options', n)
    x = A.ravel(x)
    I.opq_ctr += 1
    nm = 'unique%d' % I.opq_ctr
    I.argw_unique = getattr(I, 'argw_unique', {})
    I.argw_unique[nm] = x
    s = size_sym('n_' + nm, 0)
    declare(nm, inj=True, int=x.dtype == 'i')
    return A.symbolic(nm, [s], x.dtype, lib)


@np_('count_nonzero')
def _cnz(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    m = A.elementwise(tobool, x, dtype='b')
    return A.sum_axes(m, _axis_arg(I, a, k, x, n))


@np_('shape')
def _shape(I, lib, a, k, n):
    return tuple(pyint(s) for s in asarr(I, a[0], lib, n).shape)


@np_('ndim')
def _ndim(I, lib, a, k, n):
    return asarr(I, a[0], lib, n).ndim


@np_('size')
def _size(I, lib, a, k, n):
    return pyint(mul(*asarr(I, a[0], lib, n).shape))


@np_('atleast_1d')
def _al1(I, lib, a, k, n):
    return _atleast(asarr(I, a[0], lib, n), 1)


@np_('atleast_2d')
def _al2(I, lib, a, k, n):
    return _atleast(asarr(I, a[0], lib, n), 2)


@np_('append')
def _append(I, lib, a, k, n):
    return _concatenate(I, lib, [PList(I, [a[0] if isinstance(a[0], Arr) else asarr(I, a[0]), _atleast(asarr(I, a[1]), 1)])], k, n)


@np_('split', 'array_split')
def _split(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    s = a[1]
    q = axes_of(I, arg(a, k, 2, 'axis', 0), x.ndim, n)[0]
    if isinstance(s, (PList, tuple, Arr)):
        cuts = [num(_sc(v)) for v in I.iter_concrete(s, n)]
        lo, out = None, []
        for c in cuts + [None]:
            out.append(A.slice_axis(x, q, lo, c))
            lo = c
        return PList(I, out)
    m = pyint(_sc(s))
    sz = x.axes[q].size
    if isinstance(m, int):
        b = norm(div(sz, m))
        return PList(I, [A.slice_axis(x, q, norm(mul(b, j)), norm(mul(b, j + 1))) for j in range(m)])
    I.unmodelled('array_split into a generic number of pieces', n)


# ---------------------------------------------------------------- linear algebra
@np_('matmul')
def _matmul(I, lib, a, k, n):
    return binop(I, __import__('ast').MatMult(), a[0], a[1], n)


@np_('dot', 'linalg.dot')
def _dot(I, lib, a, k, n):
    if isinstance(a[0], NativeObj) or isinstance(a[1], NativeObj):
        return binop(I, __import__('ast').MatMult(), a[0], a[1], n)
    x, y = asarr(I, a[0], lib, n), asarr(I, a[1], lib, n)
    if x.ndim == 0 or y.ndim == 0:
        return A.elementwise(mul, x, y)
    if x.ndim == 1 and y.ndim <= 2 or x.ndim == 2 and y.ndim <= 2 or y.ndim == 1:
        return withlib(A.matmul(x, y), 'j' if lib == 'j' else x.lib)
    return _tensordot_axes(x, y, [x.ndim - 1], [y.ndim - 2])


def _tensordot_axes(x, y, ax, ay):
    rx = [q for q in range(x.ndim) if q not in ax]
    ry = [q for q in range(y.ndim) if q not in ay]
    bx = []
    for p, q in zip(ax, ay):
        bx.append(A.unify_axis(x.axes[p], y.axes[q]))
        if not A.same_size(x.axes[p].size, y.axes[q].size):
            raise ShapeError('tensordot sizes differ')
    big = Arr([x.axes[q] for q in rx] + [y.axes[q] for q in ry] + bx, lambda idx: mul(
        x.get(_place(x.ndim, rx, idx[:len(rx)], ax, idx[len(rx) + len(ry):])),
        y.get(_place(y.ndim, ry, idx[len(rx):len(rx) + len(ry)], ay, idx[len(rx) + len(ry):]))), 'f', 'j' if 'j' in (x.lib, y.lib) else 'n')
    return A.sum_axes(big, list(range(big.ndim - len(bx), big.ndim))) if bx else big


def _place(nd, keep, ik, ax, ia):
    s = [None] * nd
    for q, i in zip(keep, ik):
        s[q] = i
    for q, i in zip(ax, ia):
        s[q] = i
    return s


@np_('tensordot')
def _tensordot(I, lib, a, k, n):
    x, y = asarr(I, a[0], lib, n), asarr(I, a[1], lib, n)
    ax = arg(a, k, 2, 'axes', 2)
    if isinstance(ax, (int, E)):
        m = pyint(ax)
        return _tensordot_axes(x, y, list(range(x.ndim - m, x.ndim)), list(range(m)))
    p, q = I.iter_concrete(ax, n)
    return _tensordot_axes(x, y, axes_of(I, p, x.ndim, n), axes_of(I, q, y.ndim, n))


@np_('inner')
def _inner(I, lib, a, k, n):
    x, y = asarr(I, a[0], lib, n), asarr(I, a[1], lib, n)
    if x.ndim == 0 or y.ndim == 0:
        return A.elementwise(mul, x, y)
    return _tensordot_axes(x, y, [x.ndim - 1], [y.ndim - 1])


@np_('vdot')
def _vdot(I, lib, a, k, n):
    return _tensordot_axes(A.ravel(asarr(I, a[0])), A.ravel(asarr(I, a[1])), [0], [0])


@np_('outer')
def _outer(I, lib, a, k, n):
    x, y = A.ravel(asarr(I, a[0], lib, n)), A.ravel(asarr(I, a[1], lib, n))
    return _tensordot_axes(x, y, [], [])


@np_('kron')
def _kron(I, lib, a, k, n):
    x, y = asarr(I, a[0], lib, n), asarr(I, a[1], lib, n)
    if x.ndim != y.ndim:
        I.unmodelled('kron', n)
    big = Arr([Axis(z.size) for p, q in zip(x.axes, y.axes) for z in (p, q)], lambda idx: mul(x.get(idx[0::2]), y.get(idx[1::2])), 'f', lib)
    return A.reshape(big, [mul(p.size, q.size) for p, q in zip(x.axes, y.axes)])


@np_('cross')
def _cross(I, lib, a, k, n):
    x, y = asarr(I, a[0], lib, n), asarr(I, a[1], lib, n)
    dx, dy = pyint(x.axes[-1].size), pyint(y.axes[-1].size)
    if dx == 3 and dy == 3:
        g = lambda z, j: A.index_axis(z, z.ndim - 1, j)
        c = []
        for i in range(3):
            p, q = (i + 1) % 3, (i + 2) % 3
            c.append(A.elementwise(lambda u, v, w, t: sub(mul(u, v), mul(w, t)), g(x, p), g(y, q), g(x, q), g(y, p)))
        return A.stack(c, c[0].ndim)
    if dx == 2 and dy == 2:
        g = lambda z, j: A.index_axis(z, z.ndim - 1, j)
        return A.elementwise(lambda u, v, w, t: sub(mul(u, v), mul(w, t)), g(x, 0), g(y, 1), g(x, 1), g(y, 0))
    # generic: opaque, antisymmetric not exploited
    axs = A.broadcast_axes([x, y])
    v, w = fresh('i', x.axes[-1].size), fresh('i', y.axes[-1].size)
    return Arr(axs, lambda idx: opq('cross', lam((v,), A.bget(x, list(idx[:-1]) + [v])), lam((w,), A.bget(y, list(idx[:-1]) + [w])), A.flat_index(idx[-1])), 'f', lib)


@np_('einsum')
def _einsum(I, lib, a, k, n):
    spec = a[0]
    if not isinstance(spec, str):
        I.unmodelled('einsum form', n)
    spec = spec.replace(' ', '')
    arrs = [asarr(I, x, lib, n) for x in a[1:]]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in spec:
        I.unmodelled('einsum ellipsis', n)
    if len(ins) != len(arrs):
        raise ProgramError('einsum operand count', I.where(n))
    size = {}
    for s, x in zip(ins, arrs):
        if len(s) != x.ndim:
            raise ProgramError('einsum subscripts %r do not match rank %d' % (s, x.ndim), I.where(n))
        for c, y in zip(s, x.axes):
            if c in size:
                if not A.same_size(size[c].size, y.size):
                    raise ShapeError('einsum index %s has sizes %s and %s' % (c, show(size[c].size), show(y.size)))
                size[c] = A.unify_axis(size[c], y)
            else:
                size[c] = y
    summed = [c for c in size if c not in out]
    for c in out:
        if c not in size:
            raise ProgramError('einsum output index %s' % c, I.where(n))
    big = Arr([size[c] for c in out] + [size[c] for c in summed],
              lambda idx: mul(*[x.get([dict(zip(list(out) + summed, idx))[c] for c in s]) for s, x in zip(ins, arrs)]), 'f',
              'j' if lib == 'j' or any(x.lib == 'j' for x in arrs) else 'n')
    return A.sum_axes(big, list(range(len(out), len(out) + len(summed)))) if summed else big


def sqmat(x, n=None):
    if x.ndim < 2:
        raise ShapeError('matrix expected')
    p, q = x.axes[-2], x.axes[-1]
    if not A.same_size(p.size, q.size):
        raise ShapeError('square matrix expected, got %s x %s' % (show(p.size), show(q.size)))
    return p


def matlam(x, idx):
    """lam over the last two axes at batch idx"""
    s = x.axes[-1].size
    i, j = fresh('p', s), fresh('q', s)
    return lam((i, j), norm(x.get(list(idx) + [i, j])))


@np_('linalg.det')
def _det(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    p = sqmat(x, n)
    if p.size is ONE:
        return A.squeeze(x, [x.ndim - 2, x.ndim - 1])
    return Arr(x.axes[:-2], lambda idx: opq('det', matlam(x, idx)), 'f', lib)


def const_inv(x, lib, n, I):
    """exact inverse of a matrix of numbers, or None"""
    if x.ndim != 2:
        return None
    m = norm(x.axes[0].size)
    if m.op != 'num' or m is ONE or m.args[0] > 64:
        return None
    rows = []
    for i in range(int(m.args[0])):
        rows.append([])
        for j in range(int(m.args[0])):
            e = norm(x.get([num(i), num(j)]))
            if e.op != 'num':
                return None
            rows[-1].append(e.args[0])
    from .m_basix import inverse
    r = inverse(rows)
    if r is None:
        raise ProgramError('inverse of a singular matrix', I.where(n))
    return A.const_array(r, 'f', lib)


@np_('linalg.inv')
def _inv(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    sqmat(x, n)
    c = const_inv(x, lib, n, I)
    if c is not None:
        return c
    return Arr(list(x.axes[:-2]) + [Axis(x.axes[-2].size), Axis(x.axes[-1].size)],
               lambda idx: opq('inv', matlam(x, idx[:-2]), A.flat_index(idx[-2]), A.flat_index(idx[-1])), 'f', lib)


@np_('linalg.pinv')
def _pinv(I, lib, a, k, n):
    return _inv(I, lib, a, k, n)


@np_('linalg.solve')
def _solve(I, lib, a, k, n):
    x, b = asarr(I, a[0], lib, n), asarr(I, a[1], lib, n)
    sqmat(x, n)
    if x.ndim > 2:
        # stacked matrices: inverse times right-hand sides
        if b.ndim < 2:
            I.unmodelled('linalg.solve of stacked matrices with one right-hand side vector', n)
        if not A.same_size(x.axes[-1].size, b.axes[-2].size):
            raise ShapeError('linalg.solve sizes differ')
        return withlib(A.matmul(_inv(I, lib, [x], {}, n), b), lib)
    if x.axes[-1].kind != 'atom' or not A.same_size(x.axes[-1].size, b.axes[0 if b.ndim == 1 else -2].size):
        if not A.same_size(x.axes[-1].size, b.axes[0 if b.ndim == 1 else -2].size):
            raise ShapeError('linalg.solve sizes differ')
    I.event('npsolve', A=x, b=b, node=n)
    return withlib(linsolve(I, x, b), lib)


def linsolve(I, Am, b):
    """opaque exact solution of Am x = b"""
    if Am.ndim != 2 or b.ndim not in (1, 2):
        raise ShapeError('linear solve: matrix rank %d, right-hand side rank %d' % (Am.ndim, b.ndim))
    if not A.same_size(Am.axes[0].size, Am.axes[1].size) or not A.same_size(Am.axes[0].size, b.axes[0].size):
        raise ShapeError('linear solve: sizes %s x %s and %s do not match' % tuple(show(q.size) for q in (Am.axes[0], Am.axes[1], b.axes[0])))
    ci = const_inv(Am, b.lib, None, I)
    if ci is not None:
        return A.matmul(ci, b)
    ax_ = b.axes[0]
    if ax_.kind == 'atom':
        for q in Am.axes:
            if q.kind != 'atom':
                ax_ = q
    col = b.ndim == 2
    memo = {}

    def lm(vs, e):
        return lam(vs, norm(e)) if vs else norm(e)

    def fn(idx):
        if 'l' not in memo:
            out = []
            for bk1, i1, v1 in A.axis_cases(ax_):
                for bk2, i2, v2 in A.axis_cases(ax_):
                    out.append(lm(tuple(v1) + tuple(v2), Am.get([i1, i2])))
            memo['l'] = out
        c = idx[1] if col else None
        bl = [lm(tuple(v1), b.get([i1] + ([c] if col else []))) for bk1, i1, v1 in A.axis_cases(ax_)]
        return opq('linsolve', *(memo['l'] + bl + [num(e) for e in A._leaf(A.conv_index(idx[0], ax_))]))
    return Arr([ax_] + ([b.axes[1]] if col else []), fn, 'f', b.lib)


@np_('linalg.norm')
def _norm(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    o = arg(a, k, 1, 'ord', None)
    if isinstance(o, E) and o.op == 'inf':
        return NP['max'](I, lib, [A.elementwise(eabs, x)], {}, n)
    if o is not None and pyint(o) != 2 and o != 'fro':
        if pyint(o) == 1 and x.ndim == 1:
            return A.sum_axes(A.elementwise(eabs, x), [0])
        I.unmodelled('norm order', n)
    ax = _axis_arg(I, a, k, x, n, 2)
    if pyint(o) == 2 and len(ax) == 2 and o is not None:
        I.unmodelled('spectral norm', n)
    s = A.sum_axes(A.elementwise(lambda e: mul(e, e), x), ax, bool(arg(a, k, 3, 'keepdims', False)))
    r = A.elementwise(lambda e: power(e, HALF), s, dtype='f')
    return withlib(r, 'j' if lib == 'j' else x.lib)


def _opq_mat(nm, k_out):
    def g(I, lib, a, k, n):
        x = asarr(I, a[0], lib, n)
        sqmat(x, n)
        s = x.axes[-1].size
        w = Arr(list(x.axes[:-2]) + [Axis(s)], lambda idx: opq(nm + '_w', matlam(x, idx[:-1]), A.flat_index(idx[-1])), 'f', lib)
        v = Arr(list(x.axes[:-2]) + [Axis(s), Axis(s)], lambda idx: opq(nm + '_v', matlam(x, idx[:-2]), A.flat_index(idx[-2]), A.flat_index(idx[-1])), 'f', lib)
        return (w, v) if k_out == 2 else w
    return g


NP['linalg.eigh'] = _opq_mat('eigh', 2)
NP['linalg.eig'] = _opq_mat('eig', 2)
NP['linalg.eigvalsh'] = _opq_mat('eigh', 1)


@np_('vectorize')
def _vectorize(I, lib, a, k, n):
    I.unmodelled('vectorize', n)


@np_('sort')
def _sort(I, lib, a, k, n):
    x = asarr(I, a[0], lib, n)
    if x.ndim != 1:
        I.unmodelled('sort', n)
    v = fresh('s', x.axes[0].size)
    l = lam((v,), norm(x.get([v])))
    return Arr([x.axes[0].size], lambda idx: opq('sort', l, A.flat_index(idx[0])), x.dtype, lib)


@np_('interp')
def _interp(I, lib, a, k, n):
    xp, fp = asarr(I, a[1]), asarr(I, a[2])
    v, w = fresh('s', xp.axes[0].size), fresh('s', fp.axes[0].size)
    l1, l2 = lam((v,), xp.get([v])), lam((w,), fp.get([w]))
    return ew(I, lambda x: opq('interp', x, l1, l2), a[0])


@np_('triu_indices', 'tril_indices', 'loadtxt', 'genfromtxt', 'load')
def _unm(I, lib, a, k, n):
    I.unmodelled('numpy function without model', n)


@np_('savetxt', 'save', 'savez', 'set_printoptions', 'seterr')
def _noop(I, lib, a, k, n):
    return None


@np_('isscalar')
def _isscalar(I, lib, a, k, n):
    return is_scal(a[0])


@np_('float64', 'float32', 'int32', 'int64', 'float_', 'bool_', 'int_', 'complex128', 'int8', 'int16')
def _dtcall(I, lib, a, k, n):
    return cast(I, a[0] if is_num_like(a[0]) else asarr(I, a[0], lib, n), k['__name'], n)


@np_('issubdtype')
def _issubdtype(I, lib, a, k, n):
    x, y = dt_of(I, a[0], n), a[1]
    yn = y.name.split('.')[-1] if isinstance(y, Ext) else str(y)
    return {'complexfloating': x[0] == 'c', 'floating': x[0] == 'f', 'integer': x[0] == 'i', 'inexact': x[0] in 'fc'}.get(yn, True)
