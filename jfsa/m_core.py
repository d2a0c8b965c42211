"""Transfer functions: operators, comparison, indexing, functional updates."""
import ast
from .expr import *
from . import expr as X
from . import arr as A
from .arr import Arr, Axis, ShapeError, Unmodelled, PIdx, CIdx
from . import interp as IN
from .interp import (PList, PDict, Inst, Func, Native, Cls, Mod, Ext, Ph, Opq, Slice, NonZero, NativeObj, Env,
                     GSeg, ProgramError, ProgramAttr, ExcVal, pyint, UNDEF, Bound, Partial)

HALF = Fraction(1, 2)
SCAL = (bool, int, float, Fraction, E)


def is_scal(x):
    return isinstance(x, SCAL)


def is_num_like(x):
    return isinstance(x, SCAL) or isinstance(x, Arr)


def simp(x):
    """E constants back to python ints (reals stay terms)"""
    if isinstance(x, E) and x.op == 'num' and x.args[0].denominator == 1:
        return int(x.args[0])
    return x


# ------------------------------------------------------------------ conversion to arrays
def stack_seq(I, v, lib, node=None):
    """nested python sequence -> Arr"""
    items = v.items if isinstance(v, PList) else list(v)
    if any(isinstance(x, GSeg) for x in items):
        return seg_array(I, items, lib, node, 'stack')
    if not items:
        return Arr([num(0)], lambda idx: ZERO, 'f', lib)
    arrs = [asarr(I, x, lib, node) for x in items]
    r = A.stack(arrs, 0)
    return Arr(r.axes, r.fn, _join_dt([a.dtype for a in arrs]), lib)


def _join_dt(ds):
    return 'c' if 'c' in ds else 'f' if 'f' in ds else 'i' if 'i' in ds else 'b' if ds else 'f'


def asarr(I, x, lib='j', node=None):
    if isinstance(x, Arr):
        return x
    if is_scal(x):
        a = A.to_arr(x, lib)
        return a
    if isinstance(x, (PList, tuple, range)):
        return stack_seq(I, x, lib, node)
    if isinstance(x, Opq) and x.desc == 'range':
        n = x.data[1]
        return Arr([n], lambda idx: add(x.data[0], mul(x.data[2], idx[0])), 'i', lib)
    if isinstance(x, Opq) and x.desc == 'geniter':
        return stack_seq(I, PList(I, x.data), lib, node)
    if isinstance(x, Ph):
        return I.ph_map(x, lambda y: asarr(I, y, lib, node))
    if isinstance(x, NativeObj) and x.kind == 'spmat':
        return x.s['M']
    if x is None or isinstance(x, str):
        raise ProgramError('array operation on %r' % (x,), I.where(node))
    I.unmodelled('array from %r' % (x,), node)


def seg_array(I, items, lib, node, how, axis=0):
    """np.array / stack / concatenate of a list with generic segments"""
    if len(items) != 1 or not isinstance(items[0], GSeg):
        # concrete + generic: concatenate pieces
        parts = []
        for x in items:
            if isinstance(x, GSeg):
                parts.append(seg_array(I, [x], lib, node, how, axis))
            else:
                a = asarr(I, x, lib, node)
                parts.append(A.expand_dims(a, 0) if how == 'stack' else a)
        return A.concat(parts, axis)
    g = items[0]
    if how == 'stack' and any(isinstance(v, GSeg) for v in g.values):
        # each step appends a whole sequence of elements
        return seg_array(I, [GSeg(g.n, g.var, [seg_array(I, list(g.values), lib, node, 'stack')])], lib, node, 'concat', 0)
    vals = [asarr(I, v, lib, node) for v in g.values]
    if how == 'stack':
        if len(vals) == 1:
            a = vals[0]
            return Arr([Axis(g.n)] + [I.subst_axis(x, {}) for x in a.axes],
                       lambda idx: I._subst_get(a, idx[1:], {g.var: A.flat_index(idx[0])}), a.dtype, lib)
        st = A.stack(vals, 0)
        k = num(len(vals))
        axp = A.prod_axis([Axis(g.n), Axis(k)])

        def fn(idx):
            i, j = A.conv_index(idx[0], axp).items
            return I._subst_get(st, [j] + list(idx[1:]), {g.var: A.flat_index(i)})
        return Arr([axp] + list(st.axes[1:]), fn, st.dtype, lib)
    # concatenate along axis
    if len(vals) != 1:
        I.unmodelled('concatenation of several generic pieces per step', node)
    a = vals[0]
    if a.ndim == 0:
        raise ProgramError('concatenation of 0-d arrays', I.where(node))
    s = norm(a.axes[axis].size)
    i = g.var
    if i not in fv(s):
        axp = A.prod_axis([Axis(g.n), a.axes[axis]])
        if axp.kind != 'prod':
            axp = Axis(norm(mul(g.n, s)), 'prod', (Axis(g.n), a.axes[axis]))

        def fn(idx):
            p = A.conv_index(idx[axis], axp)
            it = p.items
            inner = it[1] if len(it) == 2 else A.PIdx(it[1:], axp.parts[1:])
            return I._subst_get(a, list(idx[:axis]) + [inner] + list(idx[axis + 1:]), {i: A.flat_index(it[0])})
        return Arr(list(a.axes[:axis]) + [axp] + list(a.axes[axis + 1:]), fn, a.dtype, lib)
    # contiguous cover: piece i holds elements i*b .. of one array
    inds = []
    for z in X.walk(s):
        if is_ind(z) and i in fv(z) and z not in inds:
            inds.append(z)
    if len({key(z) for z in inds}) != 1:
        # last-piece form through min(): size = min((i+1) b, N) - i b
        I.unmodelled('sizes of concatenated pieces are not of the form "b, ..., b, rest"', node)
    b = norm(X.replace_atoms(s, {z: ONE for z in inds}))
    r = norm(X.replace_atoms(s, {z: ZERO for z in inds}))
    last = norm(sub(g.n, 1))
    c = inds[0]
    neg_ = False
    if equal(c, lt(i, last)):
        pass
    elif equal(c, eq(i, last)):
        b, r, neg_ = r, b, True
    else:
        raise ShapeError('pieces of the batch loop do not tile the range (split condition %s)' % show(c))
    if i in fv(b):
        raise ShapeError('pieces of the batch loop do not tile the range: size %s varies' % show(b))
    total = norm(add(mul(last, b), subst(r, {i: last})))
    axn = Axis(total)
    probe = Arr([Axis(b) if q == axis else x for q, x in enumerate(a.axes)], None)
    out = {}

    def elem(idx):
        """element at flat position k on the axis"""
        k = fresh('k', total)
        j = norm(sub(k, mul(i, b)))
        e = I._subst_get(a, list(idx[:axis]) + [j] + list(idx[axis + 1:]), {})
        res = []
        for v in (ZERO, ONE):
            e1 = norm(X.replace_atoms(norm(e), {z: v for z in X.walk(norm(e)) if is_ind(z) and i in fv(z) and equal(z, c)}))
            res.append(e1)
        if not equal(res[0], res[1]):
            raise ShapeError('the last piece of the batch loop is computed differently from the others')
        e = res[0]
        if i in fv(e):
            raise ShapeError('pieces of the batch loop do not tile the range: piece i, row j depends on %s' % show(e, 300))
        return subst(e, {k: A.flat_index(idx[axis])})
    return Arr([axn if q == axis else x for q, x in enumerate(a.axes)], elem, a.dtype, lib)


# ------------------------------------------------------------------ dtype tokens
def dt_of(I, t, node=None):
    """-> ('f'|'i'|'b'|'c'|'o', narrow or None)"""
    if t is None:
        return None
    if isinstance(t, Native):
        t = t.name
    if isinstance(t, Opq) and t.desc == 'dtype':
        return t.data
    n = t.name if isinstance(t, Ext) else t
    if isinstance(n, str):
        n = n.split('.')[-1]
        if n in ('float', 'float64', 'double', 'float_', 'floating', 'number'):
            return ('f', None)
        if n in ('float32', 'single', 'float16', 'half', 'bfloat16'):
            return ('f', 'f32' if n in ('float32', 'single') else n)
        if n in ('int', 'int64', 'int32', 'int_', 'intp', 'IntType', 'longlong', 'uint32', 'uint64', 'long'):
            return ('i', None)
        if n in ('int8', 'int16', 'uint8', 'uint16'):
            return ('i', n)
        if n in ('bool', 'bool_'):
            return ('b', None)
        if n in ('complex', 'complex128'):
            return ('c', None)
        if n in ('ScalarType', 'RealType'):
            return ('f', None)
        if n == 'object':
            return ('o', None)
    I.unmodelled('dtype %r' % (t,), node)


def cast(I, a, t, node=None):
    d = dt_of(I, t, node)
    if d is None:
        return a
    k, nar = d

    def conv(e, src):
        if k == 'b':
            if src == 'b' or (isinstance(e, E) and is_ind(e)):
                return e
            return sub(1, eq(e, 0))
        if k == 'i' and src in ('f', 'c') and not is_int(e):
            e = opq('trunc', e)
        if nar:
            e = opq(nar, e)
        return e
    if is_scal(a):
        return conv(num(a), 'i' if is_int(num(a)) else 'f')
    src = a.dtype
    if k == src and not nar:
        return Arr(a.axes, lambda idx: a.get(idx), k, a.lib)
    return Arr(a.axes, lambda idx: conv(a.get(idx), src), k, a.lib)


# ------------------------------------------------------------------ elementwise helper
def ew(I, f, *args, dtype=None, node=None, lib=None):
    if all(is_scal(x) for x in args):
        return simp(f(*[num(x) for x in args]))
    arrs = [asarr(I, x, 'n', node) for x in args]
    r = A.elementwise(f, *arrs, dtype=dtype)
    if lib:
        r.lib = lib
    return r


# ------------------------------------------------------------------ operators
def binop(I, op, a, b, n=None):
    if isinstance(a, Ph) and not isinstance(a, Arr):
        return I.ph_map(a, lambda x: binop(I, op, x, b, n))
    if isinstance(b, Ph):
        return I.ph_map(b, lambda x: binop(I, op, a, x, n))
    t = type(op)
    if is_num_like(a) and is_num_like(b):
        return arith(I, t, a, b, n)
    # strings
    if t is ast.Add and isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) or (isinstance(a, Opq) and a.desc == 'str') or isinstance(b, str) or (isinstance(b, Opq) and b.desc == 'str'):
        if t is ast.Add and (isinstance(b, (str, Opq)) and isinstance(a, (str, Opq))):
            pa = a.data if isinstance(a, Opq) and isinstance(a.data, tuple) else (a,)
            pb = b.data if isinstance(b, Opq) and isinstance(b.data, tuple) else (b,)
            return Opq('str', pa + pb)
        if t is ast.Mod:
            return Opq('str', ('%', a, b))
        if t is ast.Mult and isinstance(a, str) and isinstance(b, int):
            return a * b
        if t is ast.Mult:
            return Opq('str')
        raise ProgramError('unsupported operand types for string operator', I.where(n))
    # lists and tuples
    if t is ast.Add:
        if isinstance(a, PList) and isinstance(b, PList):
            return PList(I, list(a.items) + list(b.items))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if t is ast.Mult:
        if isinstance(b, (PList, tuple)) and is_scal(a):
            a, b = b, a
        if isinstance(a, (PList, tuple)) and is_scal(b):
            k = pyint(b)
            if isinstance(k, int):
                return PList(I, list(a.items) * k) if isinstance(a, PList) else a * k
            if isinstance(a, PList) and len(a.items) == 1:
                return PList(I, [GSeg(k, fresh('r', k), [a.items[0]])])
    if isinstance(a, (set, frozenset, tuple)) and isinstance(b, (set, frozenset, tuple)) and t in (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor):
        a, b = set(a), set(b)
        return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.Sub: a - b, ast.BitXor: a ^ b}[t]
    if isinstance(a, PDict) and isinstance(b, PDict) and t is ast.BitOr:
        d = PDict(I, a.d)
        d.d.update(b.d)
        return d
    if isinstance(a, NativeObj) or isinstance(b, NativeObj):
        return I.models.nobj_binop(I, t, a, b, n)
    if isinstance(a, (PList, tuple)) and isinstance(b, Arr):
        return arith(I, t, asarr(I, a, b.lib, n), b, n)
    if isinstance(b, (PList, tuple)) and isinstance(a, Arr):
        return arith(I, t, a, asarr(I, b, a.lib, n), n)
    if a is None or b is None:
        raise ProgramError('unsupported operand type None', I.where(n))
    if isinstance(a, Inst):
        nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__', ast.MatMult: '__matmul__'}.get(t)
        if nm and a.cls.find(nm)[1] is not None:
            return I.call(I.getattr(a, nm, n), [b], {}, n)
    if isinstance(a, Opq) and isinstance(b, Opq) and a.desc == b.desc == 'time':
        return a
    I.unmodelled('operator %s on %r and %r' % (t.__name__, type(a).__name__, type(b).__name__), n)


def f_floordiv(x, y):
    return norm(floordiv(norm(x), norm(y)))


def f_pow(x, y):
    return power(x, y)


def arith(I, t, a, b, n=None):
    if t is ast.MatMult:
        if is_scal(a) or is_scal(b):
            raise ProgramError('matmul with a scalar', I.where(n))
        return A.matmul(a, b)
    pyn = isinstance(a, (int, float)) and isinstance(b, (int, float))
    if pyn:
        try:
            if t is ast.Add:
                return _pf(a + b, add, a, b)
            if t is ast.Sub:
                return _pf(a - b, sub, a, b)
            if t is ast.Mult:
                return _pf(a * b, mul, a, b)
            if t is ast.FloorDiv:
                return a // b
            if t is ast.Mod:
                return a % b
            if t is ast.Div:
                if b == 0:
                    raise ProgramError('division by zero', I.where(n))
                return _flt(div(num(a), num(b)))
            if t is ast.Pow:
                r = power(num(a), num(b))
                return _flt(r) if isinstance(a, float) or isinstance(b, float) or (isinstance(b, int) and b < 0) else simp(r)
            if t is ast.BitAnd:
                return a & b
            if t is ast.BitOr:
                return a | b
            if t is ast.LShift:
                return a << b
        except TypeError:
            raise ProgramError('bad operand', I.where(n))
    if t is ast.Add:
        f = add
    elif t is ast.Sub:
        f = sub
    elif t is ast.Mult:
        f = mul
    elif t is ast.Div:
        f = div
        return ew(I, f, a, b, dtype='c' if 'c' in (_dt(a), _dt(b)) else 'f', node=n)
    elif t is ast.Pow:
        f = f_pow
    elif t is ast.FloorDiv:
        f = f_floordiv
    elif t is ast.Mod:
        f = lambda x, y: mod(norm(x), norm(y))
    elif t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        isb = lambda x: isinstance(x, bool) or (isinstance(x, Arr) and x.dtype == 'b') or (isinstance(x, E) and boolish(x))
        if not (isb(a) and isb(b)):
            I.unmodelled('bitwise operator on integers', n)
        f = {ast.BitAnd: band, ast.BitOr: bor, ast.BitXor: lambda x, y: add(x, y, mul(-2, x, y))}[t]
        return ew(I, f, a, b, dtype='b', node=n)
    else:
        I.unmodelled('operator %s' % t.__name__, n)
    if is_scal(a) and is_scal(b):
        return simp(f(num(a), num(b)))
    return ew(I, f, a, b, node=n)


def boolish(x):
    if x.op == 'num':
        return x.args[0] in (0, 1)
    if is_ind(x):
        return True
    return all(all(is_ind(f) for f, _ in t.f) for t in nf(x))


def _dt(x):
    if isinstance(x, Arr):
        return x.dtype
    return 'i' if isinstance(x, int) else 'f'


def _pf(v, f, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return v
    return _flt(f(num(a), num(b)))


def _flt(e):
    """exact rational constant, python float when it round-trips"""
    if isinstance(e, E) and e.op == 'num':
        fr = e.args[0]
        v = float(fr)
        if Fraction(repr(v)) == fr:
            return v
    return e


def compare(I, op, a, b, n=None):
    t = type(op)
    if isinstance(a, Ph):
        return I.ph_map(a, lambda x: compare(I, op, x, b, n))
    if isinstance(b, Ph) and t not in (ast.In, ast.NotIn):
        return I.ph_map(b, lambda x: compare(I, op, a, x, n))
    if t is ast.Is or t is ast.IsNot:
        r = same_object(I, a, b, n)
        if isinstance(r, E):
            return r if t is ast.Is else I._b(sub(1, r))
        return r if t is ast.Is else not r
    if t is ast.In or t is ast.NotIn:
        r = contains_(I, b, a, n)
        if t is ast.In:
            return r
        return (not r) if isinstance(r, bool) else I._b(sub(1, r))
    if is_num_like(a) and is_num_like(b):
        f = {ast.Lt: lt, ast.LtE: le, ast.Gt: lambda x, y: lt(y, x), ast.GtE: lambda x, y: le(y, x),
             ast.Eq: eq, ast.NotEq: lambda x, y: sub(1, eq(x, y))}[t]
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return bool(f(num(a), num(b)).args[0])
        if is_scal(a) and is_scal(b):
            r = I.under(f(num(a), num(b)))
            if r.op == 'num':
                return r.args[0] != 0
            return r
        return ew(I, f, a, b, dtype='b', node=n)
    if t in (ast.Eq, ast.NotEq):
        r = py_eq(I, a, b, n)
        if isinstance(r, Arr):
            return r if t is ast.Eq else A.elementwise(lambda e: sub(1, e), r, dtype='b')
        if isinstance(r, bool):
            return r if t is ast.Eq else not r
        return I._b(r) if t is ast.Eq else I._b(sub(1, r))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {ast.LtE: a <= b, ast.Lt: a < b, ast.GtE: a >= b, ast.Gt: a > b}[t]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 0:
        return t in (ast.LtE, ast.GtE)
    if isinstance(a, (PList, tuple)) and isinstance(b, Arr) or isinstance(b, (PList, tuple)) and isinstance(a, Arr):
        return compare(I, op, asarr(I, a, 'n', n), asarr(I, b, 'n', n), n)
    if a is None or b is None:
        raise ProgramError('comparison with None', I.where(n))
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
    I.unmodelled('comparison %s of %r and %r' % (t.__name__, a, b), n)


def same_object(I, a, b, n):
    if a is None or b is None:
        if a is None and b is None:
            return True
        o = b if a is None else a
        if isinstance(o, Opq) and o.desc.startswith('head:'):
            I.unmodelled('identity test on loop-carried value', n)
        return False
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return a == b
    if isinstance(a, (Ext, str, int)) and type(a) is type(b):
        return a == b
    if a is b:
        return True
    if isinstance(a, Bound) and isinstance(b, Bound):
        return False
    return False


def py_eq(I, a, b, n):
    if a is b and not isinstance(a, Arr):
        return True
    if isinstance(a, (PList, tuple)) and isinstance(b, Arr):
        return ew(I, eq, asarr(I, a, 'n', n), b, dtype='b')
    if isinstance(b, (PList, tuple)) and isinstance(a, Arr):
        return ew(I, eq, a, asarr(I, b, 'n', n), dtype='b')
    if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
        if isinstance(a, PList) != isinstance(b, PList):
            return False
        x = a.items if isinstance(a, PList) else a
        y = b.items if isinstance(b, PList) else b
        if any(isinstance(q, GSeg) for q in list(x) + list(y)):
            I.unmodelled('comparison of generic lists', n)
        if len(x) != len(y):
            return False
        acc = ONE
        for p, q in zip(x, y):
            r = I.truth(compare(I, ast.Eq(), p, q, n), n)
            acc = band(acc, num(r) if isinstance(r, bool) else r)
        acc = I.under(acc)
        return acc.args[0] != 0 if acc.op == 'num' else acc
    if isinstance(a, PDict) and isinstance(b, PDict):
        if set(a.d) != set(b.d):
            return False
        acc = ONE
        for k in a.d:
            r = I.truth(compare(I, ast.Eq(), a.d[k], b.d[k], n), n)
            acc = band(acc, num(r) if isinstance(r, bool) else r)
        acc = I.under(acc)
        return acc.args[0] != 0 if acc.op == 'num' else acc
    if is_scal(a) and isinstance(b, Arr) and b.ndim == 0 or is_scal(b) and isinstance(a, Arr) and a.ndim == 0:
        r = norm(eq(num(_sc(a)), num(_sc(b))))
        return r.args[0] != 0 if r.op == 'num' else r
    simple = (str, int, float, bool, type(None), set, frozenset, Ext)
    if isinstance(a, simple) and isinstance(b, simple):
        return a == b
    if isinstance(a, (str, type(None), Ext, Native, Cls, Func, PDict, tuple, PList)) or isinstance(b, (str, type(None), Ext, Native, Cls, Func, PDict, tuple, PList)):
        if isinstance(a, Opq) or isinstance(b, Opq):
            if not {getattr(a, 'desc', ''), getattr(b, 'desc', '')} & {'str'}:
                return False
            I.unmodelled('comparison of opaque string', n)
        return False
    if isinstance(a, Opq) and isinstance(b, Opq) and a.desc == b.desc == 'dtype':
        return a.data == b.data
    I.unmodelled('equality of %r and %r' % (a, b), n)


def contains_(I, c, x, n):
    if isinstance(c, PDict):
        if isinstance(x, Opq):
            I.unmodelled('opaque key', n)
        v = c.d.get(I.hashable(x, n), UNDEF) if True else None
        if isinstance(v, Ph) and (v.a is UNDEF or v.b is UNDEF):
            cnd = v.c if v.b is UNDEF else sub(1, v.c)
            return I._b(I.under(cnd))
        return v is not UNDEF
    if isinstance(c, (set, frozenset)):
        return I.hashable(x, n) in c
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (PList, tuple, range)):
        its = I.iter_concrete(c, n)
        acc = ZERO
        for y in its:
            r = I.truth(compare(I, ast.Eq(), x, y, n), n)
            if r is True:
                return True
            if r is not False:
                acc = bor(acc, r)
        acc = I.under(acc)
        return acc.args[0] != 0 if acc.op == 'num' else acc
    if isinstance(c, Ph):
        return I.ph_map(c, lambda y: contains_(I, y, x, n))
    I.unmodelled('membership in %r' % (c,), n)


# ------------------------------------------------------------------ indexing
def getitem(I, o, k, n=None):
    if isinstance(o, Inst):
        fs = I.nt_fields(o)
        if fs is not None:
            return seq_getitem(I, tuple(o.f[x] for x in fs), k, n)
        if o.cls.find('__getitem__')[1] is not None:
            return I.call(I.getattr(o, '__getitem__', n), [k], {}, n)
    if isinstance(o, Ph):
        return I.ph_map(o, lambda x: getitem(I, x, k, n))
    if isinstance(k, Ph):
        return I.ph_map(k, lambda x: getitem(I, o, x, n))
    if isinstance(o, (PList, tuple)) and not isinstance(o, Arr):
        return seq_getitem(I, o, k, n)
    if isinstance(o, PDict):
        kk = I.hashable(k, n)
        if kk not in o.d:
            raise ProgramError('KeyError %r' % (kk,), I.where(n))
        v = o.d[kk]
        if isinstance(v, Ph) and (v.a is UNDEF or v.b is UNDEF):
            t = I.under(v.c)
            if t.op == 'num':
                v = v.a if t.args[0] != 0 else v.b
                if v is UNDEF:
                    raise ProgramError('KeyError %r' % (kk,), I.where(n))
                return v
            return v.b if v.a is UNDEF else v.a
        return v
    if isinstance(o, Arr):
        r = arr_getitem(I, o, k, n)
        if o.lib == 'n' and isinstance(r, Arr) and all(x is None or x is Ellipsis or isinstance(x, (Slice, int, E)) and not isinstance(x, bool)
                                                       for x in (k if isinstance(k, tuple) else (k,))):
            I.view(o, r, lambda b: arr_getitem(I, b, k, n), lambda b, v: I.models.setitem_arr(I, b, k, v, n))
        return r
    if isinstance(o, str):
        k = pyint(k) if not isinstance(k, Slice) else k
        if isinstance(k, int):
            return o[k]
        if isinstance(k, Slice):
            p = [pyint(x) if x is not None else None for x in (k.a, k.b, k.c)]
            if all(x is None or isinstance(x, int) for x in p):
                return o[slice(*p)]
    if isinstance(o, Opq) and o.desc == 'str':
        return Opq('str')
    if isinstance(o, NativeObj):
        return I.models.nobj_getitem(I, o, k, n)
    if isinstance(o, E) and (k is Ellipsis or k == ()):
        return o
    if isinstance(o, (int, float, E)):
        if k is None or (isinstance(k, tuple) and all(x is None for x in k)):
            return arr_getitem(I, asarr(I, o), k, n)
        raise ProgramError('scalar is not subscriptable', I.where(n))
    if isinstance(o, Opq):
        return I.models.opq_getitem(I, o, k, n)
    if o is None:
        raise ProgramError("'NoneType' object is not subscriptable", I.where(n))
    if isinstance(o, Inst) and o.cls.find('__getitem__')[1] is not None:
        return I.call(I.getattr(o, '__getitem__', n), [k], {}, n)
    I.unmodelled('subscript of %r' % (o,), n)


def seg_len(x):
    return norm(mul(x.n, len(x.values))) if isinstance(x, GSeg) else ONE


def gen_len(items):
    t = ZERO
    for x in items:
        t = add(t, seg_len(x))
    return norm(t)


def gen_at(I, items, k, n=None):
    """element k of a list with generic segments (k within range)"""
    off, pieces = ZERO, []
    for x in items:
        if isinstance(x, GSeg):
            if len(x.values) != 1:
                I.unmodelled('index into generic list', n)
            v = I.subst_val(x.values[0], {x.var: norm(sub(k, off))})
        else:
            v = x
        off = norm(add(off, seg_len(x)))
        pieces.append((off, v))
    r = pieces[-1][1]
    for off, v in reversed(pieces[:-1]):
        c = I.under(lt(k, off))
        r = v if c is ONE else r if c is ZERO else I.join(c, v, r)
    return r


def gen_slice(I, items, k, n):
    """items[a:b] of a list with generic segments, small concrete a and b"""
    p = [pyint(x) if x is not None else None for x in (k.a, k.b, k.c)]
    if not all(x is None or isinstance(x, int) for x in p) or p[2] not in (None, 1):
        I.unmodelled('slice of generic list', n)
    items = list(items)

    def drop(m, front):
        while m and items:
            q = 0 if front else -1
            x = items[q]
            if not isinstance(x, GSeg):
                del items[q]
                m -= 1
                continue
            if len(x.values) != 1 or not X.nonneg_cases(sub(x.n, m)):
                I.unmodelled('slice of generic list', n)
            v = fresh('s', norm(sub(x.n, m)))
            items[q] = GSeg(norm(sub(x.n, m)), v, [I.subst_val(x.values[0], {x.var: norm(add(v, m)) if front else v})])
            m = 0
    a, b = p[0] or 0, p[1]
    if a < 0 or (b is not None and b >= 0):
        if b is not None and 0 <= a <= b and not any(isinstance(x, GSeg) for x in items[:b]):
            return items[a:b]
        if a < 0 and b is None and len(items) >= -a and not any(isinstance(x, GSeg) for x in items[a:]):
            return items[a:]
        I.unmodelled('slice of generic list', n)
    drop(a, True)
    if b is not None:
        drop(-b, False)
    return items


def seq_getitem(I, o, k, n):
    items = o.items if isinstance(o, PList) else list(o)
    if isinstance(k, Slice):
        if any(isinstance(x, GSeg) for x in items):
            if k.a is None and k.b is None and k.c is None:
                return PList(I, items)
            r = gen_slice(I, items, k, n)
            return PList(I, r) if isinstance(o, PList) else tuple(r)
        p = [pyint(x) if x is not None else None for x in (k.a, k.b, k.c)]
        if not all(x is None or isinstance(x, int) for x in p):
            I.unmodelled('list slice with run-time bounds', n)
        r = items[slice(*p)]
        return PList(I, r) if isinstance(o, PList) else tuple(r)
    if isinstance(k, Arr):
        k = A.scalar_of(k)
    k = pyint(k)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, int):
        if any(isinstance(x, GSeg) for x in items):
            if len(items) == 1 and len(items[0].values) == 1:
                g = items[0]
                kk = num(k) if k >= 0 else norm(add(g.n, k))
                return I.subst_val(g.values[0], {g.var: kk})
            if k >= 0 and not any(isinstance(x, GSeg) for x in items[:k + 1]):
                return items[k]
            if k < 0 and len(items) >= -k and not any(isinstance(x, GSeg) for x in items[k:]):
                return items[k]
            tot = gen_len(items)
            return gen_at(I, items, num(k) if k >= 0 else norm(add(tot, k)), n)
        if not -len(items) <= k < len(items):
            raise ProgramError('list index out of range', I.where(n))
        return items[k]
    if isinstance(k, E):
        if len(items) == 1 and isinstance(items[0], GSeg) and len(items[0].values) == 1:
            g = items[0]
            return I.subst_val(g.values[0], {g.var: k})
        if items and not any(isinstance(x, GSeg) for x in items):
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                r = I.join(eq(k, j), items[j], r)
            return r
    if isinstance(k, (str, tuple)):
        raise ProgramError('list indices must be integers', I.where(n))
    I.unmodelled('sequence index %r' % (k,), n)


def _key_list(I, a, k, n):
    ks = list(k) if isinstance(k, tuple) else [k]
    out = []
    nspec = sum(1 for x in ks if x is not None and x is not Ellipsis)
    # boolean masks consume several axes
    for x in ks:
        if isinstance(x, NonZero):
            nspec += x.mask.ndim - 1
        elif isinstance(x, Arr) and x.dtype == 'b':
            nspec += x.ndim - 1
    if nspec > a.ndim:
        raise ProgramError('too many indices for array of rank %d' % a.ndim, I.where(n))
    seen = False
    for x in ks:
        if x is Ellipsis:
            if seen:
                raise ProgramError('two ellipses', I.where(n))
            seen = True
            out.extend([Slice(None, None, None)] * (a.ndim - nspec))
        elif isinstance(x, (PList,)):
            out.append(asarr(I, x, 'n', n))
        elif isinstance(x, range) or (isinstance(x, Opq) and x.desc == 'range') or (isinstance(x, tuple) and x and not isinstance(x[0], (Slice, type(None)))):
            out.append(asarr(I, x, 'n', n))
        elif isinstance(x, Arr) and x.dtype == 'b':
            out.extend(mask_index(I, x))
        elif isinstance(x, NonZero):
            out.extend(mask_index(I, x.mask))
        elif isinstance(x, Opq) and x.desc == 'nonzero':
            out.extend(x.data)
        elif isinstance(x, Arr) and x.ndim == 0:
            out.append(x.get([]))
        else:
            out.append(x)
    while sum(1 for x in out if x is not None) < a.ndim:
        out.append(Slice(None, None, None))
    return out


def mask_index(I, mask):
    """index arrays of the true entries of a boolean array, row-major"""
    aw = argwhere(I, mask)
    return [Arr([aw.axes[0]], (lambda d: lambda idx: aw.get([idx[0], num(d)]))(d), 'i', mask.lib) for d in range(mask.ndim)]


def argwhere(I, mask):
    if mask.dtype != 'b':
        m0 = mask
        mask = A.elementwise(lambda e: sub(1, eq(e, 0)), m0, dtype='b')
    szs = [norm(x.size) for x in mask.axes]
    if mask.axes and all(s.op == 'num' and s.args[0] <= 64 for s in szs):
        import itertools
        hits = []
        for ii in itertools.product(*[range(int(s.args[0])) for s in szs]):
            v = norm(mask.get([num(i) for i in ii]))
            if v.op != 'num':
                break
            if v is not ZERO:
                hits.append(list(ii))
        else:
            return A.const_array(hits, 'i', mask.lib) if hits else Arr([Axis(ZERO), Axis(num(mask.ndim))], lambda i: ZERO, 'i', mask.lib)
    vs, idx = (), []
    for x in mask.axes:
        for bk, it, v in A.axis_cases(Axis(x.size)):
            idx.append(it)
            vs += v
            break
    body = lam(vs, norm(mask.get(idx)))
    k = (key(body), tuple(key(x.size) for x in mask.axes))
    if k not in I.argw:
        nm = 'argw%d' % len(I.argw)
        n = size_sym('n_' + nm, 0)
        I.argw[k] = (nm, n, mask)
        for d, x in enumerate(mask.axes):
            declare('%s_%d' % (nm, d), int=True, lo=ZERO, hi=x.size, inj=(mask.ndim == 1))
    nm, n, m = I.argw[k]

    def fn(idx):
        d = norm(A.flat_index(idx[1]))
        if d.op == 'num':
            return app('%s_%d' % (nm, int(d.args[0])), A.flat_index(idx[0]))
        r = app('%s_%d' % (nm, mask.ndim - 1), A.flat_index(idx[0]))
        for q in range(mask.ndim - 2, -1, -1):
            r = ite(eq(d, q), app('%s_%d' % (nm, q), A.flat_index(idx[0])), r)
        return r
    r = Arr([Axis(n), Axis(num(mask.ndim))], fn, 'i', mask.lib)
    return r


def arr_getitem(I, a, k, n=None):
    ks = _key_list(I, a, k, n)
    adv = [x for x in ks if isinstance(x, Arr)]
    # slices first (per source axis)
    ax_i = 0
    cur = a
    plan = []        # per output position: ('s', axis) ('n',) ('i', axis, E) ('a', axis, Arr)
    for x in ks:
        if x is None:
            plan.append(('n',))
            continue
        if isinstance(x, Slice):
            if isinstance(x.a, Ph) or isinstance(x.b, Ph):
                x = Slice(_bound(I, x.a, ZERO, n), _bound(I, x.b, cur.axes[ax_i].size, n), x.c)
            st = pyint(x.c) if x.c is not None else 1
            if not (x.a is None and x.b is None and st == 1):
                cur = A.slice_axis(cur, ax_i, _sc(x.a), _sc(x.b), st)
            plan.append(('s', ax_i))
        elif is_scal(x):
            plan.append(('i', ax_i, _fixneg(num(x), cur.axes[ax_i], I, n)))
        elif isinstance(x, Arr):
            plan.append(('a', ax_i, x))
        else:
            I.unmodelled('index %r' % (x,), n)
        ax_i += 1
    src = cur
    if not adv:
        oaxes, pos = [], []
        for p in plan:
            if p[0] == 'n':
                oaxes.append(Axis(ONE))
                pos.append(None)
            elif p[0] == 's':
                oaxes.append(src.axes[p[1]])
                pos.append(p[1])
        fixed = {p[1]: p[2] for p in plan if p[0] == 'i'}
        if not oaxes and not fixed and src.ndim:
            pass

        def fn(idx):
            s = [None] * src.ndim
            for q, e in fixed.items():
                s[q] = e
            for i, q in zip(idx, pos):
                if q is not None:
                    s[q] = i
            return src.get(s)
        return Arr(oaxes, fn, a.dtype, a.lib)
    # advanced
    adv = [p[2] for p in plan if p[0] == 'a']
    bax = A.broadcast_axes(adv)
    where_adv = [j for j, p in enumerate(plan) if p[0] in ('a', 'i')]
    contiguous = where_adv == list(range(where_adv[0], where_adv[-1] + 1))
    oaxes, slots = [], []
    nb = len(bax)

    def put_adv():
        for q, x in enumerate(bax):
            oaxes.append(x)
            slots.append(('b', q))
    if not contiguous:
        put_adv()
    done = not contiguous
    for p in plan:
        if p[0] in ('a', 'i'):
            if not done:
                put_adv()
                done = True
            continue
        if p[0] == 'n':
            oaxes.append(Axis(ONE))
            slots.append(('n',))
        else:
            oaxes.append(src.axes[p[1]])
            slots.append(('s', p[1]))

    def fn2(idx):
        s = [None] * src.ndim
        b = [None] * nb
        for i, sl in zip(idx, slots):
            if sl[0] == 'b':
                b[sl[1]] = i
            elif sl[0] == 's':
                s[sl[1]] = i
        for p in plan:
            if p[0] == 'i':
                s[p[1]] = p[2]
            elif p[0] == 'a':
                e = norm(A.bget(p[2], b))
                if e.op == 'num' and e.args[0] < 0:
                    e = norm(add(src.axes[p[1]].size, e))
                s[p[1]] = e
        return src.get(s)
    return Arr(oaxes, fn2, a.dtype, a.lib)


def _sc(x):
    if isinstance(x, Arr):
        return A.scalar_of(x)
    return x


def _bound(I, v, dflt, n):
    """slice bound that is None on some paths"""
    if isinstance(v, Ph):
        return ite(v.c, num(_bound(I, v.a, dflt, n)), num(_bound(I, v.b, dflt, n)))
    if v is None:
        return dflt
    v = _sc(v)
    if not is_scal(v):
        I.unmodelled('slice bound', n)
    return v


def _fixneg(e, axis, I, n):
    e = norm(e)
    if e.op == 'num':
        if e.args[0] < 0:
            e = norm(add(axis.size, e))
        if axis.size.op == 'num' and (e.op == 'num') and not 0 <= e.args[0] < axis.size.args[0]:
            raise ProgramError('index %s is out of bounds for axis of size %s' % (show(e), show(axis.size)), I.where(n))
    else:
        b = X.bound(e, True)
        if b is not None and norm(b).op == 'num' and norm(b).args[0] < 0:
            e = norm(add(axis.size, e))
    return e


def scatter(I, a, k, v, mode, n=None):
    """a with a[k] (op)= v ; returns new Arr"""
    ks = _key_list(I, a, k, n)
    v = asarr(I, v, a.lib, n)
    view = arr_getitem(I, a, k, n)          # shape of the selected region
    if v.ndim > view.ndim:
        lead = v.ndim - view.ndim
        if all(A.is_one(x) for x in v.axes[:lead]):
            v = A.squeeze(v, list(range(lead)))
        else:
            raise ShapeError('cannot assign rank %d value to rank %d selection' % (v.ndim, view.ndim))
    # check broadcast compatibility
    for x, y in zip(reversed(v.axes), reversed(view.axes)):
        if not A.is_one(x) and not A.same_size(x.size, y.size):
            raise ShapeError('cannot assign axis of size %s to selection of size %s' % (show(x.size), show(y.size)))
    sel = []
    q = 0
    for x in ks:
        if x is None:
            sel.append(('n',))
            continue
        if isinstance(x, Slice):
            sel.append(('s', q, x))
        elif is_scal(x):
            sel.append(('i', q, _fixneg(num(x), a.axes[q], I, n)))
        else:
            sel.append(('a', q, x))
        q += 1
    adv = [p[2] for p in sel if p[0] == 'a']
    bax = A.broadcast_axes(adv) if adv else []
    where_adv = [j for j, p in enumerate(sel) if p[0] in ('a', 'i')] if adv else []
    contiguous = (not adv) or where_adv == list(range(where_adv[0], where_adv[-1] + 1))
    masked = _mask_of(I, a, ks, bax) if len(adv) == a.ndim == len(ks) and adv else None
    injective = masked is not None or _adv_injective(adv)

    def fn(idx):
        if masked is not None:
            k0 = fresh('k', bax[0].size)
            val = norm(replace_apps(norm(A.bget(v, [k0])), {'%s_%d' % (masked[0], d): (lambda d: lambda ix: A.flat_index(idx[d]))(d) for d in range(a.ndim)}))
            if k0 not in fv(val):
                c, base = norm(masked[1].get(idx)), a.get(idx)
                if c is ZERO:
                    return base
                if mode == 'set':
                    return val if c is ONE else ite(c, val, base)
                if mode == 'add':
                    return add(base, mul(c, val))
                if mode == 'multiply':
                    return mul(base, ite(c, val, ONE))
                if mode in ('max', 'min'):
                    return ite(c, (emax if mode == 'max' else emin)(base, val), base)
        cond = ONE
        pos = {}
        for p in sel:
            if p[0] == 'i':
                cond = mul(cond, eq(A.flat_index(idx[p[1]]), p[2]))
            elif p[0] == 's':
                s = p[2]
                size = a.axes[p[1]].size
                st = pyint(s.c) if s.c is not None else 1
                if s.a is None and s.b is None and st == 1:
                    pos[p[1]] = idx[p[1]]
                else:
                    if st != 1:
                        raise Unmodelled('strided store')
                    fi = A.flat_index(idx[p[1]])
                    lo = ZERO if s.a is None else _neg(num(_sc(s.a)), size)
                    hi = size if s.b is None else _neg(num(_sc(s.b)), size)
                    if s.a is not None:
                        cond = mul(cond, le(lo, fi))
                    if s.b is not None:
                        cond = mul(cond, lt(fi, hi))
                    pos[p[1]] = norm(sub(fi, lo))
        base = a.get(idx)
        if norm(cond) is ZERO:
            return base
        # enumerate generic positions of the advanced axes
        cases = [([], ())]
        for x in bax:
            new = []
            for its, vs in cases:
                for bk, it, v2 in A.axis_cases(x):
                    new.append((its + [it], vs + v2))
            cases = new

        def vidx(bits):
            full = []
            if adv and not contiguous:
                full.extend(bits)
            put = not contiguous
            for p in sel:
                if p[0] in ('a',) or (p[0] == 'i' and adv):
                    if not put:
                        full.extend(bits)
                        put = True
                elif p[0] == 'n':
                    full.append(ZERO)
                elif p[0] == 's':
                    full.append(pos[p[1]])
            return full
        if not adv:
            val = A.bget(v, vidx([]))
            c = norm(cond)
            if mode == 'set':
                return val if c is ONE else ite(c, val, base)
            if mode == 'add':
                return add(base, mul(c, val))
            if mode == 'multiply':
                return mul(base, ite(c, val, ONE))
            if mode in ('max', 'min'):
                return ite(c, (emax if mode == 'max' else emin)(base, val), base)
        tot, msk = [], []
        for bits, vs in cases:
            d = cond
            for p in sel:
                if p[0] == 'a':
                    e = norm(A.bget(p[2], bits))
                    if e.op == 'num' and e.args[0] < 0:
                        e = norm(add(a.axes[p[1]].size, e))
                    d = mul(d, eq(A.flat_index(idx[p[1]]), e))
            val = A.bget(v, vidx(bits))
            t, m = mul(d, val), d
            scal = not any(x in fv(norm(val)) for x in vs)
            for x in reversed(vs):
                t = mksum(x, VARSIZE[x.args[0]], t)
            if mode == 'multiply' and not injective and not (scal and norm(val).op == "num" and norm(val).args[0] in (0, 1)):
                raise Unmodelled('scatter mode multiply at possibly repeated positions')
            if mode in ('set', 'multiply') and not injective:
                if not scal:
                    m2 = d
                    # repeated targets: the written value is unspecified -> opaque
                    t = opq('lastset', lam(vs, d), lam(vs, val))
                for x in reversed(vs):
                    m = red('any', x, VARSIZE[x.args[0]], m)
                if scal:
                    t = mul(m, val)
            else:
                for x in reversed(vs):
                    m = mksum(x, VARSIZE[x.args[0]], m)
            tot.append(t)
            msk.append(m)
        if mode == 'add':
            return add(base, *tot)
        if mode == 'set':
            return add(mul(base, sub(1, add(*msk))), *tot)
        if mode == 'multiply':
            return add(mul(base, sub(1, add(*msk))), mul(base, add(*tot)))
        raise Unmodelled('scatter mode %s' % mode)
    r = Arr(a.axes, fn, a.dtype if a.dtype != 'i' or v.dtype == 'i' or a.lib == 'n' else v.dtype, a.lib)
    return r


def _neg(e, size):
    e = norm(e)
    if e.op == 'num' and e.args[0] < 0:
        return norm(add(size, e))
    return e


def _mask_of(I, a, ks, bax):
    """(name, mask) when the index arrays are the coordinates of the true entries of a mask over the whole array"""
    if len(bax) != 1 or bax[0].kind != 'atom':
        return None
    k0, nm = fresh('k', bax[0].size), None
    for d, x in enumerate(ks):
        e = norm(A.bget(x, [k0]))
        if e.op != 'app' or tuple(e.args[1]) != (k0,):
            return None
        base, _, dd = e.args[0].rpartition('_')
        if dd != str(d) or nm not in (None, base):
            return None
        nm = base
    for n2, n, mask in I.argw.values():
        if n2 == nm and mask.ndim == a.ndim and all(A.same_size(p.size, q.size) for p, q in zip(mask.axes, a.axes)):
            return nm, mask
    return None


def _adv_injective(adv):
    """some index array is known to be injective in its own (all broadcast) axes"""
    for x in adv:
        if x.meta.get('inj'):
            return True
        nv = [v for v in x.axes if not A.is_one(v)]
        if len(nv) != 1:
            if not nv:
                return True
            continue
        if nv[0].kind != 'atom':
            continue
        v = fresh('k', nv[0].size)
        e = norm(x.get([v if not A.is_one(q) else ZERO for q in x.axes]))
        if X.injective_in(e, v):
            return True
        w = fresh('k', nv[0].size)
        e2 = norm(subst(e, {v: w}))
        if equal(eq(e, e2), eq(v, w)):
            return True
    if len(adv) > 1:
        # joint injectivity of argwhere columns
        names = set()
        for x in adv:
            nv = [v for v in x.axes if not A.is_one(v)]
            if len(nv) != 1 or x.ndim != 1:
                return False
            e = norm(x.get([fresh('k', nv[0].size)]))
            if e.op == 'app' and e.args[0].startswith('argw'):
                names.add(e.args[0].split('_')[0])
            else:
                return False
        return len(names) == 1
    return False


def setitem_arr(I, a, k, v, n=None):
    if isinstance(v, NativeObj) and v.kind == 'spmat':
        v = v.s['M']
    v = asarr(I, v, a.lib, n)
    r = scatter(I, a, k, v, 'set', n)
    if a.dtype == 'i' and v.dtype == 'f':
        r0 = r
        r = Arr(r0.axes, lambda idx: r0.get(idx) if is_int(norm(r0.get(idx))) else opq('trunc', r0.get(idx)), 'i', a.lib)
    return r
