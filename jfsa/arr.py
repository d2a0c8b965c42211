"""Abstract arrays: axes with symbolic sizes + an element term in index notation."""
from .expr import *
from . import expr as X


class ShapeError(Exception):
    """The program combines axes whose generic sizes differ."""


class Unmodelled(Exception):
    """The analysis has no transfer function for this construct."""


class Unlocated(Unmodelled):
    pass


class Axis:
    __slots__ = ('size', 'kind', 'parts')

    def __init__(self, size, kind='atom', parts=()):
        self.size = num(size)
        self.kind = kind
        self.parts = parts

    def __repr__(self):
        if self.kind == 'atom':
            return str(self.size)
        return '%s(%s)' % (self.kind, ','.join(map(repr, self.parts)))


class PIdx:
    __slots__ = ('items', 'axes')

    def __init__(self, items, axes):
        self.items = tuple(items)
        self.axes = tuple(axes)


class CIdx:
    __slots__ = ('k', 'item', 'axis')

    def __init__(self, k, item, axis):
        self.k = k
        self.item = item
        self.axis = axis


def ax(size):
    return size if isinstance(size, Axis) else Axis(size)


def prod_axis(parts):
    parts = [ax(p) for p in parts]
    flat = []
    for p in parts:
        if p.kind == 'prod':
            flat.extend(p.parts)
        elif p.size is ONE and p.kind == 'atom':
            continue
        else:
            flat.append(p)
    if not flat:
        return Axis(ONE)
    if len(flat) == 1:
        return flat[0]
    return Axis(norm(mul(*[p.size for p in flat])), 'prod', tuple(flat))


def cat_axis(parts):
    parts = [ax(p) for p in parts]
    flat = []
    for p in parts:
        flat.extend(p.parts if p.kind == 'cat' else (p,))
    if len(flat) == 1:
        return flat[0]
    return Axis(norm(add(*[p.size for p in flat])), 'cat', tuple(flat))


def same_size(a, b):
    return a is b or equal(a, b)


def is_one(a):
    return a.kind == 'atom' and a.size is ONE


def flat_index(i):
    """structured index -> flat E"""
    if isinstance(i, PIdx):
        r = ZERO
        for it, a in zip(i.items, i.axes):
            r = add(mul(r, a.size), flat_index(it))
        return r
    if isinstance(i, CIdx):
        off = add(*[p.size for p in i.axis.parts[:i.k]])
        return add(off, flat_index(i.item))
    return num(i)


def _groups(ps, qs):
    """split two factor lists into minimal consecutive groups of equal product, or None"""
    out = []
    i = j = 0
    while i < len(ps) or j < len(qs):
        if i >= len(ps) or j >= len(qs):
            return None
        gi, gj = [ps[i]], [qs[j]]
        i += 1
        j += 1
        while True:
            a, b = norm(mul(*[p.size for p in gi])), norm(mul(*[q.size for q in gj]))
            if same_size(a, b):
                break
            # extend the side whose product divides the other
            if X._divisible(b, a) and i < len(ps):
                gi.append(ps[i])
                i += 1
            elif X._divisible(a, b) and j < len(qs):
                gj.append(qs[j])
                j += 1
            else:
                return None
        out.append((gi, gj))
    return out


def conv_index(i, axis):
    """make index i (E or structured) conform to axis structure"""
    if axis.kind == 'atom':
        return flat_index(i)
    if axis.kind == 'prod':
        if isinstance(i, PIdx) and len(i.axes) == len(axis.parts) and all(
                same_size(a.size, b.size) for a, b in zip(i.axes, axis.parts)):
            return PIdx([conv_index(it, p) for it, p in zip(i.items, axis.parts)], axis.parts)
        if isinstance(i, PIdx):
            gs = _groups(i.axes, axis.parts)
            if gs is not None and len(gs) > 1:
                items, k = [], 0
                for gi, gj in gs:
                    its = i.items[k:k + len(gi)]
                    k += len(gi)
                    src = its[0] if len(gi) == 1 else PIdx(its, tuple(gi))
                    if len(gj) == 1:
                        items.append(conv_index(src, gj[0]))
                    else:
                        items.extend(conv_index(src, Axis(norm(mul(*[q.size for q in gj])), 'prod', tuple(gj))).items)
                return PIdx(items, axis.parts)
        e = norm(flat_index(i))
        items = []
        rest = e
        for p in reversed(axis.parts[1:]):
            dm = X._divmod(rest, p.size)
            if dm is None:
                items.append(X.mod(rest, p.size))
                rest = X.floordiv(rest, p.size)
            else:
                rest, m = dm
                items.append(m)
        items.append(rest)
        items.reverse()
        return PIdx([conv_index(it, p) for it, p in zip(items, axis.parts)], axis.parts)
    # cat
    if isinstance(i, CIdx):
        if len(i.axis.parts) == len(axis.parts) and all(
                same_size(a.size, b.size) for a, b in zip(i.axis.parts, axis.parts)):
            return CIdx(i.k, conv_index(i.item, axis.parts[i.k]), axis)
    e = norm(flat_index(i))
    off = ZERO
    for k, p in enumerate(axis.parts):
        d = norm(sub(e, off))
        lo = norm(lt(d, ZERO))
        hi = norm(lt(d, p.size))
        if lo is ZERO and hi is ONE:
            return CIdx(k, conv_index(d, p), axis)
        b = X.bound(d, True)
        b2 = X.bound(d, False)
        if b is not None and b2 is not None:
            m1 = X._min_pos(sub(sub(p.size, 1), b))
            m2 = X._min_pos(b2)
            if m1 is not None and m1 >= 0 and m2 is not None and m2 >= 0:
                return CIdx(k, conv_index(d, p), axis)
        off = add(off, p.size)
    raise Unlocated('cannot locate index %s in concatenated axis %r' % (show(e), axis))


def index_choices(i, axis):
    """[(condition, conforming index)] when the block an index falls into depends on its value"""
    try:
        return [(ONE, conv_index(i, axis))]
    except Unlocated:
        pass
    if axis.kind == 'cat':
        e = norm(flat_index(i))
        out, off = [], ZERO
        for k, p in enumerate(axis.parts):
            d = norm(sub(e, off))
            c = ONE
            if k:
                c = mul(c, le(ZERO, d))
            if k + 1 < len(axis.parts):
                c = mul(c, lt(d, p.size))
            for c2, it in index_choices(d, p):
                out.append((mul(c, c2), CIdx(k, it, axis)))
            off = add(off, p.size)
        return out
    if axis.kind == 'prod':
        if isinstance(i, PIdx) and len(i.axes) == len(axis.parts) and all(
                same_size(a.size, b.size) for a, b in zip(i.axes, axis.parts)):
            opts = [(ONE, [])]
            for it, p in zip(i.items, axis.parts):
                opts = [(mul(c, c2), l + [x]) for c, l in opts for c2, x in index_choices(it, p)]
            return [(c, PIdx(l, axis.parts)) for c, l in opts]
    raise Unlocated('cannot locate index in axis %r' % (axis,))


def axis_cases(axis):
    """generic indices covering the axis: list of (blockkey, index, vars)"""
    if axis.kind == 'atom':
        if axis.size is ONE:
            return [((), ZERO, ())]
        v = fresh('i', axis.size)
        return [((), v, (v,))]
    if axis.kind == 'prod':
        outs = [((), [], ())]
        for p in axis.parts:
            new = []
            for bk, items, vs in outs:
                for bk2, it, vs2 in axis_cases(p):
                    new.append((bk + bk2, items + [it], vs + vs2))
            outs = new
        return [(bk, PIdx(items, axis.parts), vs) for bk, items, vs in outs]
    out = []
    for k, p in enumerate(axis.parts):
        for bk, it, vs in axis_cases(p):
            out.append(((k,) + bk, CIdx(k, it, axis), vs))
    return out


def split_index(i, axis):
    """conforming index -> (blockkey, list of E for the non-unit atomic parts)"""
    if axis.kind == 'atom':
        if axis.size is ONE:
            return (), []
        return (), [i]
    if axis.kind == 'prod':
        bk, es = (), []
        for it, p in zip(i.items, axis.parts):
            b, e = split_index(it, p)
            bk += b
            es += e
        return bk, es
    b, e = split_index(i.item, axis.parts[i.k])
    return (i.k,) + b, e


CONCRETE = False


def subst_index(it, m):
    if isinstance(it, PIdx):
        return PIdx([subst_index(x, m) for x in it.items], it.axes)
    if isinstance(it, CIdx):
        return CIdx(it.k, subst_index(it.item, m), it.axis)
    return subst(num(it), m)


class Arr:
    """n-dimensional abstract array"""
    def __init__(self, axes, fn, dtype='f', lib='j'):
        self.axes = tuple(ax(a) for a in axes)
        self.fn = fn
        self.dtype = dtype
        self.lib = lib            # 'n' numpy / 'j' jax
        self._memo = {}
        self.meta = {}

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(a.size for a in self.axes)

    def get(self, idx):
        if len(idx) != len(self.axes):
            raise ShapeError('rank mismatch: %d index for rank %d' % (len(idx), len(self.axes)))
        try:
            idx = [conv_index(i, a) for i, a in zip(idx, self.axes)]
        except Unlocated:
            opts = [(ONE, [])]
            for i, a in zip(idx, self.axes):
                opts = [(mul(c, c2), l + [x]) for c, l in opts for c2, x in index_choices(i, a)]
            if len(opts) > 12:
                raise
            return norm(add(*[mul(c, self.get(l)) for c, l in opts]))
        bk, es = (), []
        for i, a in zip(idx, self.axes):
            b, e = split_index(i, a)
            bk += (b,)
            es += e
        if CONCRETE:
            for i, a in zip(idx, self.axes):
                if a.kind == 'atom':
                    e, z = norm(flat_index(i)), norm(a.size)
                    if e.op == 'num' and z.op == 'num' and e.args[0] >= z.args[0]:
                        raise ShapeError('index %s is out of bounds for axis of size %s' % (show(e), show(z)))
            # tables of numbers: evaluate at the given positions instead of instantiating a generic body
            es = [norm(num(e)) for e in es]
            if any(e.op == 'num' for e in es):
                ck = (bk, tuple(e if e.op == 'num' else None for e in es))
                m = self._memo.get(ck)
                if m is None:
                    gidx, vs, p = [], [], 0
                    for b, a in zip(bk, self.axes):
                        for b2, it, v2 in axis_cases(a):
                            if b2 == b:
                                gidx.append((it, v2, es[p:p + len(v2)]))
                                vs += list(zip(v2, es[p:p + len(v2)]))
                                p += len(v2)
                                break
                        else:
                            raise Unmodelled('block')
                    full_ = [subst_index(it, {v: e for v, e in zip(v2, e2) if e.op == 'num'}) for it, v2, e2 in gidx]
                    m = (tuple(v for v, e in vs if e.op != 'num'), num(self.fn(full_)))
                    self._memo[ck] = m
                vs, body = m
                return subst(body, {v: e for v, e in zip(vs, [e for e in es if e.op != 'num'])})
        m = self._memo.get(bk)
        if m is None:
            gidx, vs = [], ()
            for b, a in zip(bk, self.axes):
                for b2, it, v2 in axis_cases(a):
                    if b2 == b:
                        gidx.append(it)
                        vs += v2
                        break
                else:
                    raise Unmodelled('block')
            body = num(self.fn(gidx))
            m = (vs, body)
            self._memo[bk] = m
        vs, body = m
        return subst(body, {v: num(e) for v, e in zip(vs, es)})

    def cases(self):
        """list of (blockkeys, idx, vars) generic index tuples covering the array"""
        outs = [((), [], ())]
        for a in self.axes:
            new = []
            for bks, idx, vs in outs:
                for bk, it, v in axis_cases(a):
                    new.append((bks + (bk,), idx + [it], vs + v))
            outs = new
        return outs

    def like(self, fn, axes=None, dtype=None):
        return Arr(self.axes if axes is None else axes, fn, dtype or self.dtype, self.lib)

    def __repr__(self):
        return 'Arr(%s)' % ', '.join(map(repr, self.axes))


def scalar_of(a):
    """0-d Arr or E -> E"""
    if isinstance(a, Arr):
        if a.ndim == 0:
            return a.get([])
        raise ShapeError('expected scalar')
    return num(a)


def symbolic(name, sizes, dtype='f', lib='j', index=None, **info):
    """opaque array symbol"""
    axes = [ax(s) for s in sizes]
    if dtype == 'i':
        info.setdefault('int', True)
    if dtype == 'b':
        info['bool'] = True
    if info:
        declare(name, **info)
    return Arr(axes, lambda idx: app(name, *[e for i in idx for e in _leaf(i)]), dtype, lib)


def _leaf(i):
    if isinstance(i, PIdx):
        return [e for it in i.items for e in _leaf(it)]
    if isinstance(i, CIdx):
        return [num(i.k)] + _leaf(i.item)
    return [i]


def _nleaf(a, it):
    """rebuild one structured index of axis a from the leaf iterator"""
    if a.kind == 'prod':
        return PIdx([_nleaf(p, it) for p in a.parts], a.parts)
    if a.kind == 'cat':
        k = int(next(it).args[0])
        return CIdx(k, _nleaf(a.parts[k], it), a)
    return next(it)


def unleaf(axes, leaves):
    """inverse of the leaf flattening of symbolic(): app arguments -> index list of an array with these axes"""
    if len(leaves) == len(axes):
        return list(leaves)
    it = iter(leaves)
    return [_nleaf(a, it) for a in axes]


def const_array(nested, dtype=None, lib='n'):
    shape = []
    x = nested
    while isinstance(x, (list, tuple)):
        shape.append(len(x))
        x = x[0] if x else 0
    vals = {}

    def rec(x, idx):
        if len(idx) == len(shape):
            vals[tuple(idx)] = num(x)
            return
        if not isinstance(x, (list, tuple)) or len(x) != shape[len(idx)]:
            raise ShapeError('ragged literal array')
        for k, y in enumerate(x):
            rec(y, idx + [k])
    rec(nested, [])
    if dtype is None:
        dtype = 'i' if vals and all(is_int(v) for v in vals.values()) else 'f'
    if not shape:
        return Arr([], lambda idx: vals[()], dtype, lib)
    name = table(vals, shape)
    return Arr(shape, lambda idx: table_app(name, idx), dtype, lib)


def full(axes, val, dtype='f', lib='j'):
    v = num(val)
    return Arr(axes, lambda idx: v, dtype, lib)


def unify_axis(a, b):
    if is_one(a):
        return b
    if is_one(b):
        return a
    if not same_size(a.size, b.size):
        raise ShapeError('axis size %s does not match %s' % (show(a.size), show(b.size)))
    if a.kind == 'atom':
        return b
    if b.kind == 'atom':
        return a
    if a.kind == b.kind and len(a.parts) == len(b.parts) and all(
            same_size(p.size, q.size) for p, q in zip(a.parts, b.parts)):
        return Axis(a.size, a.kind, tuple(unify_axis(p, q) if same_size(p.size, q.size) else p for p, q in zip(a.parts, b.parts)))
    if a.kind == 'prod' and b.kind == 'prod':
        gs = _groups(a.parts, b.parts)
        if gs is not None:
            parts = []
            for gi, gj in gs:
                if len(gi) == 1 and len(gj) == 1:
                    parts.append(unify_axis(gi[0], gj[0]))
                elif len(gi) == 1 and gi[0].kind == 'atom':
                    parts.extend(gj)
                elif len(gj) == 1 and gj[0].kind == 'atom':
                    parts.extend(gi)
                elif len(gi) == 1 and gi[0].kind == 'cat':
                    parts.append(gi[0])
                elif len(gj) == 1 and gj[0].kind == 'cat':
                    parts.append(gj[0])
                else:
                    parts.extend(gi)
            return prod_axis(parts)
    # prefer concatenation structure (indices convert by flattening)
    if a.kind == 'cat':
        return a
    return b


def broadcast_axes(arrs):
    n = max(a.ndim for a in arrs)
    out = []
    for k in range(n):
        cur = None
        for a in arrs:
            j = k - (n - a.ndim)
            if j < 0:
                continue
            cur = a.axes[j] if cur is None else unify_axis(cur, a.axes[j])
        out.append(cur)
    return out


def bget(a, idx):
    """get with broadcasting of a against full index idx"""
    k = len(idx) - a.ndim
    sub_ = []
    for i, x in zip(idx[k:], a.axes):
        sub_.append(ZERO if is_one(x) else i)
    return a.get(sub_)


def to_arr(x, lib='j'):
    if isinstance(x, Arr):
        return x
    if isinstance(x, E):
        return Arr([], lambda idx: x, 'i' if is_int(x) else ('b' if is_ind(x) else 'f'), lib)
    if isinstance(x, bool):
        return Arr([], lambda idx: num(x), 'b', lib)
    if isinstance(x, (int,)):
        return Arr([], lambda idx: num(x), 'i', lib)
    if isinstance(x, (float, Fraction, complex)):
        return Arr([], lambda idx: num(x), 'f', lib)
    raise Unmodelled('to_arr(%r)' % type(x).__name__)


def elementwise(f, *arrs, dtype=None):
    libs = 'j' if any(isinstance(a, Arr) and a.lib == 'j' for a in arrs) else 'n'
    arrs = [to_arr(a) for a in arrs]
    axes = broadcast_axes(arrs)
    if dtype is None:
        ds = [a.dtype for a in arrs]
        dtype = 'c' if 'c' in ds else 'f' if 'f' in ds else 'i' if 'i' in ds else 'b'
    r = Arr(axes, lambda idx: f(*[bget(a, idx) for a in arrs]), dtype, libs)
    return r


def simplify0(a):
    return a


def sum_axes(a, axes, keepdims=False):
    n = a.ndim
    axes = sorted(set(k % n if n else k for k in axes))
    keep = [k for k in range(n) if k not in axes]

    def fn(idx):
        if keepdims:
            base = list(idx)
        else:
            base = [None] * n
            for k, i in zip(keep, idx):
                base[k] = i
        tot = []

        def rec(j, cur, binders):
            if j == len(axes):
                e = a.get(cur)
                for v, s in reversed(binders):
                    e = mksum(v, s, e)
                tot.append(e)
                return
            k = axes[j]
            for bk, it, vs in axis_cases(a.axes[k]):
                c2 = list(cur)
                c2[k] = it
                rec(j + 1, c2, binders + [(v, VARSIZE[v.args[0]]) for v in vs])
        rec(0, base, [])
        return add(*tot)
    if keepdims:
        oax = [Axis(ONE) if k in axes else a.axes[k] for k in range(n)]
    else:
        oax = [a.axes[k] for k in keep]
    dt = 'i' if a.dtype == 'b' else a.dtype
    return Arr(oax, fn, dt, a.lib)


def reduce_axes(op, a, axes, keepdims=False):
    n = a.ndim
    axes = sorted(set(k % n if n else k for k in axes))
    keep = [k for k in range(n) if k not in axes]

    def fn(idx):
        base = list(idx) if keepdims else [None] * n
        if not keepdims:
            for k, i in zip(keep, idx):
                base[k] = i
        items = []

        def rec(j, cur, binders):
            if j == len(axes):
                e = a.get(cur)
                for v, s in reversed(binders):
                    e = red(op, v, s, e)
                items.append(e)
                return
            k = axes[j]
            for bk, it, vs in axis_cases(a.axes[k]):
                c2 = list(cur)
                c2[k] = it
                rec(j + 1, c2, binders + [(v, VARSIZE[v.args[0]]) for v in vs])
        rec(0, base, [])
        if len(items) == 1:
            return items[0]
        if op == 'all':
            return mul(*items)
        if op == 'any':
            r = items[0]
            for x in items[1:]:
                r = bor(r, x)
            return r
        if op == 'rmax':
            return emax(*items)
        if op == 'rmin':
            return emin(*items)
        raise Unmodelled(op)
    oax = [Axis(ONE) if k in axes else a.axes[k] for k in range(n)] if keepdims else [a.axes[k] for k in keep]
    return Arr(oax, fn, 'b' if op in ('all', 'any') else a.dtype, a.lib)


# ---------------------------------------------------------------- reshape
def _flatten_factors(axis):
    if axis.kind == 'prod':
        out = []
        for p in axis.parts:
            out.extend(_flatten_factors(p))
        return out
    return [] if is_one(axis) else [axis]


def reshape(a, shape):
    """shape: list of E / -1"""
    src = []
    for x in a.axes:
        src.extend(_flatten_factors(x))
    tgt = [num(s) for s in shape]
    total = mul(*[s.size for s in src])
    neg_ = [k for k, t in enumerate(tgt) if t.op == 'num' and t.args[0] == -1]
    if len(neg_) > 1:
        raise ShapeError('reshape with two -1')
    if neg_:
        known = mul(*[t for k, t in enumerate(tgt) if k not in neg_])
        q = norm(div(total, known))
        if any(x < 0 for t in nf(q) for f, x in t.f) or any(t.c.denominator != 1 for t in nf(q)):
            # maybe a sum-axis factors
            q2 = X._divmod(total, known)
            if q2 is None or not (q2[1] is ZERO):
                raise ShapeError('cannot infer -1 in reshape: total %s by %s' % (show(total), show(known)))
            q = q2[0]
        tgt[neg_[0]] = q
    elif not equal(total, mul(*tgt)):
        raise ShapeError('reshape total %s != %s' % (show(total), show(mul(*tgt))))
    # group source factors greedily
    groups = []
    ok = True
    pos = 0
    for j, t in enumerate(tgt):
        if t is ONE or equal(t, ONE):
            groups.append([])
            continue
        cur = ONE
        g = []
        while pos < len(src) and not equal(cur, t):
            g.append(src[pos])
            cur = mul(cur, src[pos].size)
            pos += 1
            if len(g) > 12:
                break
        if not equal(cur, t):
            ok = False
            break
        groups.append(g)
    if ok and pos == len(src):
        oaxes = [prod_axis(g) if g else Axis(ONE) for g in groups]
        a0 = a

        def fn(idx):
            leaves = []
            for i, g, o in zip(idx, groups, oaxes):
                if not g:
                    continue
                if len(g) == 1:
                    leaves.append(i)
                else:
                    leaves.extend(i.items)
            it = iter(leaves)
            out = []
            for x in a0.axes:
                fs = _flatten_factors(x)
                if not fs:
                    out.append(ZERO)
                elif len(fs) == 1:
                    out.append(next(it))
                else:
                    out.append(PIdx([next(it) for _ in fs], fs))
            return a0.get(out)
        return a.like(fn, oaxes)
    # general: split atoms through the flat index
    oaxes = [Axis(t) for t in tgt]
    srcaxis = prod_axis(src)
    flat = reshape(a, [total]) if len(a.axes) != 1 else a

    def fn2(idx):
        f = ZERO
        for i, t in zip(idx, tgt):
            f = add(mul(f, t), flat_index(i))
        return flat.get([norm(f)])
    return a.like(fn2, oaxes)


def ravel(a):
    if a.ndim == 1:
        return a
    return reshape(a, [mul(*[x.size for x in a.axes])])


def transpose(a, perm=None):
    n = a.ndim
    perm = list(reversed(range(n))) if perm is None else [p % n for p in perm]
    if sorted(perm) != list(range(n)):
        raise ShapeError('bad permutation')

    def fn(idx):
        src = [None] * n
        for k, p in enumerate(perm):
            src[p] = idx[k]
        return a.get(src)
    return a.like(fn, [a.axes[p] for p in perm])


def concat(arrs, axis=0):
    arrs = list(arrs)
    if len(arrs) == 1:
        return arrs[0]
    n = arrs[0].ndim
    axis = axis % n
    for b in arrs[1:]:
        if b.ndim != n:
            raise ShapeError('concatenate ranks differ')
    axes = []
    for k in range(n):
        if k == axis:
            axes.append(None)
        else:
            cur = arrs[0].axes[k]
            for b in arrs[1:]:
                if not same_size(cur.size, b.axes[k].size):
                    raise ShapeError('concatenate: axis %d sizes %s and %s differ' % (k, show(cur.size), show(b.axes[k].size)))
                cur = unify_axis(cur, b.axes[k])
            axes.append(cur)
    blocks = []   # (arr, local block axis, wrap)
    parts = []
    for b in arrs:
        x = b.axes[axis]
        if x.kind == 'cat':
            for k, p in enumerate(x.parts):
                parts.append(p)
                blocks.append((b, k))
        else:
            parts.append(x)
            blocks.append((b, None))
    # merge contiguous runs of the same underlying array is left to `coalesce`
    axes[axis] = Axis(norm(add(*[p.size for p in parts])), 'cat', tuple(parts))

    def fn(idx):
        i = idx[axis]
        b, k = blocks[i.k]
        it = i.item if k is None else CIdx(k, i.item, b.axes[axis])
        return b.get([it if q == axis else idx[q] for q in range(n)])
    dt = 'f' if any(b.dtype == 'f' for b in arrs) else arrs[0].dtype
    r = Arr(axes, fn, dt, 'j' if any(b.lib == 'j' for b in arrs) else 'n')
    return coalesce(r, axis)


def coalesce(a, axis):
    """Concatenation of all unit blocks with identical generic element -> plain const axis."""
    x = a.axes[axis]
    if x.kind == 'cat' and all(is_one(p) or (p.kind == 'atom' and p.size.op == 'num' and p.size.args[0] <= 8) for p in x.parts):
        # constant-size concatenation: plain constant axis through a selector
        n = x.size
        starts = []
        o = 0
        for k, p in enumerate(x.parts):
            c = int(p.size.args[0])
            for r in range(c):
                starts.append((k, r))
            o += c

        def fn(idx):
            i = idx[axis]
            if i.op == 'num':
                k, r = starts[int(i.args[0])]
                return a.get([CIdx(k, num(r) if not is_one(x.parts[k]) else ZERO, x) if q == axis else idx[q] for q in range(len(idx))])
            # symbolic index into a small constant axis: select
            e = None
            for j, (k, r) in enumerate(starts):
                v = a.get([CIdx(k, num(r) if not is_one(x.parts[k]) else ZERO, x) if q == axis else idx[q] for q in range(len(idx))])
                e = v if e is None else ite(eq(i, j), v, e)
            return e
        return a.like(fn, [Axis(n) if q == axis else a.axes[q] for q in range(a.ndim)])
    return a


def expand_dims(a, k):
    n = a.ndim + 1
    k = k % n

    def fn(idx):
        return a.get([idx[q] for q in range(n) if q != k])
    return a.like(fn, list(a.axes[:k]) + [Axis(ONE)] + list(a.axes[k:]))


def stack(arrs, axis=0):
    arrs = [to_arr(b) for b in arrs]
    n = arrs[0].ndim
    for b in arrs[1:]:
        if b.ndim != n:
            raise ShapeError('stack ranks differ')
        for k in range(n):
            if not same_size(b.axes[k].size, arrs[0].axes[k].size):
                raise ShapeError('stack: sizes %s and %s differ' % (show(b.axes[k].size), show(arrs[0].axes[k].size)))
    axis = axis % (n + 1)
    m = len(arrs)
    ax0 = [arrs[0].axes[k] for k in range(n)]
    for b in arrs[1:]:
        ax0 = [unify_axis(p, q) for p, q in zip(ax0, b.axes)]
    axes = ax0[:axis] + [Axis(num(m))] + ax0[axis:]

    def fn(idx):
        i = idx[axis]
        rest = [idx[q] for q in range(n + 1) if q != axis]
        if m == 1:
            return arrs[0].get(rest)
        if i.op == 'num':
            return arrs[int(i.args[0])].get(rest)
        e = None
        for j, b in enumerate(arrs):
            v = b.get(rest)
            e = v if e is None else ite(eq(i, j), v, e)
        return e
    dt = 'f' if any(b.dtype == 'f' for b in arrs) else arrs[0].dtype
    return Arr(axes, fn, dt, 'j' if any(b.lib == 'j' for b in arrs) else 'n')


def squeeze(a, axes=None):
    n = a.ndim
    if axes is None:
        axes = [k for k in range(n) if is_one(a.axes[k])]
    axes = [k % n for k in axes]
    for k in axes:
        if not is_one(a.axes[k]):
            raise ShapeError('squeeze of axis of size %s' % show(a.axes[k].size))
    keep = [k for k in range(n) if k not in axes]

    def fn(idx):
        src = [ZERO] * n
        for k, i in zip(keep, idx):
            src[k] = i
        return a.get(src)
    return a.like(fn, [a.axes[k] for k in keep])


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError('matmul of scalar')
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = expand_dims(a, 0)
    if b1:
        b = expand_dims(b, 1)
    ka, kb = a.axes[-1], b.axes[-2]
    if not same_size(ka.size, kb.size):
        raise ShapeError('matmul inner sizes %s and %s differ' % (show(ka.size), show(kb.size)))
    kx = unify_axis(ka, kb)
    batch = broadcast_axes([Arr(a.axes[:-2], None), Arr(b.axes[:-2], None)]) if (a.ndim > 2 or b.ndim > 2) else []
    axes = list(batch) + [a.axes[-2], b.axes[-1]]

    def pick(arr, bidx):
        k = len(bidx) - (arr.ndim - 2)
        return [ZERO if is_one(x) else i for i, x in zip(bidx[k:], arr.axes[:-2])]

    def fn(idx):
        bidx = idx[:-2]
        i, j = idx[-2], idx[-1]
        tot = []
        for bk, it, vs in axis_cases(kx):
            e = mul(a.get(pick(a, bidx) + [i, it]), b.get(pick(b, bidx) + [it, j]))
            for v in reversed(vs):
                e = mksum(v, VARSIZE[v.args[0]], e)
            tot.append(e)
        return add(*tot)
    r = Arr(axes, fn, 'f', 'j' if 'j' in (a.lib, b.lib) else 'n')
    if a1:
        r = squeeze(r, [r.ndim - 2])
    if b1:
        r = squeeze(r, [r.ndim - 1])
    return r


def take_axis(a, idxarr, axis):
    """a.take(idxarr, axis) with idxarr an int Arr"""
    n = a.ndim
    axis = axis % n
    m = idxarr.ndim

    def fn(idx):
        sel = idxarr.get(idx[axis:axis + m])
        return a.get(list(idx[:axis]) + [norm(sel)] + list(idx[axis + m:]))
    return a.like(fn, list(a.axes[:axis]) + list(idxarr.axes) + list(a.axes[axis + 1:]))


def slice_axis(a, axis, start, stop, step=1):
    x = a.axes[axis]
    n = a.ndim
    if step == -1 and start is None and stop is None:
        return a.like(lambda idx: a.get([norm(sub(sub(x.size, 1), flat_index(i))) if q == axis else i for q, i in enumerate(idx)]),
                      [Axis(x.size) if q == axis else y for q, y in enumerate(a.axes)])
    if step != 1:
        if not (isinstance(step, int) and step > 0):
            raise Unmodelled('slice step')
        st = ZERO if start is None else num(start)
        if stop is not None:
            raise Unmodelled('strided slice with stop')
        size = floordiv(add(sub(x.size, st), step - 1), step)
        return a.like(lambda idx: a.get([norm(add(st, mul(step, flat_index(i)))) if q == axis else i for q, i in enumerate(idx)]),
                      [Axis(norm(size)) if q == axis else y for q, y in enumerate(a.axes)])
    if start is None and stop is None:
        return a

    def clampneg(v):
        v = num(v)
        if v.op == 'num' and v.args[0] < 0:
            return norm(add(x.size, v))
        return norm(v)
    s = ZERO if start is None else clampneg(start)
    e = x.size if stop is None else clampneg(stop)
    if x.size.op == 'num' and e.op == 'num' and e.args[0] > x.size.args[0]:
        e = x.size
    if equal(s, ZERO) and equal(e, x.size):
        return a
    size = norm(sub(e, s))
    if size.op == 'num' and size.args[0] < 0:
        size = ZERO
    # slice of a concatenation aligned with blocks
    if x.kind == 'cat':
        offs = [ZERO]
        for p in x.parts:
            offs.append(norm(add(offs[-1], p.size)))
        ks = [k for k, o in enumerate(offs) if equal(o, s)]
        ke = [k for k, o in enumerate(offs) if equal(o, e)]
        if ks and ke and ke[0] > ks[0]:
            k0, k1 = ks[0], ke[0]
            parts = x.parts[k0:k1]
            nx = cat_axis(parts) if len(parts) > 1 else parts[0]

            def fn(idx):
                i = idx[axis]
                if len(parts) > 1:
                    src = CIdx(i.k + k0, i.item, x)
                else:
                    src = CIdx(k0, i, x)
                return a.get([src if q == axis else idx[q] for q in range(n)])
            return a.like(fn, [nx if q == axis else a.axes[q] for q in range(n)])
    r = a.like(lambda idx: a.get([norm(add(s, flat_index(i))) if q == axis else i for q, i in enumerate(idx)]),
               [Axis(size) if q == axis else y for q, y in enumerate(a.axes)])
    return r


def index_axis(a, axis, i):
    x = a.axes[axis]
    i = num(i)
    if i.op == 'num' and i.args[0] < 0:
        i = norm(add(x.size, i))
    if i.op == 'num' and x.size.op == 'num' and i.args[0] >= x.size.args[0]:
        raise ShapeError('index %s out of range for axis of size %s' % (i, x.size))
    ii = i

    def fn(idx):
        return a.get(list(idx[:axis]) + [ii] + list(idx[axis:]))
    return a.like(fn, [y for q, y in enumerate(a.axes) if q != axis])


def _equal_at(x, y):
    """equality at every value of the free indices of small known range"""
    import itertools
    vs = [v for v in sorted(X.fv(x) | X.fv(y), key=X.key)
          if v.args[0] in X.VARSIZE and (z := norm(num(X.VARSIZE[v.args[0]]))).op == 'num' and 0 < z.args[0] <= 6]
    if not vs:
        return False
    rs = [range(int(norm(num(X.VARSIZE[v.args[0]])).args[0])) for v in vs]
    n = 1
    for r in rs:
        n *= len(r)
    if n > 216:
        return False
    for c in itertools.product(*rs):
        m = {v: num(k) for v, k in zip(vs, c)}
        p, q = norm(X.subst(x, m)), norm(X.subst(y, m))
        if not equal(p, q) and not X.same_values(p, q):
            return False
    return True


def arr_equal(a, b):
    """-> None if equal, else description of the first difference"""
    if isinstance(a, (E, int, float, Fraction)) or isinstance(b, (E, int, float, Fraction)):
        a, b = to_arr(a), to_arr(b)
    if a.ndim != b.ndim:
        return 'rank %d instead of %d' % (a.ndim, b.ndim)
    axes = []
    for k, (p, q) in enumerate(zip(a.axes, b.axes)):
        if not same_size(p.size, q.size):
            return 'axis %d has size %s instead of %s' % (k, show(p.size), show(q.size))
        axes.append(unify_axis(q, p))
    probe = Arr(axes, None)
    for bks, idx, vs in probe.cases():
        x, y = a.get(idx), b.get(idx)
        if not equal(x, y) and not X.same_values(x, y) and not _equal_at(x, y):
            return 'element%s\n    %s' % (list(bks) if any(bks) else '', X.difftext(x, y))
    return None
