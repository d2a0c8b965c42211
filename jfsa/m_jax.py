"""Transfer functions: jax transformations, pytrees, functools."""
from .m_core import *
from .m_np import NP, arg, _MISS, withlib, shape_of, axes_of


# ------------------------------------------------------------------ pytrees
class Leaf:
    pass


def is_leaf(x):
    return not isinstance(x, (PList, tuple, PDict)) and x is not None


def tree_flatten(I, t, n=None):
    """-> leaves, rebuild(leaves_iter)"""
    if t is None:
        return [], lambda it: None
    if isinstance(t, PList):
        if any(isinstance(x, GSeg) for x in t.items):
            I.unmodelled('pytree with a generic number of leaves', n)
        parts = [tree_flatten(I, x, n) for x in t.items]
        return [l for p in parts for l in p[0]], lambda it: PList(I, [p[1](it) for p in parts])
    if isinstance(t, tuple):
        parts = [tree_flatten(I, x, n) for x in t]
        return [l for p in parts for l in p[0]], lambda it: tuple([p[1](it) for p in parts])
    if isinstance(t, PDict):
        ks = sorted(t.d)
        parts = [tree_flatten(I, t.d[k], n) for k in ks]
        return [l for p in parts for l in p[0]], lambda it: PDict(I, {k: p[1](it) for k, p in zip(ks, parts)})
    if isinstance(t, Ph):
        I.unmodelled('gated pytree', n)
    return [t], lambda it: next(it)


def tree_map(I, f, t, rest, n=None):
    l, rb = tree_flatten(I, t, n)
    ls = [l]
    for r in rest:
        l2, _ = tree_flatten(I, r, n)
        if len(l2) != len(l):
            raise ProgramError('pytree structures differ', I.where(n))
        ls.append(l2)
    return rb(iter([I.call(f, list(x), {}, n) for x in zip(*ls)]))


def tmap(I, f, t, n=None):
    l, rb = tree_flatten(I, t, n)
    return rb(iter([f(x) for x in l]))


def broadcast_spec(I, spec, t, n=None):
    """prefix pytree of axes -> one spec per leaf"""
    if spec is None or isinstance(spec, int):
        return [spec] * len(tree_flatten(I, t, n)[0])
    if isinstance(spec, (PList, tuple)):
        its = spec.items if isinstance(spec, PList) else spec
        sub_ = t.items if isinstance(t, PList) else t
        if not isinstance(sub_, (list, tuple)) or len(sub_) != len(its):
            raise ProgramError('in_axes/out_axes do not match the argument structure', I.where(n))
        return [x for s, u in zip(its, sub_) for x in broadcast_spec(I, s, u, n)]
    I.unmodelled('vmap axis spec', n)


# ------------------------------------------------------------------ vmap
def vmap(I, f, in_axes=0, out_axes=0, n=None):
    def run(I, args, kw, node):
        if kw:
            I.unmodelled('keyword arguments of a vmapped function', node)
        spec = in_axes if not isinstance(in_axes, PList) else tuple(in_axes.items)
        args = tuple(args)
        sp = broadcast_spec(I, spec, args, node)
        leaves, rb = tree_flatten(I, args, node)
        axis = None
        newl = []
        for s, l in zip(sp, leaves):
            if s is None:
                newl.append((None, l))
                continue
            a = asarr(I, l, 'j', node)
            if a.ndim == 0:
                raise ProgramError('vmap over a scalar argument', I.where(node))
            d = s % a.ndim
            if not -a.ndim <= s < a.ndim:
                raise ProgramError('vmap axis out of range', I.where(node))
            if axis is None:
                axis = a.axes[d]
            else:
                if not A.same_size(axis.size, a.axes[d].size):
                    raise ShapeError('vmap got inconsistent sizes for array axes to be mapped: %s and %s (%s)' % (
                        axis.size, a.axes[d].size, I.where(node)))
                axis = A.unify_axis(axis, a.axes[d])
            newl.append((d, a))
        if axis is None:
            raise ProgramError('vmap must have at least one mapped argument', I.where(node))
        per = {}
        rebuild = None
        first = None
        for bk, item, vs in A.axis_cases(axis):
            cur = []
            for d, l in newl:
                if d is None:
                    cur.append(l)
                else:
                    cur.append(slice_at(l, d, item))
            out = I.call(f, list(rb(iter(cur))), {}, node)
            ol, orb = tree_flatten(I, out, node)
            osp = broadcast_spec(I, out_axes if not isinstance(out_axes, PList) else tuple(out_axes.items), out, node)
            ol = [asarr(I, x, 'j', node) for x in ol]
            for x in ol:
                I.realize(x)
            per[bk] = (vs, ol)
            if first is None:
                first, rebuild = (ol, osp), orb
        outs = []
        for k, (o, s) in enumerate(zip(*first)):
            if s is None:
                outs.append(o)
                continue
            nd = o.ndim + 1
            d = s % nd
            axes = list(o.axes)
            axes.insert(d, axis)
            outs.append(Arr(axes, _mapped(per, k, d, axis), o.dtype, 'j'))
        return rebuild(iter(outs))
    return Native('vmap(%s)' % getattr(f, 'name', '?'), run, {'fn': f})


def slice_at(a, d, item):
    axes = list(a.axes)
    axes.pop(d)

    def fn(idx):
        idx = list(idx)
        idx.insert(d, item)
        return a.get(idx)
    return Arr(axes, fn, a.dtype, 'j')


def _mapped(per, k, d, axis):
    def fn(idx):
        idx = list(idx)
        i = A.conv_index(idx.pop(d), axis)
        bk, es = A.split_index(i, axis)
        vs, ol = per[bk]
        body = ol[k].get(idx)
        return subst(body, {v: num(e) for v, e in zip(vs, es)})
    return fn


# ------------------------------------------------------------------ differentiation
_ctr = [0]


def unleaf(axes, es):
    it = iter(es)

    def one(ax):
        if ax.kind == 'atom':
            return next(it)
        if ax.kind == 'prod':
            return PIdx([one(p) for p in ax.parts], ax.parts)
        k = pyint(next(it))
        return CIdx(k, one(ax.parts[k]), ax)
    return [one(a) for a in axes]


class Theta:
    """fresh differentiation variables standing for the leaves of a pytree"""
    def __init__(self, I, tree, n=None, tag='tracer'):
        self.I = I
        self.leaves, self.rb = tree_flatten(I, tree, n)
        self.names, self.vars, self.prim = [], [], []
        for x in self.leaves:
            _ctr[0] += 1
            nm = '%s%d' % (tag, _ctr[0])
            self.names.append(nm)
            if isinstance(x, Arr):
                info = {}
                v = A.symbolic(nm, x.axes, x.dtype if x.dtype in ('f', 'c') else 'f', 'j')
                self.prim.append(x)
            elif is_scal(x):
                v = sym(nm)
                self.prim.append(num(x))
            elif isinstance(x, (Opq, NativeObj, Func, Native, Inst, str)):
                v = x
                self.prim.append(None)
            else:
                I.unmodelled('differentiation with respect to %r' % (x,), n)
            self.vars.append(v)
        self.nameset = set(n for n, p in zip(self.names, self.prim) if p is not None)

    def tree(self):
        return self.rb(iter(self.vars))

    def back(self, e):
        fns = {}
        for nm, p in zip(self.names, self.prim):
            if p is None:
                continue
            if isinstance(p, Arr):
                fns[nm] = lambda es, p=p: p.get(unleaf(p.axes, es))
            else:
                fns[nm] = lambda es, p=p: p
        return X.replace_apps(e, fns)

    def back_val(self, v):
        """replace the tracers in a (tree) value by the primal values"""
        if isinstance(v, Arr):
            return Arr(v.axes, lambda idx: self.back(v.get(idx)), v.dtype, v.lib)
        if isinstance(v, E):
            return self.back(v)
        if isinstance(v, tuple):
            return tuple(self.back_val(x) for x in v)
        if isinstance(v, PList):
            return PList(self.I, [self.back_val(x) for x in v.items])
        if isinstance(v, PDict):
            return PDict(self.I, {k: self.back_val(x) for k, x in v.d.items()})
        return v


def begin_trace(I, th):
    I.tracers |= th.nameset
    I.all_tracers |= th.nameset
    return len(I.heap)


def end_trace(I, th):
    I.tracers -= th.nameset


def dterm(y_el, nm, prim, k_idx):
    """d y_el / d leaf nm at structured index k_idx (or scalar)"""
    if isinstance(prim, Arr):
        es = [e for i in k_idx for e in A._leaf(i)]
        return X.diff(norm(y_el), nm, tuple(es))
    return X.diff(norm(y_el), nm, ())


def push(y_el, th, tang):
    """sum over all leaves and indices of dy/dleaf * tangent"""
    tot = ZERO
    y_el = norm(y_el)
    for nm, p, t in zip(th.names, th.prim, tang):
        if p is None or not X.mentions(y_el, {nm}):
            continue
        if isinstance(p, Arr):
            for bk, idx, vs in p.cases():
                d = mul(dterm(y_el, nm, p, idx), t.get(idx))
                for v in reversed(vs):
                    d = mksum(v, X.VARSIZE[v.args[0]], d)
                tot = add(tot, d)
        else:
            tot = add(tot, mul(dterm(y_el, nm, p, None), A.scalar_of(t)))
    return tot


def el_map(I, v, f, axes=None):
    """elementwise over Arr / scalar leaf"""
    if isinstance(v, Arr):
        return Arr(v.axes, lambda idx: f(v.get(idx)), 'f' if v.dtype in 'ib' else v.dtype, 'j')
    return f(num(v))


def call_traced(I, f, trees, n, kw=None):
    th = Theta(I, tuple(trees), n)
    begin_trace(I, th)
    try:
        y = I.call(f, list(th.tree()), kw or {}, n)
        for l in tree_flatten(I, y, n)[0]:
            I.realize(l)
    finally:
        end_trace(I, th)
    return th, y


def jvp(I, f, primals, tangents, n):
    tl, _ = tree_flatten(I, tuple(tangents), n)
    th, y = call_traced(I, f, primals, n)
    if len(tl) != len(th.leaves):
        raise ProgramError('primal and tangent structures differ', I.where(n))
    tl = [asarr(I, t, 'j', n) if isinstance(p, Arr) else t for t, p in zip(tl, th.prim)]
    for t, p in zip(tl, th.prim):
        if isinstance(p, Arr):
            if t.ndim != p.ndim or any(not A.same_size(a.size, b.size) for a, b in zip(t.axes, p.axes)):
                raise ShapeError('jvp: tangent shape differs from primal shape (%s)' % I.where(n))
    yl, rb = tree_flatten(I, y, n)
    out_t = [el_map(I, l, lambda e: th.back(push(e, th, tl))) for l in yl]
    return th.back_val(y), rb(iter(out_t))


def vjp_fn(I, th, y, n):
    yl, _ = tree_flatten(I, y, n)

    def run(I, a, k, node):
        ct, _ = tree_flatten(I, a[0], node)
        if len(ct) != len(yl):
            raise ProgramError('cotangent structure differs from the output structure', I.where(node))
        ct = [asarr(I, c, 'j', node) if isinstance(l, Arr) else c for c, l in zip(ct, yl)]
        for c, l in zip(ct, yl):
            if isinstance(l, Arr) and (c.ndim != l.ndim or any(not A.same_size(p.size, q.size) for p, q in zip(c.axes, l.axes))):
                raise ShapeError('vjp: cotangent shape differs from output shape (%s)' % I.where(node))

        def entry(nm, p, idx):
            tot = ZERO
            for c, l in zip(ct, yl):
                if isinstance(l, Arr):
                    for bk, yi, vs in l.cases():
                        e = l.get(yi)
                        if not X.mentions(norm(e), {nm}):
                            continue
                        d = mul(dterm(e, nm, p, idx), c.get(yi))
                        for v in reversed(vs):
                            d = mksum(v, X.VARSIZE[v.args[0]], d)
                        tot = add(tot, d)
                elif is_scal(l):
                    tot = add(tot, mul(dterm(num(l), nm, p, idx), A.scalar_of(c)))
            return th.back(tot)
        outs = []
        for nm, p in zip(th.names, th.prim):
            if p is None:
                outs.append(None)
            elif isinstance(p, Arr):
                outs.append(Arr(p.axes, lambda idx, nm=nm, p=p: entry(nm, p, idx), 'f', 'j'))
            else:
                outs.append(entry(nm, p, None))
        return th.rb(iter(outs))
    return Native('vjp', run)


def _argnums(k, a, i=1):
    an = arg(a, k, i, 'argnums', 0)
    many = isinstance(an, (tuple, PList))
    l = [pyint(x) for x in (an.items if isinstance(an, PList) else an)] if many else [pyint(an)]
    return l, many


def make_grad(I, f, argnums, many, value, has_aux, node):
    def run(I, a, k, n):
        a = list(a)
        ix = [j % len(a) for j in argnums]
        box = {}

        def g(I, xs, kk, nn):
            full = list(a)
            for j, x in zip(ix, xs):
                full[j] = x
            r = I.call(f, full, dict(k), nn)
            if has_aux:
                r, box['aux'] = r
            box['v'] = r
            return r
        th, y = call_traced(I, Native('grad', g), [a[j] for j in ix], n)
        yl, _ = tree_flatten(I, y, n)
        if len(yl) != 1 or (isinstance(yl[0], Arr) and yl[0].ndim != 0):
            raise ProgramError('gradient of a function with non-scalar output', I.where(n))
        y0 = A.scalar_of(yl[0])
        outs = []
        for nm, p in zip(th.names, th.prim):
            if p is None:
                outs.append(None)
            elif isinstance(p, Arr):
                outs.append(Arr(p.axes, lambda idx, nm=nm, p=p: th.back(dterm(y0, nm, p, idx)), 'f', 'j'))
            else:
                outs.append(th.back(dterm(y0, nm, p, None)))
        g_ = th.rb(iter(outs))
        g_ = g_ if many else g_[0]
        if value:
            v = th.back_val(box['v'])
            if has_aux:
                return ((v, th.back_val(box['aux'])), g_)
            return (v, g_)
        if has_aux:
            return (g_, th.back_val(box['aux']))
        return g_
    return Native('grad(%s)' % getattr(f, 'name', '?'), run, {'fn': f})


def make_jac(I, f, argnums, many, node):
    def run(I, a, k, n):
        a = list(a)
        ix = [j % len(a) for j in argnums]

        def g(I, xs, kk, nn):
            full = list(a)
            for j, x in zip(ix, xs):
                full[j] = x
            return I.call(f, full, dict(k), nn)
        th, y = call_traced(I, Native('jac', g), [a[j] for j in ix], n)

        def leaf(l):
            l = asarr(I, l, 'j', n)
            outs = []
            for nm, p in zip(th.names, th.prim):
                if p is None:
                    outs.append(None)
                    continue
                ax = list(p.axes) if isinstance(p, Arr) else []

                def fn(idx, nm=nm, p=p, ax=ax):
                    idx = list(idx)
                    m = len(idx) - len(ax)
                    return th.back(dterm(l.get(idx[:m]), nm, p, idx[m:]))
                outs.append(Arr(list(l.axes) + ax, fn, 'f', 'j'))
            r = th.rb(iter(outs))
            return r if many else r[0]
        return tmap(I, leaf, y, n)
    return Native('jac(%s)' % getattr(f, 'name', '?'), run, {'fn': f})


# ------------------------------------------------------------------ jit
def signature(I, v):
    if isinstance(v, Arr):
        return ('arr', tuple(key(a.size) for a in v.axes), v.dtype)
    if isinstance(v, (bool, int, float, E, Fraction)):
        return ('scalar',)
    if isinstance(v, (PList, tuple)):
        return (type(v).__name__,) + tuple(signature(I, x) for x in (v.items if isinstance(v, PList) else v))
    if isinstance(v, PDict):
        return ('dict',) + tuple((k, signature(I, v.d[k])) for k in sorted(v.d))
    return ('id', id(v))


def make_jit(I, f, static=(), node=None):
    o = NativeObj(I, 'jitfn', fn=f, cache=())
    return o


def call_jit(I, o, a, k, n):
    sig = (signature(I, tuple(a)), signature(I, PDict(I, k)))
    f = o.s['fn']
    for s, reads in o.s['cache']:
        if s == sig:
            old = []
            for inst, name, v in reads:
                cur = inst.f.get(name, UNDEF)
                if cur is not v:
                    old.append((inst, name, cur, v))
            if not old:
                return I.call(f, a, k, n)
            I.event('stale-jit', node=n, names=[x[1] for x in old])
            for inst, name, cur, v in old:
                inst.f[name] = v
            try:
                r = I.call(f, a, k, n)
                for l in tree_flatten(I, r, n)[0]:
                    I.realize(l)
            finally:
                for inst, name, cur, v in old:
                    if cur is UNDEF:
                        inst.f.pop(name, None)
                    else:
                        inst.f[name] = cur
            return r
    outer = I.trace_reads
    I.trace_reads = []
    I.jit_tracing += 1
    try:
        r = I.call(f, a, k, n)
        for l in tree_flatten(I, r, n)[0]:
            I.realize(l)
    finally:
        reads = I.trace_reads
        I.trace_reads = outer
        I.jit_tracing -= 1
        if outer is not None:
            outer.extend(reads)
    seen, uniq = set(), []
    for inst, name, v in reads:
        if (id(inst), name) not in seen:
            seen.add((id(inst), name))
            uniq.append((inst, name, v))
    o.s['cache'] = o.s['cache'] + ((sig, uniq),)
    return r


# ------------------------------------------------------------------ dispatch table
JX = {}


def jx(*names):
    def d(f):
        for x in names:
            JX[x] = f
        return f
    return d


@jx('jax.vmap')
def _(I, a, k, n):
    if not a:
        return Native('vmap-partial', lambda I, a2, k2, n2: vmap(I, a2[0], k.get('in_axes', 0), k.get('out_axes', 0), n2))
    return vmap(I, a[0], arg(a, k, 1, 'in_axes', 0), arg(a, k, 2, 'out_axes', 0), n)


@jx('jax.jit')
def _(I, a, k, n):
    if not a:
        return Native('jit-partial', lambda I, a2, k2, n2: make_jit(I, a2[0]))
    return make_jit(I, a[0], (), n)


@jx('jax.jvp')
def _(I, a, k, n):
    f, p, t = a[:3]
    p = tuple(p.items) if isinstance(p, PList) else p
    t = tuple(t.items) if isinstance(t, PList) else t
    return jvp(I, f, p, t, n)


@jx('jax.vjp')
def _(I, a, k, n):
    if isinstance(a[0], NativeObj) and a[0].kind == 'custom_vjp':
        return custom_vjp(I, a[0], a[1:], n)
    th, y = call_traced(I, a[0], a[1:], n)
    return (th.back_val(y), vjp_fn(I, th, y, n))


def custom_vjp(I, o, args, n):
    """vjp of a function with a user rule: forward rule, then the backward rule on cotangents"""
    if o.s['fwd'] is None or o.s['bwd'] is None:
        raise ProgramError('custom_vjp function without defvjp is differentiated', I.where(n))
    r = I.call(o.s['fwd'], list(args), {}, n)
    if not isinstance(r, tuple) or len(r) != 2:
        raise ProgramError('forward rule must return (output, residuals)', I.where(n))
    out, res = r
    lv, _ = tree_flatten(I, out, n)

    def f(I, a, k, nn):
        ct, _ = tree_flatten(I, a[0], nn)
        if len(ct) != len(lv) or any(x.ndim != y.ndim or any(not A.same_size(p.size, q.size) for p, q in zip(x.axes, y.axes))
                                     for x, y in zip(map(A.to_arr, ct), map(A.to_arr, lv))):
            raise ShapeError('cotangent does not match the output (%s)' % I.where(nn))
        g = I.call(o.s['bwd'], [res, a[0]], {}, nn)
        if isinstance(g, PList):
            g = tuple(g.items)
        if not isinstance(g, tuple) or len(g) != len(args):
            raise ProgramError('backward rule must return one cotangent per argument', I.where(nn))
        for x, y in zip(g, args):
            if x is None:
                continue
            p, q = [tree_flatten(I, t, nn)[0] for t in (x, y)]
            if len(p) != len(q) or any(s.ndim != t.ndim or any(not A.same_size(i.size, j.size) for i, j in zip(s.axes, t.axes))
                                       for s, t in zip(map(A.to_arr, p), map(A.to_arr, q))):
                raise ShapeError('cotangent of the backward rule does not match the argument (%s)' % I.where(nn))
        return g
    return (out, Native('vjp', f))


@jx('jax.linearize')
def _(I, a, k, n):
    th, y = call_traced(I, a[0], a[1:], n)
    yl, rb = tree_flatten(I, y, n)

    def run(I, ts, kk, nn):
        tl, _ = tree_flatten(I, tuple(ts), nn)
        return rb(iter([el_map(I, l, lambda e: th.back(push(e, th, tl))) for l in yl]))
    return (th.back_val(y), Native('linearized', run))


@jx('jax.grad')
def _(I, a, k, n):
    l, many = _argnums(k, a)
    return make_grad(I, a[0], l, many, False, k.get('has_aux', False), n)


@jx('jax.value_and_grad')
def _(I, a, k, n):
    l, many = _argnums(k, a)
    return make_grad(I, a[0], l, many, True, k.get('has_aux', False), n)


@jx('jax.jacfwd', 'jax.jacrev', 'jax.jacobian')
def _(I, a, k, n):
    l, many = _argnums(k, a)
    return make_jac(I, a[0], l, many, n)


@jx('jax.hessian')
def _(I, a, k, n):
    l, many = _argnums(k, a)
    return make_jac(I, make_jac(I, a[0], l, many, n), l, many, n)


@jx('jax.custom_vjp', 'jax.custom_jvp')
def _(I, a, k, n):
    return NativeObj(I, 'custom_vjp', fn=a[0], fwd=None, bwd=None)


@jx('jax.flatten_util.ravel_pytree')
def _(I, a, k, n):
    leaves, rb = tree_flatten(I, a[0], n)
    arrs = [asarr(I, l, 'j', n) for l in leaves]
    if not arrs:
        flat = Arr([num(0)], lambda idx: ZERO, 'f', 'j')
    else:
        flats = [A.ravel(x) for x in arrs]
        flat = flats[0] if len(flats) == 1 else A.concat(flats, 0)
        from .m_core import _join_dt
        flat = Arr(flat.axes, flat.fn, _join_dt([x.dtype for x in arrs]), 'j')

    def un(I, b, kk, nn):
        v = asarr(I, b[0], 'j', nn)
        if v.ndim != 1 or not A.same_size(v.axes[0].size, flat.axes[0].size):
            raise ShapeError('unravel: expected size %s, got %s (%s)' % (flat.axes[0].size, [x.size for x in v.axes], I.where(nn)))
        outs = []
        for j, x in enumerate(arrs):
            def fn(idx, j=j, x=x):
                it = A.conv_index(PIdx(idx, x.axes), A.prod_axis(x.axes)) if x.ndim else ZERO
                if len(arrs) > 1:
                    parts = [A.ravel(y).axes[0] for y in arrs]
                    # position inside the concatenation
                    ci = cat_pos(parts, j, it)
                    return v.get([ci])
                return v.get([it])
            outs.append(Arr(x.axes, fn, v.dtype, 'j'))
        return rb(iter(outs))
    return (flat, Native('unravel', un, {'size': flat.axes[0].size}))


def cat_pos(parts, j, it):
    flatp = []
    start = None
    for q, p in enumerate(parts):
        if q == j:
            start = len(flatp)
        flatp.extend(p.parts if p.kind == 'cat' else (p,))
    axis = A.cat_axis(parts)
    if axis.kind != 'cat':
        return it
    p = parts[j]
    if p.kind == 'cat':
        return CIdx(start + it.k, it.item, axis)
    return CIdx(start, it, axis)


@jx('jax.tree_util.tree_map', 'jax.tree.map', 'jax.tree_map', 'jax.tree_multimap')
def _(I, a, k, n):
    return tree_map(I, a[0], a[1], a[2:], n)


@jx('jax.tree_util.tree_leaves', 'jax.tree.leaves', 'jax.tree_leaves')
def _(I, a, k, n):
    return PList(I, tree_flatten(I, a[0], n)[0])


@jx('jax.tree_util.tree_flatten', 'jax.tree.flatten')
def _(I, a, k, n):
    l, rb = tree_flatten(I, a[0], n)
    return (PList(I, l), Native('treedef', lambda I, b, kk, nn: rb(iter(b)), {'rb': rb}))


@jx('jax.tree_util.tree_unflatten', 'jax.tree.unflatten')
def _(I, a, k, n):
    return a[0].attrs['rb'](iter(I.iter_concrete(a[1], n)))


@jx('jax.lax.stop_gradient')
def _(I, a, k, n):
    def f(v):
        if not I.tracers:
            return v
        if isinstance(v, Arr):
            return Arr(v.axes, lambda idx: opq('stop_gradient', v.get(idx)), v.dtype, v.lib)
        return opq('stop_gradient', num(v)) if is_scal(v) else v
    return tmap(I, f, a[0], n)


@jx('jax.lax.cond')
def _(I, a, k, n):
    c = I.truth(a[0], n)
    rest = a[3:]
    if c is True:
        return I.call(a[1], rest, {}, n)
    if c is False:
        return I.call(a[2], rest, {}, n)
    return I.join(c, I.call(a[1], rest, {}, n), I.call(a[2], rest, {}, n))


@jx('jax.lax.fori_loop')
def _(I, a, k, n):
    lo, hi = pyint(a[0]), pyint(a[1])
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 32:
        v = a[3]
        for i in range(lo, hi):
            v = I.call(a[2], [i, v], {}, n)
        return v
    I.unmodelled('fori_loop', n)


@jx('jax.ops.segment_sum')
def _(I, a, k, n):
    from .m_core import scatter
    data, ids = asarr(I, arg(a, k, 0, 'data'), 'j', n), asarr(I, arg(a, k, 1, 'segment_ids'), 'j', n)
    m = arg(a, k, 2, 'num_segments', None)
    if m is None or ids.ndim != 1:
        I.unmodelled('segment_sum', n)
    if not A.same_size(ids.axes[0].size, data.axes[0].size):
        raise ShapeError('segment_sum: %s values, %s segment ids' % (show(data.axes[0].size), show(ids.axes[0].size)))
    z = A.full([Axis(num(A.scalar_of(m) if isinstance(m, Arr) else m))] + list(data.axes[1:]), ZERO, data.dtype, 'j')
    return scatter(I, z, ids, data, 'add', n)


@jx('jax.lax.scan')
def _(I, a, k, n):
    f, carry, xs = a[0], a[1], arg(a, k, 2, 'xs', None)
    if xs is None:
        m = pyint(arg(a, k, 3, 'length'))
        items = [None] * m if isinstance(m, int) and m <= 32 else None
    else:
        if isinstance(xs, Arr):
            items = I.iter_items(xs, n)
        elif isinstance(xs, tuple):
            items = list(zip(*[I.iter_items(x, n) for x in xs]))
        else:
            items = None
    if items is None or any(isinstance(x, GSeg) or isinstance(x, tuple) and any(isinstance(y, GSeg) for y in x) for x in items):
        I.unmodelled('lax.scan over a generic length', n)
    ys = []
    for x in items:
        r = I.iter_concrete(I.call(f, [carry, x], {}, n), n)
        carry = r[0]
        ys.append(r[1])
    if all(y is None for y in ys):
        return (carry, None)
    if all(isinstance(y, (Arr, X.E, int, float)) for y in ys):
        return (carry, NP['stack'](I, 'j', [PList(I, ys)], {}, n))
    I.unmodelled('lax.scan outputs', n)


@jx('jax.lax.select')
def _(I, a, k, n):
    return NP['where'](I, 'j', a, {}, n)


@jx('jax.lax.map')
def _(I, a, k, n):
    return I.call(vmap(I, a[0], 0, 0, n), [a[1]], {}, n)


@jx('jax.device_put', 'jax.block_until_ready', 'jax.device_get')
def _(I, a, k, n):
    return a[0]


@jx('jax.checkpoint', 'jax.remat', 'jax.named_call', 'functools.lru_cache', 'functools.cache')
def _(I, a, k, n):
    if not a:
        return Native('deco', lambda I, b, kk, nn: b[0])
    return a[0]


@jx('jax.config.update', 'jax.profiler.save_device_memory_profile', 'jax.debug.print', 'jax.clear_caches')
def _(I, a, k, n):
    I.event('config', node=n, args=tuple(a))
    return None


@jx('jax.default_backend')
def _(I, a, k, n):
    return Opq('str')


@jx('jax.devices', 'jax.local_devices')
def _(I, a, k, n):
    return PList(I, [Opq('device')])


@jx('jax.ShapeDtypeStruct')
def _(I, a, k, n):
    return NativeObj(I, 'sds', shape=arg(a, k, 0, 'shape'), dtype=arg(a, k, 1, 'dtype'))


@jx('jax.pure_callback', 'jax.experimental.io_callback')
def _(I, a, k, n):
    f, out = a[0], a[1]
    args = [Arr(x.axes, x.get, x.dtype, 'n') if isinstance(x, Arr) else x for x in a[2:]]
    I.event('callback', node=n, fn=f, out=out)
    r = I.call(f, args, {}, n)
    return tmap(I, lambda x: withlib(x, 'j') if isinstance(x, Arr) else x, r, n)


@jx('jax.random.PRNGKey', 'jax.random.key')
def _(I, a, k, n):
    return Opq('prngkey')


@jx('jax.random.uniform', 'jax.random.normal')
def _(I, a, k, n):
    _ctr[0] += 1
    sh = shape_of(I, arg(a, k, 1, 'shape', ()), n)
    return A.symbolic('rand%d' % _ctr[0], sh, 'f', 'j')


# ------------------------------------------------------------------ functools
@jx('functools.partial', 'jax.tree_util.Partial', 'jax.util.partial')
def _(I, a, k, n):
    return Partial(a[0], a[1:], k)


@jx('functools.wraps')
def _(I, a, k, n):
    src = a[0]

    def deco(I, b, kk, nn):
        f = b[0]
        if isinstance(f, (Func, Native)):
            f.attrs = dict(f.attrs)
            f.attrs['__wrapped__'] = src
            nm = I.getattr(src, '__name__', nn) if isinstance(src, (Func, Native, Bound)) else None
            if nm:
                f.attrs['__name__'] = nm
        return f
    return Native('wraps', deco)


@jx('functools.update_wrapper')
def _(I, a, k, n):
    return a[0]


@jx('functools.reduce')
def _(I, a, k, n):
    its = I.iter_concrete(a[1], n)
    if len(a) > 2:
        v = a[2]
    else:
        v, its = its[0], its[1:]
    for x in its:
        v = I.call(a[0], [v, x], {}, n)
    return v
