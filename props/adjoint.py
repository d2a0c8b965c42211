"""shared analysis of ad_wrapper gradients"""
from .newton import *
from jfsa.m_jax import JX, tree_flatten


def thetas(I, form, tag=''):
    a = symbolic('th' + tag, [size_sym('npar')])
    if form == 'array':
        return a, ['th' + tag], [a]
    b = symbolic('ph' + tag, [size_sym('nq'), size_sym('mq')])
    return PList(I, [a, b]), ['th' + tag, 'ph' + tag], [a, b]


def stub_solver(s):
    """solver(problem, options) -> opaque solution of the parameters in force"""
    def f(I, a, k, n):
        p = a[0]
        I.event('fwd', p=p, opts=a[1] if len(a) > 1 else k.get('solver_options'), node=n)
        return PList(I, s.sol(s.state(p)))
    s.fn('solver')
    s.I.overrides['jax_fem.solver:solver'] = f
    s.sol = lambda st: [Arr([ax(s.nnt[v]), ax(s.vec[v])], lambda i, v=v: X.uf('U%d' % v, st, [A.flat_index(x) for x in i]), 'f', 'j')
                        for v in range(s.nv)]


def gradient_spec(s, arrs, names, lamv):
    """-(dc/dtheta)^T lambda per leaf; c = row-eliminated residual at the solution (held fixed)"""
    st = [lam_of(a) for a in arrs]
    u = s.sol([X.sym('frozen')])
    u_at = s.sol(st)
    # derivative with the solution held fixed: differentiate with an opaque solution, then substitute the real one
    fz = [Arr([ax(s.nnt[v]), ax(s.vec[v])], lambda i, v=v: app('ufix%d' % v, *[A.flat_index(x) for x in i]), 'f', 'j') for v in range(s.nv)]
    full = cat([A.ravel(x) for x in fz])
    back = {'ufix%d' % v: (lambda es, v=v: u_at[v].get(es)) for v in range(s.nv)}
    out = []
    for a, nm in zip(arrs, names):
        def g(idx, nm=nm, a=a):
            k = tuple(idx)
            tot = num(0)
            for v in range(s.nv):
                n, d = fresh('n', s.nnt[v]), fresh('d', s.vec[v])
                if s.bc_params:
                    def val(b, n, d):
                        return b
                base = s.R(full, st)[v]
                res = base(n, d)
                for i in range(s.nbc_now):
                    sz, nd, vc, bv = s.bc_arrays(v, i)
                    bvf = (lambda q, v=v, i=i: s.bc_val_arr(v, i, st).get([q])) if s.bc_params else bv
                    ind = lambda q: mul(eq(nd(q), n), eq(vc(q), d))
                    res = add(mul(sub(1, S(sz, ind)), res), S(sz, lambda q: mul(ind(q), sub(fz[v].get([n, d]), bvf(q)))))
                dr = X.diff(norm(res), nm, k)
                t = mul(lamv(v, n, d), X.replace_apps(dr, back))
                tot = add(tot, mksum(n, s.nnt[v], mksum(d, s.vec[v], t)))
            return mul(-1, tot)
        out.append(Arr(a.axes, g))
    return out


def tracer_free(I, v, seen=None, path=''):
    """first path inside a heap value that still mentions a differentiation variable, or None"""
    seen = seen if seen is not None else set()
    if isinstance(v, (Arr, X.E)):
        es = [v.get(idx) for _, idx, _ in v.cases()] if isinstance(v, Arr) else [v]
        return path if any(X.mentions(norm(e), I.all_tracers) for e in es) else None
    if id(v) in seen:
        return None
    seen.add(id(v))
    if isinstance(v, (PList, tuple)):
        it = enumerate(v.items if isinstance(v, PList) else v)
    elif isinstance(v, PDict):
        it = v.d.items()
    elif isinstance(v, Inst):
        it = v.f.items()
    elif isinstance(v, NativeObj):
        it = [(k, x) for k, x in v.s.items() if k != 'parts']
    else:
        return None
    for k, x in it:
        r = tracer_free(I, x, seen, '%s.%s' % (path, k))
        if r is not None:
            return r
    return None


def gradient_scen(ctx, nv, nbc, pmat, form, bcp, history):
    s = SP(ctx, nv, nbc, pmat)
    I = s.I
    s.bc_params = bcp
    stub_linear(s)
    stub_solver(s)
    fo, ao = PDict(I, {'newton': PDict(I, {})}), PDict(I, {'petsc_solver': PDict(I, {})})
    f = s.call('ad_wrapper', s.p, fo, ao)
    w = where_fn(s, 'implicit_vjp')
    th, names, arrs = thetas(I, form)
    st = [lam_of(a) for a in arrs]
    out, pull = JX['jax.vjp'](I, [f, th], {}, None)
    for v in range(nv):
        ctx.eq('forward value %d' % v, items(out)[v], s.sol(st)[v], where_fn(s, 'ad_wrapper'))
    fw = [e for e in I.events if e['kind'] == 'fwd']
    ctx.ob('one forward solve with the given options', len(fw) == 1 and fw[0]['opts'] is fo, '', where_fn(s, 'ad_wrapper'))
    if history:
        th2, _, arrs2 = thetas(I, form, 'b')
        out2 = I.call(f, [th2], {})
        ctx.eq('second forward value', items(out2)[0], s.sol([lam_of(a) for a in arrs2])[0], where_fn(s, 'ad_wrapper'))
    vs = [symbolic('ct%d' % v, [s.nnt[v], s.vec[v]]) for v in range(nv)]
    g = I.call(pull, [PList(I, vs)], {})
    g = g[0]
    lin = [e for e in I.events if e['kind'] == 'lin']
    if not ctx.ob('one adjoint solve', len(lin) == 1, '%d' % len(lin), w):
        return
    e = lin[0]
    u = cat([A.ravel(x) for x in s.sol(st)])
    ctx.eq('adjoint matrix', e['M'], A.transpose(s.A_red(u, st)), e['where'])
    ct = cat([A.ravel(x) for x in vs])
    if pmat:
        ct = A.matmul(A.transpose(s.P), ct)
    ctx.eq('adjoint right-hand side', e['b'], ct, e['where'])
    ctx.ob('adjoint solver options', e['opts'] is ao, '', e['where'])
    inc = symbolic(e['out'], [s.nred if pmat else s.ntot])
    lamb = full_of(s, inc)
    sp = s.split(lamb)
    want = gradient_spec(s, arrs, names, lambda v, n, d: sp[v](n, d))
    got = tree_flatten(I, g, None)[0]
    if ctx.ob('gradient has the structure of the parameters', len(got) == len(arrs), '', w):
        for nm, x, y in zip(names, got, want):
            ctx.eq('gradient in %s' % ('the parameters' if len(names) == 1 else nm), x, y, w)
