from .newton import *


def stub_spsolve(s):
    n = [0]

    def sp(I, a, k, node):
        d = dict(zip(['A', 'b'], a))
        d.update(k)
        n[0] += 1
        nm = 'spx%d' % n[0]
        b = asarr(I, d['b'], 'j')
        M = d['A'].s['M']
        I.event('lin', M=M, b=b, node=node, out=nm, opts=None)
        return symbolic(nm, [M.axes[1].size])
    s.I.overrides['jax_fem.solver:scipy_spsolve'] = sp


def step_scen(ctx, control, nv, nbc):
    s = SP(ctx, nv, nbc)
    I = s.I
    stub_spsolve(s)
    fn = 'arc_length_solver_%s_driven' % control
    w = where_fn(s, fn)
    lib = 'n' if s.I.fx else 'j'
    u0, D0 = symbolic('u0', [s.ntot], 'f', lib), symbolic('D0', [s.ntot], 'f', lib)
    l0, dl0 = X.sym('lam0'), X.sym('dlam0')
    dl, psi = X.sym('Delta_l', pos=True), X.sym('psi', pos=True)
    q = symbolic('q', [s.ntot])
    a = [s.p, u0, l0, D0, dl0] + ([q] if control == 'force' else [])
    f = s.fn(fn)
    r = I.call(f, a, {'Delta_l': dl, 'psi': psi})
    r = list(r) if isinstance(r, (tuple, list)) else items(r)
    if not ctx.ob('one corrector loop', len(I.loops) == 1, '%d loops with a run-time guard' % len(I.loops), w) or \
            not ctx.ob('four results', len(r) == 4, '%d' % len(r), w):
        return
    rec = I.loops[0]

    def carried(v, what):
        k = next((k for k, h in rec.head.items() if k[1] is not None and val_eq(v, h)), None)
        return k if ctx.ob('%s is carried by the loop' % what, k is not None, '', rec.where) else None
    ks = [carried(v, n) for v, n in zip(r, ('displacement', 'load factor', 'displacement increment', 'load increment'))]
    if None in ks:
        return
    zero = lambda b, n, d: num(0)
    if control == 'disp':
        ub = s.vec_of([s.over(v, lambda n, d: num(0), lambda b, n, d: b) for v in range(nv)])
    else:
        ub = s.vec_of([s.over(v, part(s, q, v), zero) for v in range(nv)])
    dot = lambda x, y: tot(A.elementwise(lambda a, b: mul(a, b), x, y))
    B = dot(ub, ub)
    sq = lambda x: power(x, 2)

    def resid(H, L):
        if control == 'disp':
            return s.residual(H, scale=L)
        return A.elementwise(lambda x, y: add(x, mul(sub(1, L), y)), s.residual(H), ub)

    def iteration(tag, old, new):
        H, L, D, dL = old
        U, LN, DN, dLN = new
        R = resid(H, L)
        Am = s.A_red(H)

        def solve(b, what):
            c = [e for e in lin(I) if val_eq(e['b'], b)]
            ctx.ob('%s: a linear solve has %s as its right-hand side' % (tag, what), c, '', rec.where)
            e = next((e for e in c if val_eq(e['M'], Am)), None)
            if c and e is None:
                ctx.eq('%s: matrix of the linear solve with %s' % (tag, what), c[-1]['M'], Am, c[-1]['where'])
            return symbolic(e['out'], [s.ntot]) if e else None
        x1 = solve(A.elementwise(lambda x: mul(-1, x), R), 'minus the residual at the current point and load')
        x2 = solve(ub, 'the prescribed values' if control == 'disp' else 'the unconstrained load vector')
        if x1 is None or x2 is None:
            return
        d = sub(LN, L)
        ctx.eq('%s: corrected displacement' % tag, U, A.elementwise(lambda a, b, c: add(a, b, mul(d, c)), H, x1, x2), rec.where)
        trial = lambda t: A.elementwise(lambda a, b, c, e: add(a, b, mul(t, c), mul(-1, e)), H, x1, x2, u0)

        def sphere(t):
            x = trial(t)
            return sub(add(dot(x, x), mul(sq(psi), sq(add(L, t, mul(-1, l0))), B)), sq(dl))
        f0, f1, f2 = sphere(num(0)), sphere(num(1)), sphere(num(-1))
        c1, c2 = div(sub(f1, f2), 2), sub(div(add(f1, f2), 2), f0)
        root = power(sub(mul(c1, c1), mul(4, c2, f0)), num('1/2'))
        ra, rb = [norm(div(add(mul(-1, c1), mul(sg, root)), mul(2, c2))) for sg in (1, -1)]
        along = lambda t: norm(add(dot(D, trial(t)), mul(sq(psi), dL, sub(add(L, t), l0), B)))
        pa, pb = along(ra), along(rb)
        tiny = num('1/10000000000')
        small = X.band(X.lt(opq('abs', pa), tiny), X.lt(opq('abs', pb), tiny))
        want = X.ite(small, X.emax(ra, rb), X.ite(X.lt(pb, pa), ra, rb))
        ctx.eqs('%s: load increment is the root of the arc-length equation that continues the previous direction' % tag, d, norm(want), rec.where)
        ctx.eq('%s: increment carried on' % tag, DN, A.elementwise(lambda a, b: sub(a, b), U, u0), rec.where)
        ctx.eqs('%s: load increment carried on' % tag, dLN, sub(LN, l0), rec.where)
        fin = [e['cond'] for e in I.events if e['kind'] in ('assert', 'guard') and e.get('cond') is not None]
        for nm, x in (('first', ra), ('second', rb)):
            f = opq('isfinite', x)
            ctx.ob('%s: %s root asserted finite' % (tag, nm), any(X.same_values(mul(c, f), c) for c in fin), '', rec.where)
    state = lambda m: [m[k] if j % 2 == 0 else sc(m[k]) for j, k in enumerate(ks)]
    first = [u0, l0, D0, dl0]
    heads, nexts, entry = state(rec.head), state(rec.next), state(rec.entry)
    peeled = not all(val_eq(a, b) for a, b in zip(entry, first))
    if peeled:
        iteration('first correction', first, entry)
    iteration('each correction', heads, nexts)
    # stopping test
    ctx.ob('no other exit', not rec.breaks, '', rec.where)
    nrm = norm_of(resid(heads[0], heads[1]))
    m, m0 = {}, {}
    for k, h in rec.head.items():
        if k in ks or k[1] is None or not isinstance(h, (X.E, Arr)) or isinstance(h, Arr) and h.ndim:
            continue
        # what the previous iteration left in a scalar, in terms of the iterate it started from
        m[norm(sc(h))], m0[norm(sc(h))] = norm(sc(rec.next[k])), norm(sc(rec.entry[k]))
    g = X.replace_atoms(norm(rec.guard), m)
    tol = num('1/1000000')
    ctx.eqs('corrections go on exactly while the residual last corrected exceeds the tolerance', g, X.lt(tol, nrm), rec.where)
    g0 = norm(X.replace_atoms(norm(rec.guard), m0))
    ctx.eqs('at least one correction is made', g0, X.lt(tol, norm_of(resid(u0, l0))) if peeled else num(1), rec.where)


def lin(I):
    return [e for e in I.events if e['kind'] == 'lin']


def tot(a):
    t = num(0)
    for bk, it, vs in A.axis_cases(a.axes[0]):
        e = a.get([it])
        for v in reversed(vs):
            e = mksum(v, X.VARSIZE[v.args[0]], e)
        t = add(t, e)
    return t


def part(s, q, v):
    return lambda n, d: q.get([norm(add(s.off[v], mul(n, s.vec[v]), d))])


def run(ctx):
    """Loop-invariant analysis of the two arc-length correctors: every correction solves the eliminated tangent at the
    current point against minus the residual at the current point and load and against the load pattern, moves along
    both, and picks the load increment as the root of the arc-length sphere equation (derived independently by expanding
    the sphere at three points) that continues the previous direction; the loop goes on exactly while the residual
    last corrected exceeds the tolerance; the results are the carried point, load and increments."""
    confs = [(1, 1), (2, 0)]
    confs += [(2, 1), (1, 0)]
    for nv, nbc in confs:
        for c in ('disp', 'force'):
            ctx.scenario('%s control, %d variables %d conditions' % (c, nv, nbc), step_scen, ctx, c, nv, nbc)
