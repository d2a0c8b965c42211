from .P23 import *
from jfsa import expr as X
from jfsa.m_np import NP

PARTS = ('x', 'y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's')


class Spec:
    """primal-dual interior-point method for the MMA subproblem, from its optimality conditions"""

    def __init__(self, I, n, m):
        self.I, self.n, self.m = I, n, m
        self.size = dict(x=n, y=m, z=num(1), lam=m, xsi=n, eta=n, mu=m, zet=num(1), s=m)
        f = lambda nm: lambda i: app(nm, i, num(0))
        for k in ('low', 'upp', 'alfa', 'beta', 'p0', 'q0', 'a', 'b', 'c', 'd'):
            setattr(self, k, f(k))
        self.P, self.Q, self.a0 = (lambda k, i: app('P', k, i)), (lambda k, i: app('Q', k, i)), X.sym('a0')

    def col(self, g, sz):
        return Arr([ax(sz), ax(num(1))], lambda i: g(A.flat_index(i[0])), 'f', 'n')

    def red(self, v):
        n, m = self.n, self.m
        ux, xl = memo(lambda i: sub(self.upp(i), v['x'](i))), memo(lambda i: sub(v['x'](i), self.low(i)))
        plam = memo(lambda i: add(self.p0(i), S(m, lambda k: mul(self.P(k, i), v['lam'](k)))))
        qlam = memo(lambda i: add(self.q0(i), S(m, lambda k: mul(self.Q(k, i), v['lam'](k)))))
        g = memo(lambda k: S(n, lambda i: add(div(self.P(k, i), ux(i)), div(self.Q(k, i), xl(i)))))
        dpsi = memo(lambda i: sub(div(plam(i), power(ux(i), 2)), div(qlam(i), power(xl(i), 2))))
        return ux, xl, plam, qlam, g, dpsi

    def residual(self, v, eps):
        ux, xl, plam, qlam, g, dpsi = self.red(v)
        o = num(0)
        al = S(self.m, lambda k: mul(self.a(k), v['lam'](k)))
        L = [(self.n, lambda i: add(dpsi(i), mul(-1, v['xsi'](i)), v['eta'](i))),
             (self.m, lambda k: sub(add(self.c(k), mul(self.d(k), v['y'](k))), add(v['mu'](k), v['lam'](k)))),
             (num(1), lambda k: sub(self.a0, add(v['zet'](o), al))),
             (self.m, lambda k: add(g(k), mul(-1, self.a(k), v['z'](o)), mul(-1, v['y'](k)), v['s'](k), mul(-1, self.b(k)))),
             (self.n, lambda i: sub(mul(v['xsi'](i), sub(v['x'](i), self.alfa(i))), eps)),
             (self.n, lambda i: sub(mul(v['eta'](i), sub(self.beta(i), v['x'](i))), eps)),
             (self.m, lambda k: sub(mul(v['mu'](k), v['y'](k)), eps)),
             (num(1), lambda k: sub(mul(v['zet'](o), v['z'](o)), eps)),
             (self.m, lambda k: sub(mul(v['lam'](k), v['s'](k)), eps))]
        return A.concat([self.col(memo(g_), sz) for sz, g_ in L], 0)

    def norm(self, R):
        tot = num(0)
        for bk, it, vs in A.axis_cases(R.axes[0]):
            t = power(R.get([it, num(0)]), 2)
            for v in reversed(vs):
                t = mksum(v, X.VARSIZE[v.args[0]], t)
            tot = add(tot, t)
        return power(tot, num('1/2'))

    def maxabs(self, R):
        return A.scalar_of(asarr(self.I, NP['max'](self.I, 'n', [NP['abs'](self.I, 'n', [R], {}, None)], {}, None)))


def analyse(ctx, small):
    I = ctx.interp()
    n, m = size_sym('nvar'), size_sym('ncon')
    I.assume(X.lt(m, n), small)
    cnt = [0]

    def solve(I_, a, k, nd):
        cnt[0] += 1
        nm = 'sol%d' % cnt[0]
        I.event('solve', A=asarr(I, a[0]), b=asarr(I, a[1]), node=nd, out=nm)
        return symbolic(nm, [asarr(I, a[1]).axes[0].size, 1], 'f', 'n')
    I.ext_overrides['numpy.linalg.solve'] = solve
    args = [m, n, X.sym('epsimin', pos=True)] + [col(k, n) for k in ('low', 'upp', 'alfa', 'beta', 'p0', 'q0')] + \
        [symbolic('P', [m, n], 'f', 'n'), symbolic('Q', [m, n], 'f', 'n'), X.sym('a0')] + [col(k, m) for k in 'abcd']
    r = items(I.call(I.get('jax_fem.mma', 'subsolv'), args))
    return I, n, m, r


def find_state(rec, vals):
    """keys of the carried variables whose loop-head values are the given arrays"""
    out = []
    for v in vals:
        v = v if isinstance(v, Arr) else Arr([], lambda i, v=v: num(v), 'f', 'n') if isinstance(v, X.E) else None
        k = None if v is None else next((k for k, h in rec.head.items() if isinstance(h, Arr) and k not in out and h.ndim == v.ndim
                  and all(A.same_size(p.size, q.size) for p, q in zip(h.axes, v.axes)) and val_eq(h, v)), None)
        if k is None:
            return None
        out.append(k)
    return out


def scv(I, v):
    if isinstance(v, Arr):
        return norm(v.get([num(0)] * v.ndim))
    try:
        return norm(num(v))
    except Exception:
        return None


def scal_keys(I, rec):
    return [k for k, h in rec.head.items() if k[1] is not None and (isinstance(h, X.E) or isinstance(h, Arr) and all(A.is_one(x) for x in h.axes))]


def pick(I, rec, entry, nxt, keys=None):
    """carried scalar with the given entry value and step"""
    for k in keys if keys is not None else scal_keys(I, rec):
        h, e, x = scv(I, rec.head[k]), scv(I, rec.entry[k]), scv(I, rec.next[k])
        if e is not None and x is not None and (entry is None or X.equal(e, entry)) and (nxt is None or X.equal(x, nxt(h))):
            return k
    return None


def fn_state(arrs):
    return {p: memo((lambda a: lambda i: a.get([i, num(0)]))(a)) for p, a in zip(PARTS, arrs)}


def last_pass(rec):
    """substitution of the values after a loop by those of its last pass"""
    arr = {}
    for k, h in rec.head.items():
        if k[1] is None:
            continue
        y = rec.next[k]
        if isinstance(h, Arr) and getattr(h, 'head_name', None) and h.ndim == 0 and scv(None, y) is not None:
            arr[h.head_name] = (lambda v: lambda i: v)(scv(None, y))
        elif isinstance(h, Arr) and isinstance(y, Arr) and getattr(h, 'head_name', None):
            arr[h.head_name] = (lambda y, h: lambda i: y.get(A.unleaf(h.axes, i)))(y, h)
        elif isinstance(h, X.E):
            v = scv(None, y)
            if v is not None:
                arr[h.args[0]] = (lambda v: lambda i: v)(v)

    def term(e):
        return norm(X.replace_apps(num(e), arr) if arr else num(e))
    return term


def subproblem(ctx, small):
    I, n, m, r = analyse(ctx, small)
    w = where_fn(I, 'subsolv')
    sp = Spec(I, n, m)
    if not ctx.ob('nine results and three nested loops', len(r) == 9 and len(I.loops) == 3, '%d loops' % len(I.loops), w):
        return
    K1 = L1 = K2 = L2 = K3 = L3 = None
    for L in I.loops:
        K1 = find_state(L, r)
        if K1:
            L1 = L
            break
    if not ctx.ob('results are the iterates of the outer loop', L1 is not None, '', w):
        return
    for L in I.loops:
        if L is not L1:
            K2 = find_state(L, [asarr(I, L1.next[k]) for k in K1])
            if K2:
                L2 = L
                break
    if not ctx.ob('outer iterates come from the Newton loop', L2 is not None, '', L1.where):
        return
    for L in I.loops:
        if L is not L1 and L is not L2:
            K3 = find_state(L, [asarr(I, L2.next[k]) for k in K2])
            L3 = L if K3 else None
    if not ctx.ob('Newton iterates come from the step-length loop', L3 is not None, '', L2.where):
        return
    f = fn_state([asarr(I, L1.entry[k]) for k in K1])
    one = lambda i: num(1)
    x0 = lambda i: div(add(sp.alfa(i), sp.beta(i)), 2)
    init = dict(x=x0, y=one, z=one, lam=one, xsi=lambda i: X.emax(div(1, sub(x0(i), sp.alfa(i))), num(1)),
                eta=lambda i: X.emax(div(1, sub(sp.beta(i), x0(i))), num(1)), mu=lambda i: X.emax(num(1), div(sp.c(i), 2)), zet=one, s=one)
    for p, k in zip(PARTS, K1):
        ctx.eq('starting value of %s' % p, asarr(I, L1.entry[k]), sp.col(init[p], sp.size[p]), L1.where)
    ke = pick(I, L1, num(1), lambda h: mul(num('1/10'), h))
    if not ctx.ob('barrier parameter starts at one and is divided by ten', ke is not None, '', L1.where):
        return
    eps = scv(I, L1.head[ke])
    ctx.ob('no other exit', not (L1.breaks or L2.breaks or L3.breaks), '', L1.where)
    ctx.eqs('barrier loop runs until the accuracy is reached', L1.guard, X.lt(X.sym('epsimin'), eps), L1.where)
    # Newton loop
    h1 = fn_state([asarr(I, L1.head[k]) for k in K1])
    R1 = sp.residual(h1, eps)
    for p, k, k1 in zip(PARTS, K2, K1):
        ctx.eq('Newton loop starts at the current %s' % p, asarr(I, L2.entry[k]), asarr(I, L1.head[k1]), L2.where)
    kn, km = pick(I, L2, sp.norm(R1), None), pick(I, L2, sp.maxabs(R1), None)
    if not ctx.ob('residual norm and largest residual carried from the current point and barrier parameter', kn is not None and km is not None,
                  'norm %s, largest %s' % (kn is not None, km is not None), L2.where):
        return
    kc = pick(I, L2, num(0), lambda h: add(h, 1), [k for k in scal_keys(I, L2) if isinstance(L2.head[k], X.E) and X.contains(num(L2.guard), lambda z: z is L2.head[k])])
    ctx.ob('Newton steps counted', kc is not None, '', L2.where)
    if kc is None:
        return
    hm, hn = scv(I, L2.head[km]), scv(I, L2.head[kn])
    ctx.eqs('Newton loop runs while the largest residual exceeds 0.9 times the barrier parameter, at most 200 times', L2.guard,
            X.band(X.lt(mul(num('9/10'), eps), hm), X.lt(scv(I, L2.head[kc]), 200)), L2.where)
    h2 = fn_state([asarr(I, L2.head[k]) for k in K2])
    ev = [e for e in I.events if e['kind'] == 'solve']
    if not ctx.ob('one linear system per Newton step', len(ev) == 1, '%d' % len(ev), L2.where):
        return
    D = direction(ctx, sp, h2, eps, ev[0], small)
    # step length
    o = num(0)
    hd = {p: fn_state([asarr(I, L3.head[k]) for k in K3])[p] for p in PARTS}
    ra = [A.concat([sp.col(memo(lambda i, p=p: mul(num('-101/100'), div(D[p](i), h2[p](i)))), sp.size[p]) for p in PARTS if p != 'x'], 0)]
    ra.append(sp.col(memo(lambda i: mul(num('-101/100'), div(D['x'](i), sub(h2['x'](i), sp.alfa(i))))), n))
    ra.append(sp.col(memo(lambda i: mul(num('101/100'), div(D['x'](i), sub(sp.beta(i), h2['x'](i))))), n))
    mx = [A.scalar_of(asarr(I, NP['max'](I, 'n', [a], {}, None))) for a in ra]
    steg0 = norm(div(1, X.emax(*(mx + [num(1)]))))
    ks = pick(I, L3, steg0, lambda h: div(h, 2))
    if not ctx.ob('step starts at the largest step that keeps all variables inside their bounds (safety 1.01, at most one) and is halved',
                  ks is not None, '', L3.where):
        return
    st = scv(I, L3.head[ks])
    kt = pick(I, L3, num(0), lambda h: add(h, 1), [k for k in scal_keys(I, L3) if isinstance(L3.head[k], X.E) and X.contains(num(L3.guard), lambda z: z is L3.head[k])])
    nx = {}
    for p, k in zip(PARTS, K3):
        nx[p] = memo(lambda i, p=p: add(h2[p](i), mul(st, D[p](i))))
        ctx.eq('trial %s' % p, asarr(I, L3.next[k]), sp.col(nx[p], sp.size[p]), L3.where)
    N3 = norm(sp.norm(sp.residual(nx, eps)))
    kr = pick(I, L3, None, lambda h: N3)
    if not ctx.ob('trial residual measured at the trial point', kr is not None and kt is not None, '', L3.where):
        return
    ent = scv(I, L3.entry[kr])
    ctx.ob('first trial always made', ent.op == 'inf' or X.equal(ent, mul(2, hn)), X.show(ent), L3.where)
    ctx.eqs('steps halved while the residual norm grows, at most 50 times', L3.guard,
            X.band(X.lt(hn, scv(I, L3.head[kr])), X.lt(scv(I, L3.head[kt]), 50)), L3.where)
    post = last_pass(L3)
    ctx.eqs('residual norm of the accepted point', post(scv(I, L2.next[kn])), N3, L2.where)
    ctx.eqs('largest residual of the accepted point', post(scv(I, L2.next[km])), sp.maxabs(sp.residual(nx, eps)), L2.where)


def direction(ctx, sp, v, eps, e, small):
    n, m, o = sp.n, sp.m, num(0)
    ux, xl, plam, qlam, g, dpsi = sp.red(v)
    xa, bx = memo(lambda i: sub(v['x'](i), sp.alfa(i))), memo(lambda i: sub(sp.beta(i), v['x'](i)))
    GG = memo(lambda k, i: sub(div(sp.P(k, i), power(ux(i), 2)), div(sp.Q(k, i), power(xl(i), 2))))
    delx = memo(lambda i: add(dpsi(i), mul(-1, div(eps, xa(i))), div(eps, bx(i))))
    dely = memo(lambda k: add(sp.c(k), mul(sp.d(k), v['y'](k)), mul(-1, v['lam'](k)), mul(-1, div(eps, v['y'](k)))))
    delz = norm(add(sp.a0, mul(-1, S(m, lambda k: mul(sp.a(k), v['lam'](k)))), mul(-1, div(eps, v['z'](o)))))
    dellam = memo(lambda k: add(g(k), mul(-1, sp.a(k), v['z'](o)), mul(-1, v['y'](k)), mul(-1, sp.b(k)), div(eps, v['lam'](k))))
    dgx = memo(lambda i: add(mul(2, add(div(plam(i), power(ux(i), 3)), div(qlam(i), power(xl(i), 3)))), div(v['xsi'](i), xa(i)), div(v['eta'](i), bx(i))))
    dgy = memo(lambda k: add(sp.d(k), div(v['mu'](k), v['y'](k))))
    dly = memo(lambda k: add(div(v['s'](k), v['lam'](k)), div(1, dgy(k))))
    sol = lambda i: app(e['out'], i, num(0))
    w = e['where']
    a1 = lambda f: Arr([ax(m if small else n), ax(num(1))], f, 'f', 'n')
    sq = lambda s, f: Arr([ax(s), ax(s)], f, 'f', 'n')
    one = lambda x: Arr([ax(num(1)), ax(num(1))], lambda i: x, 'f', 'n')
    F = A.flat_index
    if small:
        blam = lambda k: add(dellam(k), div(dely(k), dgy(k)), mul(-1, S(n, lambda i: mul(GG(k, i), div(delx(i), dgx(i))))))
        al = sq(m, lambda i: add(mul(eq(F(i[0]), F(i[1])), dly(F(i[0]))), S(n, lambda j: div(mul(GG(F(i[0]), j), GG(F(i[1]), j)), dgx(j)))))
        M = A.concat([A.concat([al, sp.col(sp.a, m)], 1),
                      A.concat([A.transpose(sp.col(sp.a, m)), one(mul(-1, div(v['zet'](o), v['z'](o))))], 1)], 0)
        b = A.concat([sp.col(blam, m), one(delz)], 0)
        dlam, dz = memo(sol), norm(sol(m))
        dx = memo(lambda i: mul(-1, add(div(delx(i), dgx(i)), div(S(m, lambda k: mul(GG(k, i), dlam(k))), dgx(i)))))
    else:
        dly2 = memo(lambda k: add(dellam(k), div(dely(k), dgy(k))))
        axx = sq(n, lambda i: add(mul(eq(F(i[0]), F(i[1])), dgx(F(i[0]))), S(m, lambda k: div(mul(GG(k, F(i[0])), GG(k, F(i[1]))), dly(k)))))
        axz = sp.col(lambda i: mul(-1, S(m, lambda k: div(mul(GG(k, i), sp.a(k)), dly(k)))), n)
        azz = one(add(div(v['zet'](o), v['z'](o)), S(m, lambda k: div(power(sp.a(k), 2), dly(k)))))
        M = A.concat([A.concat([axx, axz], 1), A.concat([A.transpose(axz), azz], 1)], 0)
        bxv = lambda i: mul(-1, add(delx(i), S(m, lambda k: div(mul(GG(k, i), dly2(k)), dly(k)))))
        bz = sub(S(m, lambda k: div(mul(sp.a(k), dly2(k)), dly(k))), delz)
        b = A.concat([sp.col(bxv, n), one(bz)], 0)
        dx, dz = memo(sol), norm(sol(n))
        dlam = memo(lambda k: add(div(S(n, lambda i: mul(GG(k, i), dx(i))), dly(k)), mul(-1, dz, div(sp.a(k), dly(k))), div(dly2(k), dly(k))))
    ctx.eq('matrix of the Newton system', e['A'], M, w)
    ctx.eq('right-hand side of the Newton system', e['b'], b, w)
    dy = memo(lambda k: div(sub(dlam(k), dely(k)), dgy(k)))
    st = lambda p, q, dq, gap: memo(lambda i: add(mul(-1, v[p](i)), div(eps, gap(i)), mul(-1, div(mul(v[p](i), dq(i)), gap(i)))))
    return dict(x=dx, y=dy, z=lambda i: dz, lam=dlam, xsi=st('xsi', 'x', dx, xa),
                eta=memo(lambda i: add(mul(-1, v['eta'](i)), div(eps, bx(i)), div(mul(v['eta'](i), dx(i)), bx(i)))),
                mu=st('mu', 'y', dy, v['y']), zet=st('zet', 'z', lambda i: dz, v['z']), s=st('s', 'lam', dlam, v['lam']))


def run(ctx):
    """Three nested loops analysed at their heads with symbolic numbers of variables and constraints and symbolic data,
    both elimination orders: starting point, barrier schedule, residuals, Newton system, direction, step length and
    acceptance equal those of the primal-dual interior-point method for the subproblem's optimality conditions."""
    ctx.scenario('fewer constraints than variables', subproblem, ctx, True)
    ctx.scenario('at least as many constraints as variables', subproblem, ctx, False)
