from .common import *
from .newton import val_eq
from jfsa.interp import Native, NativeObj, PDict


def where_fn(I, name):
    return 'jax_fem.mma:%s %s' % (getattr(I.get('jax_fem.mma', name).node, 'lineno', '?'), name)


def plain(I, x):
    return x.s['M'] if isinstance(x, NativeObj) and isinstance(x.s.get('M'), Arr) else asarr(I, x, 'n')


def col(nm, n):
    return symbolic(nm, [n, 1], 'f', 'n')


def run_opt(ctx, iters, dens=False, sens=True):
    """analyse one optimisation of `iters` iterations with the subproblem solver kept opaque"""
    I = ctx.interp()
    n, m = size_sym('nvar', 2), size_sym('ncon')
    mod = I.module('jax_fem.mma')
    I.setattr(mod, 'density_filtering', dens)
    I.setattr(mod, 'sensitivity_filtering', sens)
    fx = fixture(I, 'from jax.experimental.sparse import BCOO\nr = (BCOO.fromdense(Hd), Hs)\nclass F: pass\nfe = F()\n',
                 {'Hd': symbolic('H', [n, n], 'f', 'j'), 'Hs': symbolic('Hs', [n], 'f', 'j')}, 'opt').env.vars
    I.overrides['jax_fem.mma:compute_filter_kd_tree'] = lambda I_, a, k, nd: I.event('filter', fe=(a or list(k.values()))[0]) or fx['r']
    J, C, SUB = [], [], []

    def obj(I_, a, k, nd):
        J.append(plain(I, a[0]))
        q = len(J)
        return symbolic('J%d' % q, [], 'f', 'j'), symbolic('dJ%d' % q, [n, 1], 'f', 'j')

    def cons(I_, a, k, nd):
        C.append((plain(I, a[0]), a[1]))
        q = len(C)
        return symbolic('vc%d' % q, [m], 'f', 'j'), symbolic('dvc%d' % q, [m, n, 1], 'f', 'j')

    def sub_(I_, a, k, nd):
        d = I.bind(I.get('jax_fem.mma', 'subsolv'), a, k, nd)
        SUB.append(d)
        q = len(SUB)
        return tuple([col('x%d' % q, n)] + [col('s%d_%d' % (q, i), n if i in (4, 5) else 1 if i in (2, 7) else m) for i in range(1, 9)])
    I.overrides['jax_fem.mma:subsolv'] = sub_
    r = I.call(I.get('jax_fem.mma', 'optimize'),
               [fx['fe'], symbolic('rho0', [n, 1], 'f', 'n' if I.fx else 'j'), PDict(I, {'maxIters': iters, 'movelimit': X.sym('move')}),
                Native('objective', obj), Native('constraints', cons), m])
    return dict(I=I, n=n, m=m, r=r, J=J, C=C, SUB=SUB, fe=fx['fe'])


def spec_data(q, xs, low, upp, w=lambda i: num(1)):
    """asymptotes of the q-th subproblem; xs: designs so far (functions of the variable), low/upp: asymptotes used
    before, w: width of the bounds"""
    x = xs[-1]
    if q <= 2:
        lo, up = (lambda i: sub(x(i), mul(w(i), num('1/2')))), (lambda i: add(x(i), mul(w(i), num('1/2'))))
    else:
        def fac(i):
            z = mul(sub(x(i), xs[-2](i)), sub(xs[-2](i), xs[-3](i)))
            return X.ite(X.lt(0, z), num('6/5'), X.ite(X.lt(z, 0), num('7/10'), num(1)))
        lo = lambda i: X.emin(X.emax(sub(x(i), mul(fac(i), sub(xs[-2](i), low(i)))), sub(x(i), mul(10, w(i)))), sub(x(i), mul(num('1/100'), w(i))))
        up = lambda i: X.emax(X.emin(add(x(i), mul(fac(i), sub(upp(i), xs[-2](i)))), add(x(i), mul(10, w(i)))), add(x(i), mul(num('1/100'), w(i))))
    return lo, up


def bounds(ctx, d, x, low, upp, mv, lo0, hi0, tag, ws, colv):
    w = lambda i: sub(hi0(i), lo0(i))
    ctx.eq('lower asymptotes' + tag, d['low'], colv(low), ws)
    ctx.eq('upper asymptotes' + tag, d['upp'], colv(upp), ws)
    ctx.eq('lower bounds' + tag, d['alfa'], colv(lambda i: X.emax(add(low(i), mul(num('1/10'), sub(x(i), low(i)))), sub(x(i), mul(mv, w(i))), lo0(i))), ws)
    ctx.eq('upper bounds' + tag, d['beta'], colv(lambda i: X.emin(sub(upp(i), mul(num('1/10'), sub(upp(i), x(i)))), add(x(i), mul(mv, w(i))), hi0(i))), ws)


def coefficients(ctx, d, n, m, x, low, upp, dj, dc, fv, w, tag, ws, colv):
    raa = lambda i: div(num('1/100000'), X.emax(w(i), num('1/100000')))
    pos, ng = (lambda g: X.emax(g, num(0))), (lambda g: X.emax(mul(-1, g), num(0)))
    mix = lambda i, p, o_: add(p, mul(num('1/1000'), add(p, o_)), raa(i))
    u2, l2 = (lambda i: power(sub(upp(i), x(i)), 2)), (lambda i: power(sub(x(i), low(i)), 2))
    ctx.eq('p0' + tag, d['p0'], colv(lambda i: mul(u2(i), mix(i, pos(dj(i)), ng(dj(i))))), ws)
    ctx.eq('q0' + tag, d['q0'], colv(lambda i: mul(l2(i), mix(i, ng(dj(i)), pos(dj(i))))), ws)
    mat = lambda g: Arr([ax(m), ax(n)], lambda i: g(A.flat_index(i[0]), A.flat_index(i[1])), 'f', 'n')
    Pf = lambda k, i: mul(u2(i), mix(i, pos(dc(k, i)), ng(dc(k, i))))
    Qf = lambda k, i: mul(l2(i), mix(i, ng(dc(k, i)), pos(dc(k, i))))
    ctx.eq('P' + tag, d['P'], mat(Pf), ws)
    ctx.eq('Q' + tag, d['Q'], mat(Qf), ws)
    ctx.eq('b' + tag, d['b'], Arr([ax(m), ax(num(1))], lambda k: sub(S(n, lambda i: add(
        div(Pf(A.flat_index(k[0]), i), sub(upp(i), x(i))), div(Qf(A.flat_index(k[0]), i), sub(x(i), low(i))))),
        fv(A.flat_index(k[0]))), 'f', 'n'), ws)


def general(ctx, epoch):
    """one subproblem after any history, for any bounds"""
    I = ctx.interp()
    n, m = size_sym('nvar'), size_sym('ncon')
    M = I.call(I.get('jax_fem.mma', 'MMA'), [])
    call = lambda nm, *a: I.call(I.getattr(M, nm), list(a))
    call('setNumConstraints', m)
    call('setNumDesignVariables', n)
    # any bounds with xmin <= xmax: the width is written as a square
    xmax = Arr([ax(n), ax(num(1))], lambda i: add(app('xmin', A.flat_index(i[0]), num(0)), power(app('width', A.flat_index(i[0]), num(0)), 2)), 'f', 'n')
    call('setMinandMaxBoundsForDesignVariables', col('xmin', n), xmax)
    for q in range(3):
        call('registerMMAIter', col('xold1', n), col('x', n), col('xold2', n))
    call('resetMMACounter')
    for q in range(epoch):
        call('registerMMAIter', col('x', n), col('xold1', n), col('xold2', n))
    call('setLowerAndUpperAsymptotes', col('low', n), col('upp', n))
    call('setScalingParams', X.sym('a0'), col('a', m), col('c', m), col('d', m))
    call('setMoveLimit', X.sym('move'))
    call('setObjectiveWithGradient', X.sym('f0'), col('df0', n))
    call('setConstraintWithGradient', col('fv', m), symbolic('dfdx', [m, n], 'f', 'n'))
    got, out = {}, [col('s%d' % i, n if i in (0, 4, 5) else 1 if i in (2, 7) else m) for i in range(9)]

    def sub_(I_, a, k, nd):
        got.update(I.bind(I.get('jax_fem.mma', 'subsolv'), a, k, nd))
        return tuple(out)
    I.overrides['jax_fem.mma:subsolv'] = sub_
    call('mmasub', col('x', n))
    ws = where_fn(I, 'MMA').replace('MMA', '') + 'mmasub'
    f = lambda nm: lambda i: app(nm, i, num(0))
    colv = lambda g: Arr([ax(n), ax(num(1))], lambda i: g(A.flat_index(i[0])), 'f', 'n')
    fmax = lambda i: xmax.get([i, num(0)])
    w = lambda i: sub(fmax(i), f('xmin')(i))
    lo, up = spec_data(epoch, [f('xold2'), f('xold1'), f('x')], f('low'), f('upp'), w)
    low, upp = memo(lo), memo(up)
    bounds(ctx, got, f('x'), low, upp, X.sym('move'), f('xmin'), fmax, '', ws, colv)
    coefficients(ctx, got, n, m, f('x'), low, upp, f('df0'), lambda k, i: app('dfdx', k, i), f('fv'), w, '', ws, colv)
    for k, sz in (('a', m), ('c', m), ('d', m)):
        ctx.eq(k, got[k], col(k, sz), ws)
    ctx.ob('sizes, accuracy and weight', val_eq(got['m'], m) and val_eq(got['n'], n) and val_eq(got['epsimin'], num('1/10000000'))
           and val_eq(got['a0'], X.sym('a0')), '', ws)
    rs = items(call('getOptimalValues')) + items(call('getLagrangeMultipliers')) + [call('getSlackValue')]
    for q, r in enumerate(rs):
        ctx.eq('result %d' % q, r, out[q], ws)
    a1, a2 = items(call('getAsymptoteValues'))
    ctx.eq('lower asymptotes kept', a1, colv(low), ws)
    ctx.eq('upper asymptotes kept', a2, colv(upp), ws)


def memo(f):
    c = {}

    def g(*a):
        k = tuple(X.norm(z) for z in a)
        if k not in c:
            c[k] = X.norm(f(*a))
        return c[k]
    return g


def check(ctx, iters, dens=False, sens=True, full=True):
    o = run_opt(ctx, iters, dens, sens)
    I, n, m = o['I'], o['n'], o['m']
    w = where_fn(I, 'optimize')
    f = [e for e in I.events if e['kind'] == 'filter']
    ctx.ob('filter built for the given space', len(f) == 1 and f[0]['fe'] is o['fe'], '', w)
    if not ctx.ob('one objective, constraint and subproblem evaluation per iteration',
                  len(o['J']) == len(o['C']) == len(o['SUB']) == iters, '%d %d %d' % (len(o['J']), len(o['C']), len(o['SUB'])), w):
        return
    des = [memo(lambda i: app('rho0', i, num(0)))]
    hist = [des[0], des[0], des[0]]
    low = upp = None
    colv = lambda g: Arr([ax(n), ax(num(1))], lambda i: g(A.flat_index(i[0])), 'f', 'n')
    for q in range(1, iters + 1):
        x = hist[-1]
        phys = colv(x) if not dens else colv(lambda i: div(S(n, lambda j: mul(app('H', i, j), x(j))), app('Hs', i)))
        ctx.eq('design handed to the objective (iteration %d)' % q, o['J'][q - 1], phys, w)
        ctx.eq('design handed to the constraints (iteration %d)' % q, o['C'][q - 1][0], phys, w)
        ctx.ob('iteration number handed to the constraints (%d)' % q, val_eq(o['C'][q - 1][1], num(q)), '%r' % (o['C'][q - 1][1],), w)
        d = o['SUB'][q - 1]
        lo, up = spec_data(q, list(hist), low, upp)
        low, upp = memo(lo), memo(up)
        ws = where_fn(I, 'MMA').replace('MMA', '') + 'mmasub'
        tag = ' (iteration %d)' % q
        bounds(ctx, d, x, low, upp, X.sym('move'), lambda i: num(0), lambda i: num(1), tag, ws, colv)
        fl = (lambda g: (lambda i: S(n, lambda j: mul(app('H', i, j), div(mul(x(j), g(j)), mul(X.emax(num('1/1000'), x(j)), app('Hs', j))))))) \
            if sens else (lambda g: g)
        dj = memo(fl(lambda j: app('dJ%d' % q, j, num(0))))
        dc = memo(lambda k, i: fl(lambda j: app('dvc%d' % q, k, j, num(0)))(i))
        if full or q in (1, iters):
            coefficients(ctx, d, n, m, x, low, upp, dj, dc, lambda k: app('vc%d' % q, k), lambda i: num(1), tag, ws, colv)
        cst = lambda v: Arr([ax(m), ax(num(1))], lambda i: num(v), 'f', 'n')
        ctx.eqs('weight of the auxiliary variable' + tag, A.scalar_of(asarr(I, d['a0'])), num(1), ws)
        ctx.eq('a' + tag, d['a'], cst(0), ws)
        ctx.eq('c' + tag, d['c'], cst(10000), ws)
        ctx.eq('d' + tag, d['d'], cst(0), ws)
        ctx.ob('sizes' + tag, val_eq(d['m'], m) and val_eq(d['n'], n), '', ws)
        ctx.ob('accuracy of the subproblem' + tag, val_eq(d['epsimin'], num('1/10000000')), '%r' % (d['epsimin'],), ws)
        hist.append(memo((lambda q: lambda i: app('x%d' % q, i, num(0)))(q)))
    ctx.eq('returned design', o['r'], colv(hist[-1]), w)


def run(ctx):
    """Value numbering of one subproblem with arbitrary bounds and history, and of whole optimisations of 0..5 iterations with symbolic numbers of variables and constraints, an
    opaque objective, opaque constraints and an opaque subproblem solver: the data of every subproblem equal the closed
    forms of the method of moving asymptotes, the designs passed to the user's functions are the current ones and the
    design returned is the last one."""
    t = ctx.tier == 'thorough'
    ctx.scenario('4 iterations', check, ctx, 6 if t else 5, False, True, True)
    for dens, sens in ((False, False), (True, True), (True, False)):
        ctx.scenario('density filter %s, sensitivity filter %s' % (dens, sens), check, ctx, 4 if t else 3, dens, sens, True)
    for e in (1, 2, 3) + (4, 7):
        ctx.scenario('any history, epoch %d' % e, general, ctx, e)
    ctx.scenario('no iterations', check, ctx, 0)
    ctx.scenario('one iteration', check, ctx, 1)
