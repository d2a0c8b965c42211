from .newton import *


def run(ctx):
    """Loop-invariant analysis of dynamic_relax_solve: the quantity tested by the loop is, at entry and after every
    iteration, the largest absolute unconstrained residual at the current dofs; the returned solution is the dofs the
    test was made on; the starting dofs carry the prescribed values (one Newton step from zero, or the given start with the values
    assigned) and by induction no iteration moves a constrained dof."""
    def scen(nv, nbc, guess, opts):
        s = SP(ctx, nv, nbc)
        I = s.I
        stub_linear(s)
        w = where_fn(s, 'solver')
        cfg, tol = {}, TOL
        lo = PDict(I, {'spsolve_solver': PDict(I, {})})
        if opts:
            tol = X.sym('tol', pos=True)
            lo = PDict(I, {'petsc_solver': PDict(I, {})})
            cfg.update(tol=tol, linear=lo, nKMat=size_sym('nk'), nPrint=size_sym('np'), info=False)
        if guess:
            cfg['initial_guess'] = PList(I, [symbolic('g%d' % v, [s.nnt[v], s.vec[v]], 'f', 'n' if I.fx else 'j') for v in range(nv)])
        r = s.call('solver', s.p, PDict(I, {'dynamic_relax': PDict(I, cfg)}))
        ctx.ob('one solution array per variable', len(items(r)) == nv, '', w)
        if not ctx.ob('one iteration loop', len(I.loops) == 1, '%d loops with a run-time guard' % len(I.loops), w):
            return
        rec = I.loops[0]
        k = find_dofs(s, rec, flat_sol(s, r))
        if not ctx.ob('solution is the last iterate', k is not None, 'the returned arrays are not carried by the loop', rec.where):
            return

        def Rz(d):
            return s.vec_of([s.over(v, s.R(d)[v], lambda b, n, dd: num(0)) for v in range(nv)])

        def err(d):
            a = Rz(d)
            f = I.get('jax_fem.solver', 'onp')
            return A.scalar_of(I.call(I.getattr(f, 'max'), [I.call(I.getattr(f, 'absolute'), [Arr(a.axes, a.get, 'f', 'n')], {})], {}))
        cands = {'copy': lambda d: d, 'res': Rz, 'err': (err, 'res', lambda x, x0: err_of(I, x))}
        ro = LoopRoles(rec, k, cands)
        ctx.ob('no other exit', not rec.breaks, '', rec.where)
        ctx.eqs('loop continues exactly while the largest unconstrained residual exceeds the tolerance', ro.term(rec.guard),
                X.lt(tol, err(ro.H)), rec.where)
        lin = [e for e in I.events if e['kind'] == 'lin']
        e0 = rec.entry[k]
        if guess:
            g = [lambda n, d, v=v: app('g%d' % v, n, d) for v in range(nv)]
            ctx.eq('start is the given point with the prescribed values', e0, s.vec_of([s.over(v, g[v], lambda b, n, d: b) for v in range(nv)]), rec.where)
        elif ctx.ob('one starting linear solve', len(lin) == 1, '%d' % len(lin), w):
            e, z = lin[0], zeros_of(s.ntot)
            ctx.eq('matrix of the starting solve', e['M'], s.A_full(z), e['where'])
            ctx.eq('right-hand side of the starting solve', e['b'], A.elementwise(lambda x: mul(-1, x), s.residual(z)), e['where'])
            from .P07 import plain
            ctx.ob('linear options of the starting solve', plain(e['opts']) == plain(lo), '%s' % (plain(e['opts']),), e['where'])
            ctx.eq('start', e0, symbolic(e['out'], [s.ntot]), rec.where)
        # constrained entries: greatest set of carried vectors that stay zero there
        for v in range(nv):
            for i in range(nbc):
                sz, nd, vc, bv = s.bc_arrays(v, i)
                n, c = fresh('n', s.nnt[v]), fresh('c', s.vec[v])
                at = [norm(add(s.off[v], mul(n, s.vec[v]), c))]
                arrs = {kk: h for kk, h in rec.head.items() if isinstance(h, Arr) and h.ndim == 1 and A.same_size(h.axes[0].size, s.ntot)
                        and kk != k}

                def at_bc(a):
                    return on_hit(norm(ro.term(a.get(at))), n, c, nd, vc)
                Z = {kk for kk in arrs if X.equal(at_bc(rec.entry[kk]), num(0))}
                while True:
                    names = {arrs[kk].head_name: (lambda es, nm=arrs[kk].head_name, ax_=arrs[kk].axes: num(0)
                             if X.equal(A.flat_index(A.unleaf(ax_, es)[0]), at[0]) else app(nm, *es)) for kk in Z}
                    bad = {kk for kk in Z if not X.equal(X.replace_apps(at_bc(rec.next[kk]), names), num(0))}
                    if not bad:
                        break
                    Z -= bad
                d = norm(sub(on_hit(X.replace_apps(at_bc(rec.next[k]), names), n, c, nd, vc), ro.H.get(at)))
                ctx.ob('iterations do not move dofs of variable %d condition %d' % (v, i), X.equal(d, num(0)),
                       'change of a constrained dof in one iteration: %s' % X.show(d, 300), rec.where)
    confs = [(1, 1, False, False), (1, 1, False, True), (1, 1, True, True)]
    confs += [(1, 0, False, False), (1, 0, True, False), (1, 2, False, True), (1, 2, True, False)]
    if ctx.thorough:
        confs += [(1, 3, False, True), (1, 3, True, True)]
    for nv, nbc, g, o in confs:
        ctx.scenario('%d variables %d conditions%s%s' % (nv, nbc, ' given start' if g else '', ' configured' if o else ''), scen, nv, nbc, g, o)


def on_hit(e, n, c, nd, vc):
    """value at a (node n, component c) that the condition constrains: the sum over the condition's entries k of
    [nd k = n][vc k = c] f(k) is f at the entry that constrains it"""
    ts = []
    for t in X.nf(e):
        for b in t.b:
            q = fresh('k', b[1])
            es = [X.norm(X.eq(n, nd(q))), X.norm(X.eq(c, vc(q)))]
            fs = [(X.norm(X.subst(f, {b[0]: q})), p) for f, p in t.f]
            fs = [f for f in fs if f[0] not in es]
            if len(fs) + 2 == len(t.f):
                m = {X.norm(nd(q)): n, X.norm(vc(q)): c}
                fs = [(X.norm(X.replace_atoms(f, m)), p) for f, p in fs]
                if not any(q in X.fv(f) for f, p in fs):
                    t = X.Term(t.c, tuple(x for x in t.b if x is not b), tuple(fs))
                    break
        ts.append(t)
    return norm(X.from_terms(ts))


def err_of(I, x):
    f = I.get('jax_fem.solver', 'onp')
    return A.scalar_of(I.call(I.getattr(f, 'max'), [I.call(I.getattr(f, 'absolute'), [x], {})], {}))
