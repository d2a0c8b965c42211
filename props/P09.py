from .adjoint import *


def run(ctx):
    """Value numbering of a gradient evaluation through the differentiable wrapper, with an abstract and with a real
    problem object: afterwards nothing reachable from the problem, its finite-element spaces or the returned values
    mentions a differentiation variable, the parameters in force are the ones the gradient was taken at, and the next
    residual is the residual at those parameters."""
    def abstract(nv, pmat, form, bcp):
        s = SP(ctx, nv, 1, pmat)
        I = s.I
        s.bc_params = bcp
        stub_linear(s)
        stub_solver(s)
        f = s.call('ad_wrapper', s.p, PDict(I, {}), PDict(I, {}))
        w = where_fn(s, 'implicit_vjp')
        th, names, arrs = thetas(I, form)
        th2, _, arrs2 = thetas(I, form, 'b')
        out, pull = JX['jax.vjp'](I, [f, th], {}, None)
        vs = PList(I, [symbolic('ct%d' % v, [s.nnt[v], s.vec[v]]) for v in range(nv)])

        def state(what, arrs):
            for nm, o in [('problem', s.p)] + [('space %d' % v, fe) for v, fe in enumerate(s.fes)]:
                p = tracer_free(I, o)
                ctx.ob('%s: no differentiation variable left on the %s' % (what, nm), p is None, 'attribute %s' % p, w)
            got = tree_flatten(I, s.p.f['_params'], None)[0]
            for j, (x, y) in enumerate(zip(got, arrs)):
                ctx.eq('%s: parameters in force %d' % (what, j), x, y, w)
        state('after the forward solve', arrs)
        g = I.call(pull, [vs], {})
        state('after the gradient', arrs)
        ctx.ob('gradient is free of differentiation variables', tracer_free(I, g) is None, '', w)
        I.call(f, [th2], {})
        state('after a later forward solve', arrs2)
        I.call(pull, [vs], {})
        state('after a second pullback', arrs)
    confs = [(1, False, 'array', False), (2, False, 'list', True)]
    confs += [(1, True, 'list', False), (2, True, 'array', True)]
    for nv, pm, form, bcp in confs:
        ctx.scenario('%d variables, %s parameters%s%s' % (nv, form, ', constraints' if pm else '', ', boundary values' if bcp else ''),
                     abstract, nv, pm, form, bcp)

    def real(nv, ns):
        u = Univ(ctx, nv, ns, False, extra_body='def set_params(self, params):\n    self.internal_vars = [params]\n')
        I, W, p = u.I, u.W, u.p
        I.get('jax_fem.solver', 'solver')
        I.overrides['jax_fem.solver:solver'] = lambda I, a, k, n: PList(I, list(u.sol))
        I.overrides['jax_fem.solver:linear_solver'] = lambda I, a, k, n: symbolic('lamb', [asarr(I, a[1], 'j').axes[0]])
        f = I.call(I.get('jax_fem.solver', 'ad_wrapper'), [p], {})
        si = size_sym('s_th')
        th = symbolic('th', [W.nc, W.nq, si])
        out, pull = JX['jax.vjp'](I, [f, th], {}, None)
        g = I.call(pull, [PList(I, [symbolic('ct%d' % v, [W.nnt[v], W.vec[v]]) for v in range(nv)])], {})
        w = 'jax_fem.solver:%s implicit_vjp' % getattr(I.get('jax_fem.solver', 'implicit_vjp').node, 'lineno', '?')
        pth = tracer_free(I, p)
        ctx.ob('no differentiation variable left on the problem', pth is None, 'attribute %s' % pth, w)
        u.spec.iv = [lambda c: Arr([ax(W.nq), ax(si)], lambda i: app('th', c, *i))]
        r = items(u.method('compute_residual', u.sol_list))
        for v in range(nv):
            ctx.eq('next residual %d is that of the parameters in force' % v, r[v], u.residual_spec(v), where_of(I, p, 'compute_residual'))
        ctx.ob('gradient is free of differentiation variables', tracer_free(I, g) is None, '', w)
    ctx.scenario('real problem', real, 1, 1)
    ctx.scenario('real problem, 2 variables', real, 2, 1)
