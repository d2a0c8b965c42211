from .solverworld import *


def run(ctx):
    """Value numbering of get_q_vec, operator_to_matrix, assign_bc, assign_zeros_bc, assign_ones_bc, copy_bc,
    get_flatten_fn and of what print_BC_info prints, for any number of variables and conditions."""
    def mod_where(s, name):
        f = s.fn(name)
        return 'jax_fem.solver:%s %s' % (getattr(f.node, 'lineno', '?'), name)

    def same_attrs(s, before, w):
        now = {k: id(v) for k, v in s.p.f.items() if k != 'V'}
        for k in sorted(set(now) | set(before)):
            if k != 'V':
                ctx.ob('%s unchanged' % k, now.get(k) == before.get(k), '', w)

    def vectors(nv, nbc):
        s = SP(ctx, nv, nbc)
        I = s.I
        w = mod_where(s, 'get_q_vec')
        zero = A.full([ax(s.ntot)], X.ZERO)
        before = {k: id(v) for k, v in s.p.f.items()}
        ctx.eq('load vector is the assembled residual at zero', s.call('get_q_vec', s.p), s.vec_of(s.R(zero)), w)
        same_attrs(s, before, w)
        op = ufunc('OP', [s.ntot])
        m = s.call('operator_to_matrix', op, s.p)
        want = fixture(I, 'import jax\nimport jax.numpy as np\ndef f(op, n):\n    return jax.jacfwd(op)(np.zeros(n))\n', {}, 'fxop').env.vars['f']
        ctx.eq('matrix of an operator', m, I.call(want, [op, s.ntot]), mod_where(s, 'operator_to_matrix'))
        M = symbolic('Mlin', [s.ntot, s.ntot])
        lin = fixture(I, 'import jax.numpy as np\ndef f(x):\n    return M @ x + np.sum(x**2) * x\n', {'M': M}, 'fxlin').env.vars['f']
        ctx.eq('matrix of a polynomial operator', s.call('operator_to_matrix', lin, s.p), M, mod_where(s, 'operator_to_matrix'))
        u = s.dofs('u')
        sp = s.split(u)
        for nm, val in (('assign_bc', lambda b, n, d: b), ('assign_zeros_bc', lambda b, n, d: num(0)), ('assign_ones_bc', lambda b, n, d: num(1))):
            ctx.eq(nm, s.call(nm, u, s.p), s.vec_of([s.over(v, sp[v], val) for v in range(nv)]), mod_where(s, nm))
        ctx.eq('copy_bc', s.call('copy_bc', u, s.p),
               s.vec_of([s.over(v, lambda n, d: num(0), lambda b, n, d, v=v: sp[v](n, d)) for v in range(nv)]), mod_where(s, 'copy_bc'))
        F = fixture(I, 'def f(sol_list):\n    return p.compute_residual(sol_list)\n', {'p': s.p}, 'fxflat').env.vars['f']
        g = s.call('get_flatten_fn', F, s.p)
        ctx.eq('flattened function', I.call(g, [u]), s.vec_of(s.R(u)), mod_where(s, 'get_flatten_fn'))

    def report(nv, nbc, ng, empty=False):
        I = ctx.interp()
        W = World(I, nv)
        p = W.problem('def get_universal_kernel(self):\n    return None\n', {})
        bnd = [symbolic('bnd%d' % k, [size_sym('ns%d' % k, 1), 2], 'i', 'n') for k in range(ng)]
        I.setattr(p, 'boundary_inds_list', PList(I, list(bnd)))
        want = [('faces of group %d' % k, b) for k, b in enumerate(bnd)]
        for v, fe in enumerate(items(I.getattr(p, 'fes'))):
            ls = [[], [], []]
            for i in range(nbc):
                n = num(0) if empty else size_sym('nb%d_%d' % (v, i), 1)
                t = '%d_%d' % (v, i)
                a = [symbolic('nd' + t, [n], 'i', 'j'), symbolic('vc' + t, [n], 'i', 'j'), symbolic('bv' + t, [n], 'f', 'j')]
                for l, x in zip(ls, a):
                    l.append(x)
                want.append(('condition %d of variable %d' % (i, v), Arr([ax(n), ax(num(3))], lambda x, a=a: add(
                    *[mul(eq(x[1], j), a[j].get([x[0]])) for j in range(3)]))))
            for nm, l in zip(('node_inds_list', 'vec_inds_list', 'vals_list'), ls):
                I.setattr(fe, nm, PList(I, l))
        out = []

        def rec(I_, a, k, n):
            out.extend(x for x in a if isinstance(x, Arr))
            return None
        m = I.module('jax_fem.problem')
        m.env.vars['print'] = Native('recorded print', rec)
        w = where_of(I, p, 'print_BC_info')
        I.call(I.getattr(p, 'print_BC_info'), [])
        out = [x for x in out if x.ndim == 2]
        if ctx.ob('one table per boundary group and condition', len(out) == len(want), '%d tables printed, %d required' % (len(out), len(want)), w):
            for (nm, x), y in zip(want, out):
                if empty and 'condition' in nm:
                    ctx.ob('empty ' + nm, A.same_size(y.axes[0].size, num(0)) and A.same_size(y.axes[1].size, num(3)), '%s' % y, w)
                else:
                    ctx.eq(nm, y, x, w)
    confs = [(1, 1), (1, 2), (2, 1), (1, 0), (2, 2), (3, 1)] + ([(3, 2), (1, 3)] if ctx.thorough else [])
    for nv, nbc in confs:
        ctx.scenario('%d variables %d conditions' % (nv, nbc), vectors, nv, nbc)
    for nv, nbc, ng in ((1, 1, 0), (1, 2, 1), (2, 1, 2), (2, 2, 1), (1, 0, 0), (3, 1, 1)):
        ctx.scenario('report of %d variables, %d conditions, %d groups' % (nv, nbc, ng), report, nv, nbc, ng)
    ctx.scenario('report of an empty condition', report, 1, 1, 1, True)
