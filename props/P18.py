from .common import *



def run(ctx):
    """Value numbering of Problem.__post_init__ and FiniteElement.__post_init__ for one, two and three variables:
    per-variable data, dof numbering (offset, counts, flatten / unflatten maps), defaults at custom_init."""

    def build(nv, extra, names, bc='None', ns=0):
        I = ctx.interp()
        W = World(I, nv)
        rec = {}

        def record(I_, a, k, n):
            rec.setdefault('calls', []).append(list(items(a[1])))
            g = lambda nm: I_.getattr(a[0], nm)
            rec['fes'] = len(items(g('fes')))
            rec['sets'] = len(items(g('boundary_inds_list')))
            rec['iv'] = items(g('internal_vars'))
            rec['ivs'] = [items(x) for x in items(g('internal_vars_surfaces'))]
            rec['JxW'] = g('JxW')
            rec['quad'] = g('physical_quad_points')
            rec['squad'] = items(g('physical_surface_quad_points'))
            rec['unflatten'] = g('unflatten_fn_sol_list')
            return None

        def kernel(I_, a, k, n):
            rec.setdefault('order', []).append(('kernel', 'calls' in rec))
            return kernel_uf('KU')
        nm = {'record': Native('record', record), 'mk': Native('mk', kernel), 'LOC0': loc_fn('LOC0'), 'LOC1': loc_fn('LOC1'), 'VAL0': ufunc('VAL0', []), 'VAL1': ufunc('VAL1', []), 'VAL2': ufunc('VAL2', [])}
        nm.update(names)
        ks = ['KS%d' % k for k in range(ns)]
        for k in ks:
            nm[k] = kernel_uf(k)
        body = 'def custom_init(self, *args):\n    record(self, args)\ndef get_universal_kernel(self):\n    return mk()\n'
        if ns:
            body += 'def get_universal_kernels_surface(self):\n    return [%s]\n' % ', '.join(ks)
        locs = 'None' if not ns else '[' + ', '.join(['lambda p: LOC0(p)', 'lambda p, i: LOC1(p, i)'][:ns]) + ']'
        p = W.problem(body, nm, bc=bc, locs=locs, extra=extra)
        return I, W, p, rec

    def table_args(I, kind, fname):
        out = []
        for e in I.events:
            if e['kind'] == kind:
                a, k = e['args']
                b = dict(zip(('ele_type', 'quadrature_rule', 'quadrature_order'), a))
                b.update(k)
                out.append((b.get('ele_type'), b.get('quadrature_rule'), b.get('quadrature_order')))
        return out

    def per_variable(nv, how):
        extra, names = '', {}
        rule, order = [None] * nv, [None] * nv
        if how == 'once':
            extra = ", quadrature_rule='RULE', quadrature_order=3"
            rule, order = ['RULE'] * nv, [3] * nv
        elif how == 'lists':
            rule, order = ['RULE%d' % v for v in range(nv)], [v + 2 for v in range(nv)]
            extra = ', quadrature_rule=%r, quadrature_order=%r' % (rule, order)
        elif how == 'mixed':
            rule, order = ['RULE'] * nv, [4 - v for v in range(nv)]
            extra = ", quadrature_rule='RULE', quadrature_order=%r" % order
        bcs = ['[[lambda p: LOC0(p)], [%d], [VAL%d]]' % (v, v) for v in range(nv)]
        if how == 'none':
            bc = 'None'
        elif nv == 1:
            bc = bcs[0]
        else:
            bc = '[' + ', '.join(bcs[:-1] + ['None']) + ']'
        I, W, p, rec = build(nv, extra, names, bc=bc)
        fes = items(I.getattr(p, 'fes'))
        w = where_of(I, p, '__post_init__')
        ctx.ob('one space per variable', len(fes) == nv and I.getattr(p, 'num_vars') == nv, '', w)
        for v, fe in enumerate(fes):
            g = lambda nm: I.getattr(fe, nm)
            ctx.eq('points of variable %d' % v, g('points'), W.points[v], w)
            ctx.eq('cells of variable %d' % v, g('cells'), W.cells[v], w)
            ctx.eqs('vector size of variable %d' % v, num(g('vec')), W.vec[v], w)
            ctx.eqs('dimension of variable %d' % v, num(g('dim')), W.dim, w)
            ctx.ob('element type of variable %d' % v, g('ele_type') == W.ele[v], repr(g('ele_type')), w)
            ctx.eqs('dofs of variable %d' % v, num(g('num_total_dofs')), mul(W.nnt[v], W.vec[v]), w)
            ctx.eqs('nodes of variable %d' % v, num(g('num_total_nodes')), W.nnt[v], w)
            for nm, want in (('num_cells', W.nc), ('num_quads', W.nq), ('num_nodes', W.nn[v]), ('num_faces', W.nf), ('num_face_quads', W.nfq)):
                ctx.eqs('%s of variable %d' % (nm, v), num(g(nm)), want, w)
            n = len(items(g('node_inds_list')))
            has = how != 'none' and (nv == 1 or v < nv - 1)
            ctx.ob('conditions of variable %d' % v, n == (1 if has else 0), '%d' % n, w)
            if has and n:
                ctx.eqs('component of the condition of variable %d' % v, items(g('vec_inds_list'))[0].get([X.ZERO]), num(v), w)
                nd = items(g('node_inds_list'))[0]
                i = fresh('i', nd.axes[0].size)
                pt = lam((j := fresh('j', W.dim),), W.points[v].get([nd.get([i]), j]))
                ctx.eqs('value of the condition of variable %d' % v, items(g('vals_list'))[0].get([i]), X.uf('VAL%d' % v, [pt], []), w)
        for kind, fn in (('shape', 'cell tables'), ('fshape', 'face tables')):
            got = table_args(I, kind, fn)
            want = [(W.ele[v], rule[v], order[v]) for v in range(nv)]
            same = len(got) == nv and all(a[0] == b[0] and a[1] == b[1] and (a[2] is None) == (b[2] is None) and
                                          (a[2] is None or X.same_values(num(a[2]), num(b[2]))) for a, b in zip(got, want))
            ctx.ob('rule and order of the ' + fn, same, 'tables requested: %r, required %r' % (got, want), w)

    def numbering(nv):
        I, W, p, rec = build(nv, '', {})
        w = where_of(I, p, '__post_init__')
        off, tot = [], num(0)
        for v in range(nv):
            off.append(tot)
            tot = norm(add(tot, mul(W.nnt[v], W.vec[v])))
        got = items(I.getattr(p, 'offset'))
        if ctx.ob('one offset per variable', len(got) == nv, '%r' % got, w):
            for v in range(nv):
                ctx.eqs('offset of variable %d' % v, num(got[v]), off[v], w)
        ctx.eqs('number of unknowns', num(I.getattr(p, 'num_total_dofs_all_vars')), tot, w)
        ctx.eqs('number of cells', num(I.getattr(p, 'num_cells')), W.nc, w)
        un = I.getattr(p, 'unflatten_fn_sol_list')
        x = symbolic('x', [tot])
        parts = items(I.call(un, [x]))
        if ctx.ob('one array per variable', len(parts) == nv, '', w):
            for v in range(nv):
                ctx.eq('unflattened variable %d' % v, parts[v], Arr([ax(W.nnt[v]), ax(W.vec[v])], lambda i, v=v: app(
                    'x', add(off[v], mul(A.flat_index(i[0]), W.vec[v]), A.flat_index(i[1])))), w)
        back = fixture(I, 'import jax.flatten_util\ndef f(s):\n    return jax.flatten_util.ravel_pytree(s)[0]\n', {}, 'fx%d' % len(I.modules))
        sol = [symbolic('s%d' % v, [W.nnt[v], W.vec[v]]) for v in range(nv)]
        again = items(I.call(un, [I.call(back.env.vars['f'], [PList(I, list(sol))])]))
        for v in range(nv):
            ctx.eq('flatten then unflatten variable %d' % v, again[v], sol[v], w)
        # cell dofs
        ud = I.getattr(p, 'unflatten_fn_dof')
        nd = num(0)
        offd = []
        for v in range(nv):
            offd.append(nd)
            nd = norm(add(nd, mul(W.nn[v], W.vec[v])))
        parts = items(I.call(ud, [symbolic('y', [nd])]))
        for v in range(nv):
            ctx.eq('cell unknowns of variable %d' % v, parts[v], Arr([ax(W.nn[v]), ax(W.vec[v])], lambda i, v=v: app(
                'y', add(offd[v], mul(A.flat_index(i[0]), W.vec[v]), A.flat_index(i[1])))), w)

    def additional(nv, ns):
        a0, a1 = symbolic('a0', [size_sym('ka')]), symbolic('a1', [size_sym('kb')])
        I, W, p, rec = build(nv, ', additional_info=(A0, A1)', {'A0': a0, 'A1': a1}, ns=ns)
        w = where_of(I, p, '__post_init__')
        cs = rec.get('calls', [])
        ctx.ob('custom_init runs once with the additional information in order', len(cs) == 1 and len(cs[0]) == 2 and cs[0][0] is a0 and cs[0][1] is a1, '%r' % (cs,), w)
        if not cs:
            return
        ctx.ob('spaces exist', rec['fes'] == nv, '', w)
        ctx.ob('boundary groups exist', rec['sets'] == ns, '%r' % rec['sets'], w)
        ctx.ob('no internal variables by default', rec['iv'] == [] and rec['ivs'] == [[]] * ns, '%r %r' % (rec['iv'], rec['ivs']), w)
        ctx.ob('kernels are built after custom_init', all(o[1] for o in rec.get('order', [])), '%r' % rec.get('order'), w)
        sp = [Spec(W, v) for v in range(nv)]
        c = A.stack([Arr([ax(W.nc), ax(W.nq)], lambda i, v=v: sp[v].JxW(i[0], i[1])) for v in range(nv)], 1)
        ctx.eq('weights available', rec['JxW'], c, w)
        ctx.eq('quadrature points available', rec['quad'], Arr([ax(W.nc), ax(W.nq), ax(W.dim)], lambda i: sp[0].xq(*i)), w)
        bnd = items(I.getattr(p, 'boundary_inds_list'))
        if ctx.ob('face points per group', len(rec['squad']) == ns, '', w):
            for k in range(ns):
                ctx.eq('face points of group %d' % k, rec['squad'][k], Arr([bnd[k].axes[0], ax(W.nfq), ax(W.dim)], lambda i, k=k: sp[0].fxq(
                    bnd[k].get([i[0], num(0)]), bnd[k].get([i[0], num(1)]), i[1], i[2])), w)
    for nv in (1, 2, 3):
        for how in ('none', 'once', 'lists', 'mixed'):
            if nv == 1 and how in ('lists', 'mixed'):
                continue
            ctx.scenario('%d variables, data %s' % (nv, how), per_variable, nv, how)
        ctx.scenario('%d variables, numbering' % nv, numbering, nv)
        for ns in (0, 1, 2):
            ctx.scenario('%d variables, %d groups, custom_init' % (nv, ns), additional, nv, ns)
