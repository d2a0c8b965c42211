from .common import *
from jfsa.m_core import argwhere


def loc2(name):
    return ufunc(name, [], 'b')


def run(ctx):
    """Value numbering of Dirichlet_boundary_conditions, update_Dirichlet_boundary_conditions,
    get_boundary_conditions_inds and count_selected_faces: the selected node set is exactly the set of mesh nodes
    satisfying the location function, values/components are those given for the same entry, the selected (cell, local
    face) pairs are exactly those whose face vertices all satisfy the location function."""
    NAMES = {'LOC0': loc_fn('LOC0'), 'LOC1': loc_fn('LOC1'), 'LOC2': loc_fn('LOC2'), 'VAL0': loc_fn('VAL0'),
             'VAL1': loc_fn('VAL1'), 'VAL2': loc_fn('VAL2')}
    for k in range(3):
        NAMES['VAL%d' % k] = ufunc('VAL%d' % k, [])
    LOC = ['lambda p: LOC0(p)', 'lambda p, i: LOC1(p, i)', 'lambda p: LOC2(p)']

    def point(W, n):
        return lam((j := fresh('j', W.dim),), W.points[0].get([n, j]))

    def expected(I, W, k, vecs):
        two = k == 1
        args = lambda n: [point(W, n)] + ([n] if two else [])
        mask = Arr([ax(W.nnt[0])], lambda i: X.uf('LOC%d' % k, args(A.flat_index(i[0])), []), 'b', 'j')
        aw = argwhere(I, mask)
        n = aw.axes[0].size
        ninds = Arr([ax(n)], lambda i: aw.get([i[0], num(0)]), 'i')
        vinds = Arr([ax(n)], lambda i: num(vecs[k]), 'i')
        vals = Arr([ax(n)], lambda i: X.uf('VAL%d' % k, [point(W, ninds.get(i))], []))
        return ninds, vinds, vals

    def dirichlet(m, update, via):
        I = ctx.interp()
        W = World(I)
        vecs = [size_sym('vc%d' % k, 0) for k in range(m)] if False else [1, 0, 2][:m]
        mod = fixture(I, 'L = [%s]\nV = [VAL0, VAL1, VAL2][:%d]\nv0 = lambda p: VAL0(p)\nL0 = [lambda q: LOC2(q)]\n' % (
            ', '.join(LOC[:m]), m), dict(NAMES))
        L = mod.env.vars['L']
        V = mod.env.vars['V']
        info = PList(I, [L, PList(I, list(vecs)), V])
        if update:
            fe = W.fe(0, bc=PList(I, [mod.env.vars['L0'], PList(I, [0]), PList(I, [mod.env.vars['v0']])]))
            I.call(I.getattr(fe, 'update_Dirichlet_boundary_conditions'), [info])
        else:
            fe = W.fe(0, bc=info)
        w = where_of(I, fe, 'Dirichlet_boundary_conditions')
        ls = [items(I.getattr(fe, a)) for a in ('node_inds_list', 'vec_inds_list', 'vals_list')]
        ctx.ob('one entry per condition', [len(x) for x in ls] == [m] * 3, '%r' % [len(x) for x in ls], w)
        for k in range(m):
            e = expected(I, W, k, vecs)
            for nm, l, x in zip(('nodes', 'components', 'values'), ls, e):
                ctx.eq('%s of condition %d' % (nm, k), l[k], x, w)

    def no_bc():
        I = ctx.interp()
        W = World(I)
        fe = W.fe(0, None)
        ls = [items(I.getattr(fe, a)) for a in ('node_inds_list', 'vec_inds_list', 'vals_list')]
        ctx.ob('no condition, no entries', ls == [[], [], []])

    def per_variable():
        I = ctx.interp()
        W = World(I, 2)
        p = W.problem('def get_universal_kernel(self):\n    return None\n', dict(NAMES),
                      bc='[[[%s],[1],[VAL0]], [[%s],[0],[VAL1]]]' % (LOC[0], LOC[0]))
        for v, fe in enumerate(items(I.getattr(p, 'fes'))):
            pt = lambda n: lam((j := fresh('j', W.dim),), W.points[v].get([n, j]))
            mask = Arr([ax(W.nnt[v])], lambda i: X.uf('LOC0', [pt(A.flat_index(i[0]))], []), 'b', 'j')
            aw = argwhere(I, mask)
            n = aw.axes[0].size
            w = where_of(I, fe, 'Dirichlet_boundary_conditions')
            ctx.eq('nodes of variable %d' % v, items(I.getattr(fe, 'node_inds_list'))[0],
                   Arr([ax(n)], lambda i: aw.get([i[0], num(0)]), 'i'), w)
            ctx.eq('components of variable %d' % v, items(I.getattr(fe, 'vec_inds_list'))[0],
                   Arr([ax(n)], lambda i: num(1 - v), 'i'), w)
            ctx.eq('values of variable %d' % v, items(I.getattr(fe, 'vals_list'))[0],
                   Arr([ax(n)], lambda i: X.uf('VAL%d' % v, [pt(aw.get([i[0], num(0)]))], [])), w)

    def face_mask(W, k, two):
        def m(i):
            c, f = i
            h = fresh('h', W.nfv)
            n = W.cells[0].get([c, app('finds', f, h)])
            a = [lam((j := fresh('j', W.dim),), W.points[0].get([n, j]))] + ([n] if two else [])
            return X.red('all', h, W.nfv, X.uf('LOC%d' % k, a, []))
        return Arr([ax(W.nc), ax(W.nf)], m, 'b', 'j')

    def faces(m):
        I = ctx.interp()
        W = World(I)
        fe = W.fe(0, None)
        mod = fixture(I, 'L = [%s]\n' % ', '.join(LOC[:m]), dict(NAMES))
        r = items(I.call(I.getattr(fe, 'get_boundary_conditions_inds'), [mod.env.vars['L']]))
        w = where_of(I, fe, 'get_boundary_conditions_inds')
        ctx.ob('one set per location function', len(r) == m, '', w)
        for k in range(m):
            ctx.eq('faces of set %d' % k, r[k], argwhere(I, face_mask(W, k, k == 1)), w)
        ctx.ob('none for None', items(I.call(I.getattr(fe, 'get_boundary_conditions_inds'), [None])) == [], '', w)

    def problem_faces():
        u = Univ(ctx, 2, 2, False)
        for k in range(2):
            W = u.W
            ctx.eq('problem set %d' % k, u.bnd[k], argwhere(u.I, face_mask(W, k, k == 1)),
                   where_of(u.I, items(u.I.getattr(u.p, 'fes'))[0], 'get_boundary_conditions_inds'))

    def count():
        I = ctx.interp()
        W = World(I)
        mesh = W.mesh(0)
        mod = fixture(I, 'L = %s\n' % LOC[0], dict(NAMES))
        r = I.call(I.getattr(mesh, 'count_selected_faces'), [mod.env.vars['L']])
        aw = argwhere(I, face_mask(W, 0, False))
        n, m = norm(num(A.scalar_of(r) if isinstance(r, Arr) else r)), face_mask(W, 0, False)
        n = X.replace_atoms(n, {aw.axes[0].size: S(W.nc, lambda c: S(W.nf, lambda f: m.get([c, f])))})
        ctx.eqs('number of selected faces', n, S(W.nc, lambda c: S(W.nf, lambda f: m.get([c, f]))), where_of(I, mesh, 'count_selected_faces'))
    for m in (1, 2, 3):
        ctx.scenario('%d conditions at construction' % m, dirichlet, m, False, None)
        ctx.scenario('%d conditions after update' % m, dirichlet, m, True, None)
    ctx.scenario('no condition', no_bc)
    ctx.scenario('two variables', per_variable)
    for m in (1, 2, 3):
        ctx.scenario('%d face sets' % m, faces, m)
    ctx.scenario('problem face sets', problem_faces)
    ctx.scenario('count_selected_faces', count)
