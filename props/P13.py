from fractions import Fraction as F
from .common import *
from jfsa import m_basix as MB
from jfsa.interp import ProgramRaise, Ext

H = F(1, 2)
Q4 = [(0, 0), (1, 0), (1, 1), (0, 1)]
H8 = [(x, y, 0) for x, y in Q4] + [(x, y, 1) for x, y in Q4]
T4 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
HE = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]


def mids(v, pairs):
    return [tuple((F(a) + F(b)) / 2 for a, b in zip(v[i], v[j])) for i, j in pairs]


H20 = H8 + mids(H8, HE)
# meshio / VTK node positions on the unit reference cell
NODES = {'QUAD4': Q4, 'QUAD8': Q4 + mids(Q4, [(0, 1), (1, 2), (2, 3), (3, 0)]),
         'TRI3': [(0, 0), (1, 0), (0, 1)], 'TRI6': [(0, 0), (1, 0), (0, 1)] + mids([(0, 0), (1, 0), (0, 1)], [(0, 1), (1, 2), (2, 0)]),
         'TET4': T4, 'TET10': T4 + mids(T4, [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
         'HEX8': H8, 'HEX20': H20,
         'HEX27': H20 + [(0, H, H), (1, H, H), (H, 0, H), (H, 1, H), (H, H, 0), (H, H, 1), (H, H, H)]}
CELL = {k: ('quadrilateral' if k.startswith('Q') else 'triangle' if k.startswith('TR') else 'tetrahedron' if k.startswith('TE') else 'hexahedron')
        for k in NODES}
DEG = {k: 1 if k in ('QUAD4', 'TRI3', 'TET4', 'HEX8') else 2 for k in NODES}
ORDER = {'HEX8': 2, 'HEX27': 10, 'HEX20': 2, 'TET4': 0, 'TET10': 2, 'QUAD4': 2, 'QUAD8': 2, 'TRI3': 0, 'TRI6': 2}
FACECELL = {'quadrilateral': 'interval', 'triangle': 'interval', 'tetrahedron': 'triangle', 'hexahedron': 'quadrilateral'}


def shape(e):
    """shape functions in meshio node order: one at their node, zero at the others, in the element's space"""
    return MB.nodal_basis(CELL[e], DEG[e], [tuple(F(x) for x in p) for p in NODES[e]], e in ('HEX20', 'QUAD8'))


def where_fn(I, name):
    return 'jax_fem.basis:%s %s' % (getattr(I.get('jax_fem.basis', name).node, 'lineno', '?'), name)


def rule_ok(got, rule):
    if rule is None:
        return got == Ext('basix.QuadratureType.default')
    if isinstance(rule, str):
        return getattr(got, 'kind', None) == 'quadrule' and got.s['string'] == rule
    return got == rule


def world(ctx, e, nfq):
    I = ctx.interp()
    I.basix_dim = MB.dim_of(CELL[e])
    nq = size_sym('nqp')
    MB.install(I, nq, num(nfq))
    return I, nq


def requested(ctx, I, w, cell, e, kw):
    ev = [x for x in I.events if x['kind'] == 'quadrature']
    want = kw.get('quadrature_order')
    want = ORDER[e] if want is None else want
    for x in ev:
        ctx.ob('quadrature rule requested', x['cell'] == cell and not isinstance(x['order'], (type(None), str, Arr)) and X.equal(num(x['order']), num(want)) and rule_ok(x['rule'], kw.get('quadrature_rule')),
               '%s order %s rule %s' % (x['cell'], x['order'], x['rule']), x['where'])
    ctx.ob('one quadrature rule', len(ev) == 1, '%d' % len(ev), w)


def cells(ctx, e, kw):
    I, nq = world(ctx, e, 2)
    c, d = CELL[e], MB.dim_of(CELL[e])
    w = where_fn(I, 'get_shape_vals_and_grads')
    r = I.call(I.get('jax_fem.basis', 'get_shape_vals_and_grads'), [e], dict(kw))
    r = [asarr(I, x, 'n') for x in items(r)]
    if not ctx.ob('three tables', len(r) == 3, '%d' % len(r), w):
        return
    phi = shape(e)
    n = len(phi)
    for x, nm, sh in zip(r, ('values', 'gradients', 'weights'), ([nq, n], [nq, n, d], [nq])):
        if not ctx.ob('shape of the %s' % nm, x.ndim == len(sh) and all(A.same_size(a.size, num(s)) for a, s in zip(x.axes, sh)), '%s' % x, w):
            return
    requested(ctx, I, w, c, e, kw)
    q = fresh('q', nq)
    xs = [app('qp_' + c, q, num(j)) for j in range(d)]
    for k in range(n):
        ctx.eqs('value of node %d' % k, norm(r[0].get([q, num(k)])), MB.peval(phi[k], xs), w)
        for j in range(d):
            ctx.eqs('gradient of node %d along %d' % (k, j), norm(r[1].get([q, num(k), num(j)])), MB.peval(MB.pdiff(phi[k], j), xs), w)
    ctx.eqs('weight', norm(r[2].get([q])), app('qw_' + c, q), w)


def faces(ctx, e, kw, nfq):
    I, nq = world(ctx, e, nfq)
    c, d = CELL[e], MB.dim_of(CELL[e])
    fc = FACECELL[c]
    w = where_fn(I, 'get_face_shape_vals_and_grads')
    r = I.call(I.get('jax_fem.basis', 'get_face_shape_vals_and_grads'), [e], dict(kw))
    r = [asarr(I, x, 'n') for x in items(r)]
    if not ctx.ob('five tables', len(r) == 5, '%d' % len(r), w):
        return
    phi = shape(e)
    n, fs = len(phi), MB.facets(c)
    nf, nfv = len(fs), len(fs[0])
    for x, nm, sh in zip(r, ('values', 'gradients', 'weights', 'normals', 'face nodes'),
                         ([nf, nfq, n], [nf, nfq, n, d], [nf, nfq], [nf, d], [nf, nfv])):
        if not ctx.ob('shape of the %s' % nm, x.ndim == len(sh) and all(A.same_size(a.size, num(s)) for a, s in zip(x.axes, sh)), '%s' % x, w):
            return
    requested(ctx, I, w, fc, e, kw)
    verts = [tuple(F(x) for x in p) for p in MB.VERT[c]]
    nodes = [tuple(F(x) for x in p) for p in NODES[e]]
    out = MB.outward(c)
    lam1 = MB.basis('P', fc, 1)
    for f, fv in enumerate(fs):
        # nodes of the face: its vertices, in the node order of the mesh
        got = [norm(r[4].get([num(f), num(k)])) for k in range(nfv)]
        ok = all(g.op == 'num' and g.args[0].denominator == 1 and 0 <= g.args[0] < n for g in got)
        ctx.ob('nodes of face %d' % f, ok and [nodes[int(g.args[0])] for g in got] == [verts[v] for v in fv],
               '%s' % [X.show(g) for g in got], w)
        for j in range(d):
            ctx.eqs('outward normal of face %d along %d' % (f, j), norm(r[3].get([num(f), num(j)])), out[f][j], w)
        e1 = [[verts[fv[k + 1]][x] - verts[fv[0]][x] for x in range(d)] for k in range(d - 1)]
        if d == 2:
            a2 = sum(x * x for x in e1[0])
        else:
            a2 = sum(x * x for x in (e1[0][1] * e1[1][2] - e1[0][2] * e1[1][1], e1[0][2] * e1[1][0] - e1[0][0] * e1[1][2], e1[0][0] * e1[1][1] - e1[0][1] * e1[1][0]))
        for q in range(nfq):
            s = [app('qp_' + fc, num(q), num(j)) for j in range(d - 1)]
            lv = [MB.peval(p, s) for p in lam1]
            xs = [norm(add(*[mul(num(verts[v][j]), lv[k]) for k, v in enumerate(fv)])) for j in range(d)]
            ctx.eqs('weight of point %d of face %d' % (q, f), norm(r[2].get([num(f), num(q)])), mul(app('qw_' + fc, num(q)), power(num(a2), num('1/2'))), w)
            for k in range(n):
                ctx.eqs('value of node %d at point %d of face %d' % (k, q, f), norm(r[0].get([num(f), num(q), num(k)])), MB.peval(phi[k], xs), w)
                for j in range(d):
                    ctx.eqs('gradient %d of node %d at point %d of face %d' % (j, k, q, f), norm(r[1].get([num(f), num(q), num(k), num(j)])),
                            MB.peval(MB.pdiff(phi[k], j), xs), w)


def rejected(ctx, what, name, args, kw):
    I, nq = world(ctx, 'HEX8', 2)
    w = where_fn(I, name)
    try:
        I.call(I.get('jax_fem.basis', name), args, kw)
    except ProgramRaise:
        ctx.ob('%s rejected by %s' % (what, name), True, '', w)
        return
    ctx.ob('%s rejected by %s' % (what, name), False, 'accepted', w)


def run(ctx):
    """Symbolic tabulation of every element type with exact polynomial models of the basix spaces: at a symbolic
    quadrature point the tabulated values and gradients must be, node by node, the polynomials that are one at that
    node of the meshio numbering and zero at the others; the face tables must be the same polynomials at the facet
    points, with the facet's own weights, outward normal and vertices; the quadrature rule asked for is the requested
    one (documented order otherwise)."""
    O = size_sym('qorder', 0)
    for e in sorted(NODES):
        big = e in ('HEX20', 'HEX27')
        ctx.scenario('%s cells' % e, cells, ctx, e, {})
        ctx.scenario('%s faces' % e, faces, ctx, e, {}, 2)
    for e in sorted(NODES):
        for kw in ({'quadrature_order': 4}, {'quadrature_order': 0, 'quadrature_rule': 'gauss_jacobi'}, {'quadrature_rule': Ext('basix.QuadratureType.xiao_gimbutas')}):
            nm = ' '.join('%s' % v for v in kw.values())
            ctx.scenario('%s cells, %s' % (e, nm), cells, ctx, e, kw)
            if not e.startswith('HEX2'):
                ctx.scenario('%s faces, %s' % (e, nm), faces, ctx, e, kw, 1)
    for nm in ('get_shape_vals_and_grads', 'get_face_shape_vals_and_grads'):
        ctx.scenario('unknown element', rejected, ctx, 'unknown element type', nm, ['HEX9'], {})
        ctx.scenario('bad rule', rejected, ctx, 'a rule of another type', nm, ['HEX8'], {'quadrature_rule': 3})
