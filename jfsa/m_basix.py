"""Transfer functions for basix: reference cells, Lagrange and serendipity spaces (exact polynomials) and opaque quadrature rules."""
from fractions import Fraction as F
import itertools
from .m_core import *
from .m_np import arg
from .interp import Ext, ProgramRaise
from . import arr as A
from . import expr as X

VERT = {'interval': [(0,), (1,)], 'triangle': [(0, 0), (1, 0), (0, 1)], 'quadrilateral': [(0, 0), (1, 0), (0, 1), (1, 1)],
        'tetrahedron': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
        'hexahedron': [(x, y, z) for z in (0, 1) for y in (0, 1) for x in (0, 1)]}
EDGE = {'interval': [(0, 1)], 'triangle': [(1, 2), (0, 2), (0, 1)], 'quadrilateral': [(0, 1), (0, 2), (1, 3), (2, 3)],
        'tetrahedron': [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
        'hexahedron': [(0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)]}
FACE = {'triangle': [(0, 1, 2)], 'quadrilateral': [(0, 1, 2, 3)], 'tetrahedron': [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
        'hexahedron': [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)]}
SIMPLEX = ('interval', 'triangle', 'tetrahedron')


def dim_of(cell):
    return len(VERT[cell][0])


def facets(cell):
    return EDGE[cell] if dim_of(cell) == 2 else FACE[cell]


def mid(pts):
    return tuple(sum(F(p[k]) for p in pts) / len(pts) for k in range(len(pts[0])))


def lagrange_nodes(cell, deg):
    v = VERT[cell]
    out = [tuple(F(x) for x in p) for p in v]
    if deg == 2:
        out += [mid([v[i] for i in e]) for e in EDGE[cell]] if dim_of(cell) > 1 else [mid(v)]
        if cell not in SIMPLEX:
            out += [mid([v[i] for i in f]) for f in FACE[cell]]
            if dim_of(cell) == 3:
                out += [mid(v)]
    return out


def monomials(cell, deg, seren=False):
    d = dim_of(cell)
    out = []
    for e in itertools.product(range(deg + 1), repeat=d):
        if seren:
            if sum(x for x in e if x >= 2) <= deg:
                out.append(e)
        elif cell in SIMPLEX:
            if sum(e) <= deg:
                out.append(e)
        else:
            out.append(e)
    return out


def inverse(M):
    n = len(M)
    a = [list(map(F, r)) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] != 0), None)
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        q = a[c][c]
        a[c] = [x / q for x in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


_nodal = {}


def nodal_basis(cell, deg, nodes, seren=False):
    """polynomials {exponents: coefficient} equal to one at their node and zero at the others"""
    k = (cell, deg, tuple(nodes), seren)
    if k not in _nodal:
        mons = monomials(cell, deg, seren)
        assert len(mons) == len(nodes)
        V = []
        for p in nodes:
            row = []
            for e in mons:
                t = F(1)
                for x, q in zip(p, e):
                    t *= x ** q
                row.append(t)
            V.append(row)
        inv = inverse(V)
        _nodal[k] = [{e: inv[j][n] for j, e in enumerate(mons) if inv[j][n] != 0} for n in range(len(nodes))]
    return _nodal[k]


def pdiff(p, d):
    out = {}
    for e, c in p.items():
        if e[d]:
            f = list(e)
            f[d] -= 1
            out[tuple(f)] = out.get(tuple(f), 0) + c * e[d]
    return out


def pcomb(ps, cs):
    out = {}
    for p, c in zip(ps, cs):
        for e, x in p.items():
            out[e] = out.get(e, 0) + c * x
    return {e: c for e, c in out.items() if c != 0}


def peval(p, xs):
    return X.norm(X.add(*[X.mul(X.num(c), *[X.power(x, q) for x, q in zip(xs, e) if q]) for e, c in p.items()])) if p else X.num(0)


def basis(family, cell, deg):
    """basis functions in the numbering of basix"""
    if family == 'P':
        if deg not in (1, 2):
            return None
        return nodal_basis(cell, deg, lagrange_nodes(cell, deg))
    if family == 'serendipity' and deg == 2 and cell in ('quadrilateral', 'hexahedron'):
        v, ed = VERT[cell], EDGE[cell]
        nodes = [tuple(F(x) for x in p) for p in v] + [mid([v[i] for i in e]) for e in ed]
        phi = nodal_basis(cell, 2, nodes, True)
        nv = len(v)
        # vertex values and edge averages are the degrees of freedom of the hierarchical family
        out = [pcomb([phi[i]] + [phi[nv + k] for k, e in enumerate(ed) if i in e], [F(1)] + [F(-1, 4)] * 3) for i in range(nv)]
        return out + [pcomb([phi[nv + k]], [F(3, 2)]) for k in range(len(ed))]
    return None


def install(I, npts, face_pts):
    """route the basix API to these models; quadrature rules have npts / face_pts symbolic points"""
    A.CONCRETE = True

    def cellname(c, n):
        nm = c.name.split('.')[-1] if isinstance(c, Ext) else None
        if nm not in VERT or not c.name.startswith('basix.CellType.'):
            I.unmodelled('basix cell %r' % (c,), n)
        return nm

    def lst(x):
        return PList(I, [lst(y) for y in x]) if isinstance(x, (list, tuple)) else x

    def quad(I_, a, k, n):
        c = cellname(arg(a, k, 0, 'celltype'), n)
        order, rule = arg(a, k, 1, 'degree'), k.get('rule')
        if rule is None and len(a) > 2:
            rule = a[2]
        I.event('quadrature', node=n, cell=c, order=order, rule=rule)
        d = dim_of(c)
        size = npts if d == I.basix_dim else face_pts
        return (A.symbolic('qp_' + c, [size, X.num(d)], 'f', 'n'), A.symbolic('qw_' + c, [size], 'f', 'n'))

    def create(I_, a, k, n):
        fam, c, deg = arg(a, k, 0, 'family'), cellname(arg(a, k, 1, 'celltype'), n), arg(a, k, 2, 'degree')
        fn = fam.name.split('.')[-1] if isinstance(fam, Ext) else None
        B = basis(fn, c, deg)
        if B is None:           # some other element: its functions are unrelated to the nodal ones
            nb = X.size_sym('nb_%s_%s_%s' % (fn, c, deg), 64)

            def other(I__, b, kk, nn):
                pts = asarr(I, arg(b, kk, 1, 'x'), 'n', nn)
                return Arr([A.ax(X.size_sym('nd', 4)), pts.axes[0], A.ax(nb), A.ax(X.num(1))],
                           lambda i: X.uf('basix_%s_%s_%s' % (fn, c, deg), [], [A.flat_index(i[0]), A.flat_index(i[2])] + [X.norm(pts.get([i[1], X.num(j)])) for j in range(dim_of(c))]), 'f', 'n')
            return NativeObj(I, 'basix-element', tabulate=Native('tabulate', other), degree=deg, dim=nb)
        D = [B] + [[pdiff(p, d) for p in B] for d in range(dim_of(c))]

        def tab(I__, b, kk, nn):
            nd, pts = arg(b, kk, 0, 'n'), asarr(I, arg(b, kk, 1, 'x'), 'n', nn)
            if isinstance(nd, Arr) and nd.ndim:
                raise A.ShapeError('tabulate: derivative order is an array of shape %r (%s)' % (nd, I.where(nn)))
            if nd not in (0, 1):
                I.unmodelled('basix tabulate of order %s' % nd, nn)
            if pts.ndim != 2 or not A.same_size(pts.axes[1].size, X.num(dim_of(c))):
                raise A.ShapeError('tabulate: points of shape %r on a %s (%s)' % (pts, c, I.where(nn)))

            sz = [X.norm(q.size) for q in pts.axes]
            if all(q.op == 'num' for q in sz) and sz[0].args[0] <= 64:
                xs = [[X.norm(pts.get([X.num(p), X.num(j)])) for j in range(dim_of(c))] for p in range(int(sz[0].args[0]))]
                if all(x.op == 'num' for r in xs for x in r):
                    return A.const_array([[[[peval(P, r)] for P in D[x]] for r in xs] for x in range(1 + dim_of(c) * nd)], 'f', 'n')

            def get(i):
                xs = [pts.get([i[1], X.num(j)]) for j in range(dim_of(c))]
                dd, bb = X.norm(A.flat_index(i[0])), X.norm(A.flat_index(i[2]))
                rd = [int(dd.args[0])] if dd.op == 'num' else range(1 + dim_of(c) * nd)
                rb = [int(bb.args[0])] if bb.op == 'num' else range(len(B))
                tot = []
                for x in rd:
                    for y in rb:
                        g = [X.eq(dd, X.num(x))] if dd.op != 'num' else []
                        g += [X.eq(bb, X.num(y))] if bb.op != 'num' else []
                        tot.append(X.mul(*g, peval(D[x][y], xs)) if g else peval(D[x][y], xs))
                return tot[0] if len(tot) == 1 else X.add(*tot)
            return Arr([A.ax(X.num(1 + dim_of(c) * nd)), pts.axes[0], A.ax(X.num(len(B))), A.ax(X.num(1))], get, 'f', 'n')
        pts = Arr([A.ax(X.num(len(B))), A.ax(X.num(dim_of(c)))], A.const_array([list(p) for p in lagrange_nodes(c, deg)]).get, 'f', 'n') if fn == 'P' else None
        s = {'tabulate': Native('tabulate', tab), 'degree': deg, 'dim': len(B)}
        if pts is not None:
            s['points'] = pts
        return NativeObj(I, 'basix-element', **s)

    def geometry(I_, a, k, n):
        return A.const_array([list(p) for p in VERT[cellname(a[0], n)]], 'f', 'n')

    def topology(I_, a, k, n):
        c = cellname(a[0], n)
        d = dim_of(c)
        t = [[[i] for i in range(len(VERT[c]))], EDGE[c]] + ([FACE[c]] if d >= 2 else []) + ([[tuple(range(len(VERT[c])))]] if d == 3 else [])
        return lst(t)

    def connect(I_, a, k, n):
        c = cellname(a[0], n)
        d = dim_of(c)
        t = [[[i] for i in range(len(VERT[c]))], EDGE[c]] + ([FACE[c]] if d >= 2 else []) + ([[tuple(range(len(VERT[c])))]] if d == 3 else [])
        sub = lambda e: [[[j for j, f in enumerate(t[q]) if set(f) <= set(e)] if q else list(e) for q in range(len(t))]]
        return lst([[sub(e)[0] for e in level] for level in t])

    def jacobians(I_, a, k, n):
        c = cellname(a[0], n)
        v = VERT[c]
        return A.const_array([[[v[f[j + 1]][r] - v[f[0]][r] for j in range(dim_of(c) - 1)] for r in range(dim_of(c))] for f in facets(c)], 'f', 'n')

    def normals(I_, a, k, n):
        return A.const_array(outward(cellname(a[0], n)), 'f', 'n')
    I.ext_overrides.update({'basix.make_quadrature': quad, 'basix.create_element': create, 'basix.geometry': geometry,
                            'basix.cell.geometry': geometry, 'basix.topology': topology, 'basix.cell.topology': topology,
                            'basix.cell.sub_entity_connectivity': connect, 'basix.cell.facet_jacobians': jacobians,
                            'basix.cell.facet_outward_normals': normals,
                            'basix.quadrature.string_to_type': lambda I_, a, k, n: NativeObj(I, 'quadrule', string=a[0]),
                            'basix.index': None})
    del I.ext_overrides['basix.index']


def outward(cell):
    v, out = VERT[cell], []
    for f in facets(cell):
        d = dim_of(cell)
        e = [[v[f[j + 1]][r] - v[f[0]][r] for r in range(d)] for j in range(d - 1)]
        nrm = [e[0][1], -e[0][0]] if d == 2 else [e[0][1] * e[1][2] - e[0][2] * e[1][1], e[0][2] * e[1][0] - e[0][0] * e[1][2], e[0][0] * e[1][1] - e[0][1] * e[1][0]]
        inner = mid(v)
        if sum(x * (F(v[f[0]][r]) - inner[r]) for r, x in enumerate(nrm)) < 0:
            nrm = [-x for x in nrm]
        l2 = sum(x * x for x in nrm)
        out.append([X.mul(X.num(x), X.power(X.num(l2), X.num('-1/2'))) if l2 != 1 else X.num(x) for x in nrm])
    return out
