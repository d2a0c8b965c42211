import itertools
from .common import *
from jfsa.interp import ProgramRaise, NativeObj

QUAD = [(0, 0), (1, 0), (1, 1), (0, 1)]
HEX = [q + (z,) for z in (0, 1) for q in QUAD]
CELL = {'TET4': 'tetra', 'TET10': 'tetra10', 'HEX8': 'hexahedron', 'HEX27': 'hexahedron27', 'HEX20': 'hexahedron20',
        'TRI3': 'triangle', 'TRI6': 'triangle6', 'QUAD4': 'quad', 'QUAD8': 'quad8'}


def where_fn(I, mod, name):
    return '%s:%s %s' % (mod, getattr(I.get(mod, name).node, 'lineno', '?'), name)


def grid_axes(a, sizes):
    """which grid direction each factor of a flattened axis runs over"""
    parts = list(a.parts) if a.kind == 'prod' else [a]
    for p in itertools.permutations(range(len(sizes))):
        if len(parts) == len(p) and all(A.same_size(parts[k].size, sizes[d]) for k, d in enumerate(p)):
            return p
    return None


def pidx(axis, perm, v):
    """structured index of the grid position v (one term per direction)"""
    if axis.kind != 'prod':
        return v[0]
    return A.PIdx([v[d] for d in perm], axis.parts)


def structured(ctx, name, dim, corners, key):
    I = ctx.interp()
    N = [size_sym('N' + 'xyz'[d]) for d in range(dim)]
    L = [X.sym('L' + 'xyz'[d], pos=True) for d in range(dim)]
    w = where_fn(I, 'jax_fem.generate_mesh', name)
    r = I.call(I.get('jax_fem.generate_mesh', name), N + L)
    if not ctx.ob('a meshio mesh', isinstance(r, NativeObj) and r.kind == 'meshio', '', w):
        return
    pts, cd = asarr(I, r.s['points'], 'n'), r.s['cells']
    cd = cd.d if hasattr(cd, 'd') else {items(c)[0]: items(c)[1] for c in items(cd)}
    if not ctx.ob('one block of %s cells' % key, list(cd) == [key], '%s' % list(cd), w):
        return
    cells = asarr(I, cd[key], 'n')
    n1 = [norm(add(n, 1)) for n in N]
    ctx.ob('point array shape', pts.ndim == 2 and A.same_size(pts.axes[1].size, num(dim)), '%s' % pts, w)
    ctx.ob('cell array shape', cells.ndim == 2 and A.same_size(cells.axes[1].size, num(len(corners))), '%s' % cells, w)
    if pts.ndim != 2 or cells.ndim != 2:
        return
    pp, cp = grid_axes(pts.axes[0], n1), grid_axes(cells.axes[0], N)
    if not ctx.ob('one point per grid position', pp is not None, '%s' % pts, w) or not ctx.ob('one cell per grid box', cp is not None, '%s' % cells, w):
        return
    coord = lambda i, d: div(mul(i, L[d]), N[d])
    g = [fresh('g', n1[d]) for d in range(dim)]
    for d in range(dim):
        ctx.eqs('coordinate %s of a grid point' % 'xyz'[d], norm(pts.get([pidx(pts.axes[0], pp, g), num(d)])), coord(g[d], d), w)
    e = [fresh('e', N[d]) for d in range(dim)]
    for k, off in enumerate(corners):
        node = norm(cells.get([pidx(cells.axes[0], cp, e), num(k)]))
        want = A.flat_index(pidx(pts.axes[0], pp, [norm(add(e[d], off[d])) for d in range(dim)]))
        ctx.eqs('corner %d of a box' % k, node, want, w)


def types(ctx):
    I = ctx.interp()
    w = where_fn(I, 'jax_fem.generate_mesh', 'get_meshio_cell_type')
    f = I.get('jax_fem.generate_mesh', 'get_meshio_cell_type')
    for k, v in sorted(CELL.items()):
        r = I.call(f, [k])
        ctx.ob('cell type of %s' % k, r == v, '%s' % (r,), w)
    try:
        r = I.call(f, ['HEX9'])
        ctx.ob('unknown element type rejected', False, 'returned %s' % (r,), w)
    except ProgramRaise:
        ctx.ob('unknown element type rejected', True, '', w)


def run(ctx):
    """Value numbering of the structured mesh generators for symbolic numbers of cells and side lengths: one point per grid
    position with its coordinates, one cell per grid box, and the corners of a box in the counter-clockwise, bottom
    before top order of the element; the table of meshio cell names is evaluated for every element type."""
    ctx.scenario('rectangle', structured, ctx, 'rectangle_mesh', 2, QUAD, 'quad')
    ctx.scenario('box', structured, ctx, 'box_mesh', 3, HEX, 'hexahedron')
    ctx.scenario('cell names', types, ctx)
