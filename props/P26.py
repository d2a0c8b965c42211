from .common import *
from .newton import val_eq
from jfsa.interp import Native, NativeObj, PDict, ProgramError, Slice

MESH = '''
class Mesh:
    def __init__(self, points, cells, point_data=None, cell_data=None, **kw):
        self.points = points
        self.cells = cells
        self.point_data = {} if point_data is None else point_data
        self.cell_data = {} if cell_data is None else cell_data
    def write(self, filename, file_format=None, **kw):
        written(self, filename, file_format)
'''


def where_fn(I, name):
    return 'jax_fem.utils:%s %s' % (getattr(I.get('jax_fem.utils', name).node, 'lineno', '?'), name)


def space(I, ele='HEX8', n=None):
    fx = fixture(I, 'class FE: pass\nfe = FE()\n', {}, 'fe_' + ele).env.vars['fe']
    nn, nc, npc = size_sym('nn'), size_sym('nc'), size_sym('npc')
    for k, v in dict(ele_type=ele, points=symbolic('pts', [nn, 3], 'f', 'n'), cells=symbolic('cells', [nc, npc], 'i', 'n', hi=nn),
                     num_cells=nc, num_total_nodes=nn, vec=3, dim=3).items():
        I.setattr(fx, k, v)
    return fx, nn, nc


def exact(I, a):
    """the array before rounding to the single precision of the file"""
    a = asarr(I, a)

    def f(i):
        e = norm(a.get(i))
        return norm(e.args[1][0]) if e.op == 'op' and e.args[0] == 'f32' else e
    return Arr(a.axes, f, a.dtype, a.lib)


def save(ctx, ele, path, cells=None, pts=None, bad=False, vecs=3):
    I = ctx.interp()
    out = []
    mod = fixture(I, MESH, {'written': Native('written', lambda I_, a, k, n: out.append(tuple(a)) or I_.event('written', node=n, path=a[1]))}, 'meshio_model')
    I.ext_overrides['meshio.Mesh'] = lambda I_, a, k, n: I.call(mod.env.vars['Mesh'], a, k, n)
    I.ext_overrides['meshio.write_points_cells'] = lambda I_, a, k, n: I.unmodelled('meshio.write_points_cells', n)
    fe, nn, nc = space(I, ele)
    sol = symbolic('sol', [nn, vecs], 'f', 'n' if I.fx else 'j')
    w = where_fn(I, 'save_sol')
    mk = lambda L: None if L is None else PList(I, [(nm, symbolic(nm, [nc if s == 'c' else nn if s == 'n' else add(nn if s in 'yz' else nc, -1 if s in 'wz' else 1)] + list(r), 'f', 'n' if I.fx else 'j')) for nm, s, *r in L])
    c, p = mk(cells), mk(pts)
    n0 = len(I.events)
    r = None
    try:
        I.call(I.get('jax_fem.utils', 'save_sol'), [fe, sol, path], {k: v for k, v in (('cell_infos', c), ('point_infos', p)) if v is not None})
    except ProgramError as e:
        r = e
    ev = I.events[n0:]
    if bad:
        ok = r is not None or any(e['kind'] in ('raise', 'assert-fail') for e in ev) or any(
            e['kind'] == 'assert' and e.get('cond') is not None and norm(num(e['cond'])) is num(0) for e in ev)
        ctx.ob('rejected before anything is written', ok and not out, '%d files written' % len(out), w)
        return
    if not ctx.ob('accepted', r is None, str(r), w):
        return
    wr = [e for e in ev if e['kind'] == 'written']
    if not ctx.ob('one file written, under the given name', len(out) == 1 and out[0][1] == path, '%r' % [o[1] for o in out], w):
        return
    mk_ = [e for e in ev if e['kind'] == 'makedirs']
    d = path.rsplit('/', 1)[0] if '/' in path else ''
    ctx.ob('directory created before the file is written', (not d and not mk_) or any(
        e['path'] == d and e['exist_ok'] is True and ev.index(e) < ev.index(wr[0]) for e in mk_), '%r' % [e['path'] for e in mk_], w)
    m = out[0][0]
    ct = {'HEX8': 'hexahedron', 'TET10': 'tetra10', 'QUAD4': 'quad', 'TRI6': 'triangle6', 'HEX20': 'hexahedron20'}[ele]
    ctx.eq('points', asarr(I, I.getattr(m, 'points')), I.getattr(fe, 'points'), w)
    cl = I.getattr(m, 'cells')
    blocks = [(k, v) for k, v in cl.d.items()] if isinstance(cl, PDict) else [tuple(items(b)) for b in items(cl)]
    if ctx.ob('one block of cells of the right type', len(blocks) == 1 and blocks[0][0] == ct, '%r' % [b[0] for b in blocks], w):
        ctx.eq('cells', asarr(I, blocks[0][1]), I.getattr(fe, 'cells'), w)
    pd, cd = I.getattr(m, 'point_data').d, I.getattr(m, 'cell_data').d
    want_p = {'sol': sol}
    want_p.update({nm: v for nm, v in (items(p) if p else [])})
    want_c = {nm: v for nm, v in (items(c) if c else [])}
    ctx.ob('point data names', set(pd) == set(want_p), '%s' % sorted(pd), w)
    ctx.ob('cell data names', set(cd) == set(want_c), '%s' % sorted(cd), w)
    for k in want_p:
        if k in pd:
            ctx.eq('point data %s' % k, exact(I, pd[k]), want_p[k], w)
    for k in want_c:
        if k in cd:
            b = items(cd[k])
            if ctx.ob('cell data %s: one block' % k, len(b) == 1, '', w):
                ctx.eq('cell data %s' % k, exact(I, b[0]), want_c[k], w)


def timers(ctx):
    I = ctx.interp()
    calls = []

    def user(I_, a, k, n):
        calls.append((list(a), dict(k)))
        return ('result', X.sym('rv'))
    nat = 'def user(x, *, y=1):\n    return f(x, y=y)\n'
    us = fixture(I, nat, {'f': Native('f', user)}, 'timed').env.vars['user']
    a, b = X.sym('a'), X.sym('b')
    for nm, deco in (('timeit', lambda: I.call(I.get('jax_fem.utils', 'timeit'), [us])),
                     ('walltime', lambda: I.call(I.call(I.get('jax_fem.utils', 'walltime'), []), [us])),
                     ('walltime with file', lambda: I.call(I.call(I.get('jax_fem.utils', 'walltime'), ['out', 'name']), [us]))):
        w = where_fn(I, nm.split()[0])
        f = deco()
        ctx.ob('%s: nothing is called while decorating' % nm, not calls, '', w)
        r = I.call(f, [a], {'y': b})
        ctx.ob('%s: called once with the given arguments' % nm, len(calls) == 1 and calls[0][0] == [a] and calls[0][1].get('y') is b, '%r' % calls, w)
        ctx.ob('%s: returns the result' % nm, isinstance(r, tuple) and r[0] == 'result' and r[1] is X.sym('rv'), '%r' % (r,), w)
        del calls[:]
    mk, op = [e for e in I.events if e['kind'] == 'makedirs'], [e for e in I.events if e['kind'] == 'open']
    ctx.ob('time file: directory created, one file opened for writing', [e['path'] for e in mk] == ['out'] and len(op) == 1 and 'w' in str(op[0]['mode'])
           and I.events.index(mk[0]) < I.events.index(op[0]), '%r' % [e['kind'] for e in I.events], where_fn(I, 'walltime'))


def text(I, tag):
    def replace(I_, a, k, n):
        return text(I, ('replace', tag, a[0], a[1]))
    return NativeObj(I, 'text', tag=tag, replace=Native('replace', replace))


def convert(ctx):
    I = ctx.interp()
    w = where_fn(I, 'modify_vtu_file')
    out, opened = [], []
    lines = [text(I, k) for k in range(3)]

    def opn(I_, a, k, n):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        opened.append((a[0], mode))
        if mode.startswith('r'):
            return NativeObj(I, 'vfile', __iter__=lines, read=Native('read', lambda I_, a, k, n: text(I, 'all')), close=Native('close', lambda I_, a, k, n: None),
                             readlines=Native('readlines', lambda I_, a, k, n: PList(I, list(lines))))

        def wr(I_, a, k, n):
            out.append((opened_path(mode), a[0]))

        def opened_path(m):
            return path
        path = a[0]
        return NativeObj(I, 'vfile', __iter__=[], write=Native('write', wr), close=Native('close', lambda I_, a, k, n: None),
                         writelines=Native('writelines', lambda I_, a, k, n: [out.append((path, x)) for x in I.iter_items(a[0], n)] and None))
    I.setattr(I.module('jax_fem.utils'), 'open', Native('open', opn))
    I.call(I.get('jax_fem.utils', 'modify_vtu_file'), ['in.vtu', 'out.vtu'])
    ctx.ob('input opened for reading and output for writing', sorted(opened) == [('in.vtu', 'r'), ('out.vtu', 'w')], '%r' % opened, w)
    tags = [x.s['tag'] if isinstance(x, NativeObj) and 'tag' in x.s else x for _, x in out]

    def good(t, base):
        return isinstance(t, tuple) and t[0] == 'replace' and t[1] == base and isinstance(t[2], str) and 'version="2.2"' in t[2] \
            and t[3] == t[2].replace('version="2.2"', 'version="1.0"') and t[2] in '<VTKFile type="UnstructuredGrid" version="2.2">'
    ctx.ob('every line written once, in order, with the version replaced', all(p == 'out.vtu' for p, _ in out) and
           (len(tags) == 3 and all(good(t, k) for k, t in enumerate(tags)) or len(tags) == 1 and good(tags[0], 'all')), '%r' % tags, w)


def parse(ctx):
    I = ctx.interp()
    w = where_fn(I, 'json_parse')
    opened = []
    data = PDict(I, {'a': X.sym('a')})
    I.setattr(I.module('jax_fem.utils'), 'open', Native('open', lambda I_, a, k, n: opened.append(a[0]) or NativeObj(I, 'vfile', __iter__=[], path=a[0],
              read=Native('read', lambda I_, a, k, n: text(I, 'all')))))
    I.ext_overrides['json.load'] = lambda I_, a, k, n: data if isinstance(a[0], NativeObj) and a[0].s.get('path') == 'f.json' else None
    I.ext_overrides['json.loads'] = lambda I_, a, k, n: data if isinstance(a[0], NativeObj) and a[0].s.get('tag') == 'all' else None
    r = I.call(I.get('jax_fem.utils', 'json_parse'), ['f.json'])
    ctx.ob('the parsed contents of the file are returned', opened == ['f.json'] and r is data, '%r %r' % (opened, r), w)


def abaqus(ctx):
    I = ctx.interp()
    w = where_fn(I, 'read_abaqus_and_write_vtk')
    rd, wr = [], []
    m = NativeObj(I, 'mesh', write=Native('write', lambda I_, a, k, n: wr.append(a[0])))
    I.ext_overrides['meshio.read'] = lambda I_, a, k, n: rd.append(a[0]) or m
    I.ext_overrides['meshio.write'] = lambda I_, a, k, n: wr.append(a[0]) if a[1] is m else wr.append(None)
    I.call(I.get('jax_fem.utils', 'read_abaqus_and_write_vtk'), ['x.inp', 'x.vtu'])
    ctx.ob('the mesh read is the mesh written', rd == ['x.inp'] and wr == ['x.vtu'], '%r %r' % (rd, wr), w)


def run(ctx):
    """Effect analysis of the output functions with a model of the mesh object that records what is written, and value
    numbering of the arrays handed to it."""
    for ele, path in (('HEX8', 'a/b/u.vtu'), ('QUAD4', 'u.vtu'), ('TET10', 'a/u.vtu'), ('TRI6', 'a/u.vtu'), ('HEX20', 'a/u.vtu')):
        ctx.scenario('plain %s %s' % (ele, path), save, ctx, ele, path)
    ctx.scenario('cell and point data', save, ctx, 'HEX8', 'a/u.vtu', [('p', 'c'), ('q', 'c')], [('T', 'n'), ('g', 'n', 3)])
    ctx.scenario('cell data of another size', save, ctx, 'HEX8', 'a/u.vtu', [('p', 'c'), ('q', 'x')], None, True)
    ctx.scenario('point data of another size', save, ctx, 'HEX8', 'a/u.vtu', None, [('T', 'y')], True)
    ctx.scenario('cell data for fewer cells', save, ctx, 'HEX8', 'a/u.vtu', [('p', 'w')], None, True)
    ctx.scenario('point data for fewer nodes', save, ctx, 'HEX8', 'a/u.vtu', [('p', 'c')], [('T', 'z')], True)
    ctx.scenario('timers', timers, ctx)
    ctx.scenario('version', convert, ctx)
    ctx.scenario('configuration', parse, ctx)
    ctx.scenario('abaqus', abaqus, ctx)
