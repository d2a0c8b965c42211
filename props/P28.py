import ast
import math
import re
from .common import *
from jfsa.interp import NativeObj, PDict, ProgramRaise, Opq
from .P25 import where_fn, CELL

TETS = ('TET4', 'TET10')


class Gmsh:
    """entities made by the gmsh geometry calls: tag -> (dim, translations that generated it)"""

    def __init__(self, I, cell_sizes):
        self.I, self.log, self.made, self.ext = I, [], {}, []
        self.n, self.files = 0, {}
        self.ncols = cell_sizes
        J = I.ext_overrides
        for nm in ('gmsh.initialize', 'gmsh.finalize', 'gmsh.option.setNumber', 'gmsh.model.geo.synchronize', 'gmsh.model.mesh.generate',
                   'gmsh.model.mesh.setOrder', 'gmsh.write', 'gmsh.model.add', 'gmsh.clear', 'gmsh.option.setString', 'gmsh.logger.start'):
            J[nm] = self.note(nm[5:])
        J['gmsh.model.geo.addPoint'] = self.point
        J['gmsh.model.geo.extrude'] = self.extrude
        J['meshio.read'] = self.read
        self.read_meshes = []
        self.cells = lambda t, c: symbolic('cells_' + t, [size_sym('nc_' + t), c], 'i', 'n', hi=size_sym('np', 16))

    def note(self, nm):
        def f(I, a, k, n):
            self.log.append((nm, tuple(a) + tuple(k.values())))
            return None
        return f

    def tag(self, dim, gen):
        self.n += 1
        self.made[(dim, self.n)] = gen
        return (dim, self.n)

    def point(self, I, a, k, n):
        t = self.tag(0, [])
        self.log.append(('point', tuple(a[:3])))
        return t[1]

    def extrude(self, I, a, k, n):
        b = dict(zip(('dimTags', 'dx', 'dy', 'dz', 'numElements', 'heights', 'recombine'), a))
        b.update(k)
        src = [tuple(items(x)) for x in items(b['dimTags'])]
        out = []
        for s in src:
            s = tuple(int(x) if isinstance(x, int) else x for x in s)
            if s not in self.made:
                I.unmodelled('extruding an unknown entity', n)
            gen = self.made[s]
            step = dict(shift=[b['dx'], b['dy'], b['dz']], num=items(b.get('numElements') or PList(I, [])),
                        heights=items(b.get('heights') or PList(I, [])), recombine=b.get('recombine', False), of=s)
            self.ext.append(step)
            out.append(self.tag(s[0], gen))                    # copy at the far end
            out.append(self.tag(s[0] + 1, gen + [step]))       # swept entity
            out.extend(self.tag(s[0], gen) for _ in range(2 * s[0]))   # lateral entities
        self.log.append(('extrude', ()))
        return PList(I, out)

    def read(self, I, a, k, n):
        self.log.append(('read', tuple(a)))
        types = {v: c for v, c in self.ncols.items()}
        cd = {t: self.cells(t, c) for t, c in types.items()}
        m = NativeObj(I, 'meshio', points=symbolic('fpts', [size_sym('np', 16), num(3)], 'f', 'n'), cells=Opq('cells'), point_data=PDict(I),
                      cell_data=PDict(I), field_data=PDict(I), cells_dict=PDict(I, cd), write=None)
        self.read_meshes.append(m)
        return m


def run(ctx):
    """Value numbering of check_mesh_TET4; the sequence of gmsh calls of box_mesh_gmsh with symbolic counts and lengths,
    interpreted as swept entities; the file written is the file read; the node removal and renumbering of
    cylinder_mesh_gmsh."""
    NN = {'TET4': 4, 'TET10': 10, 'HEX8': 8, 'HEX27': 27, 'TRI3': 3, 'TRI6': 6, 'QUAD4': 4, 'QUAD8': 8, 'HEX20': 20}

    def quality():
        I = ctx.interp()
        w = where_fn(I, 'jax_fem.generate_mesh', 'check_mesh_TET4')
        nc, npt = size_sym('nc'), size_sym('np')
        P = symbolic('P', [npt, num(3)])
        C = symbolic('C', [nc, num(4)], 'i', 'j', hi=npt)
        r = I.call(I.get('jax_fem.generate_mesh', 'check_mesh_TET4'), [P, C])

        def vol(c):
            e = [[sub(app('P', app('C', c, num(k)), num(j)), app('P', app('C', c, num(0)), num(j))) for j in range(3)] for k in (1, 2, 3)]
            (a, b, d) = e
            det = num(0)
            for (i, j, k), s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1)):
                det = add(det, mul(s, a[i], b[j], d[k]))
            return det
        ctx.eq('six times the signed volume', r, Arr([ax(nc)], lambda i: vol(i[0])), w)

    def box(ele):
        I = ctx.interp()
        w = where_fn(I, 'jax_fem.generate_mesh', 'box_mesh_gmsh')
        G = Gmsh(I, {CELL[e]: NN[e] for e in NN})
        N = [size_sym('N' + d, 1) for d in 'xyz']
        L = [X.sym('L' + d, pos=True) for d in 'xyz']
        r = I.call(I.get('jax_fem.generate_mesh', 'box_mesh_gmsh'), N + L + ['some/dir'], {'ele_type': ele})
        log = [x[0] for x in G.log]
        first = lambda nm: log.index(nm) if nm in log else None
        hexa = ele not in TETS
        if not ctx.ob('three sweeps from one point', len(G.ext) == 3 and log.count('point') == 1, '%s' % log, w):
            return
        pt = [x for x in G.log if x[0] == 'point'][0][1]
        ctx.ob('the box starts at the origin', all(val_zero(x) for x in pt), '%r' % (pt,), w)
        used = []
        for k, st in enumerate(G.ext):
            ctx.ob('sweep %d extends the entity swept before' % k, st['of'][0] == k and len(G.made[st['of']]) == k, '', w)
            nz = [d for d in range(3) if not val_zero(st['shift'][d])]
            if not ctx.ob('sweep %d is along one axis' % k, len(nz) == 1, '%r' % (st['shift'],), w):
                continue
            d = nz[0]
            used.append(d)
            ctx.eqs('length along %s' % 'xyz'[d], num(st['shift'][d]), L[d], w)
            ctx.ob('one layer block along %s' % 'xyz'[d], len(st['num']) == 1, '', w)
            if st['num']:
                ctx.eqs('cells along %s' % 'xyz'[d], num(st['num'][0]), N[d], w)
            ctx.ob('layers span the sweep along %s' % 'xyz'[d], st['heights'] in ([], [1]) or (len(st['heights']) == 1 and X.same_values(num(st['heights'][0]), num(1))), '', w)
            if k:
                ctx.ob('sweep %d keeps %s' % (k, 'hexahedra' if hexa else 'tetrahedra'), bool(st['recombine']) == hexa, '', w)
        ctx.ob('the three axes are swept', sorted(used) == [0, 1, 2], '%r' % used, w)
        seq = ['initialize', 'extrude', 'model.geo.synchronize', 'model.mesh.generate', 'model.mesh.setOrder', 'write', 'read']
        at = [first(s) if s != 'extrude' else max(i for i, x in enumerate(log) if x == 'extrude') for s in seq]
        ctx.ob('gmsh calls in order', all(x is not None for x in at) and at == sorted(at), '%s' % log, w)
        arg = lambda nm: [x[1] for x in G.log if x[0] == nm]
        ctx.ob('a volume mesh is generated', [tuple(x) for x in arg('model.mesh.generate')] == [(3,)], '', w)
        deg = {'TET4': 1, 'HEX8': 1, 'TET10': 2, 'HEX27': 2}[ele]
        so = arg('model.mesh.setOrder')
        ctx.ob('element order', len(so) == 1 and X.same_values(num(so[0][0]), num(deg)), '%r' % (so,), w)
        wr, rd = arg('write'), arg('read')
        ctx.ob('the file written is the file read', len(wr) == 1 and len(rd) == 1 and wr[0] == rd[0], '%r %r' % (wr, rd), w)
        mk = [e for e in I.events if e['kind'] == 'makedirs']
        ctx.ob('its directory is created', any(isinstance(e['path'], str) and str(wr[0][0]).startswith(e['path']) and e['exist_ok'] is True for e in mk), '', w)
        ctx.ob('the file lives under the given directory', str(wr[0][0]).startswith('some/dir/'), '%r' % (wr,), w)
        ctx.ob('gmsh is closed', 'finalize' in log, '', w)
        opts = [x for x in arg('option.setNumber') if x[0] == 'Mesh.MshFileVersion']
        ctx.ob('file version', len(opts) == 1 and float(opts[0][1] if not isinstance(opts[0][1], X.E) else opts[0][1].args[0]) < 3, '%r' % opts, w)
        result(ctx, I, r, CELL[ele], symbolic('fpts', [size_sym('np', 16), num(3)], 'f', 'n'),
               symbolic('cells_' + CELL[ele], [size_sym('nc_' + CELL[ele]), num(NN[ele])], 'i', 'n'), w)

    def rejected(ele):
        I = ctx.interp()
        G = Gmsh(I, {CELL[e]: NN[e] for e in NN})
        w = where_fn(I, 'jax_fem.generate_mesh', 'box_mesh_gmsh')
        try:
            I.call(I.get('jax_fem.generate_mesh', 'box_mesh_gmsh'), [num(1), num(1), num(1), num(1), num(1), num(1), 'some/dir'], {'ele_type': ele})
            ctx.ob('%s rejected' % ele, False, 'accepted', w)
        except ProgramRaise:
            ctx.ob('%s rejected' % ele, True, '', w)

    def cylinder(part):
        I = ctx.interp()
        w = where_fn(I, 'jax_fem.generate_mesh', 'cylinder_mesh_gmsh')
        G = Gmsh(I, {CELL['HEX8']: 8})
        par = dict(R=X.sym('R', pos=True), H=X.sym('H', pos=True), circle_mesh=size_sym('ncirc', 1), hight_mesh=size_sym('nh', 1), rect_ratio=X.sym('ratio', pos=True))
        # the nodes 0 and 14 belong to no cell: node numbers are 1..13 or from 15 on
        lo, size = (1, num(13)) if part == 'before' else (15, size_sym('nbehind', 1))
        G.cells = lambda t, c: Arr([ax(size_sym('nc_' + t)), ax(num(c))], (lambda f: lambda i: add(lo, f(i)))(symbolic(
            'cells_' + t, [size_sym('nc_' + t), num(c)], 'i', 'n', hi=size).fn), 'i', 'n')
        r = I.call(I.get('jax_fem.generate_mesh', 'cylinder_mesh_gmsh'), ['some/dir'], dict(par))
        rd = [x[1] for x in G.log if x[0] == 'read']
        op = [e for e in I.events if e['kind'] == 'open']
        fs = [e['args'] for e in I.events if e['kind'] == 'fs']
        ok = len(rd) == 1 and len(op) == 1 and len(fs) == 1 and isinstance(fs[0][0], str) and isinstance(rd[0][0], str) and isinstance(op[0]['path'], str)
        if ctx.ob('one description written, one run, one mesh read', ok, '%r %r %r' % (rd, fs, op), w):
            ctx.ob('gmsh converts the description written to the mesh read', op[0]['path'] in fs[0][0].split() and rd[0][0] in fs[0][0].split() and '-3' in fs[0][0].split(), '%r' % (fs,), w)
            ctx.ob('the description is overwritten', op[0]['mode'] == 'w', '', w)
            ctx.ob('files live under the given directory', op[0]['path'].startswith('some/dir/') and rd[0][0].startswith('some/dir/'), '%r' % rd, w)
            wr = [e['args'][0] for e in I.events if e['kind'] == 'fwrite']
            text, env = template(wr[0]) if len(wr) == 1 else (None, None)
            if ctx.ob('one description is written', text is not None, '%r' % (wr,), w):
                geo(ctx, I, text, env, par, w)
        npt = size_sym('np', 16)
        c = lambda i: app('cells_hexahedron', *[A.flat_index(x) for x in i])
        cells = Arr([ax(size_sym('nc_hexahedron')), ax(num(8))], lambda i: add(0 if part == 'before' else 13, c(i)), 'i')
        pts, cd = parts(I, r)
        if ctx.ob('one block of hexahedra', cd is not None and list(cd) == ['hexahedron'], '', w):
            ctx.eq('renumbered cells (%s node 14)' % part, asarr(I, cd['hexahedron'], 'n'), cells, w)
        ctx.eqs('two points dropped', norm(pts.axes[0].size), norm(sub(npt, 2)), w)
        for k in range(13):
            ctx.eqs('kept point %d' % k, norm(pts.get([conv(pts, num(k)), num(0)])), app('fpts', num(k + 1), num(0)), w)
        t = fresh('t', norm(sub(npt, 15)))
        ctx.eqs('kept points from 13 on', norm(pts.get([conv(pts, add(13, t)), num(0)])), app('fpts', add(15, t), num(0)), w)

    ctx.scenario('tetrahedron quality', quality)
    for e in ('HEX8', 'TET4', 'TET10', 'HEX27'):
        ctx.scenario('box of %s' % e, box, e)
    for e in ('HEX20', 'HEX9'):
        ctx.scenario('box of %s' % e, rejected, e)
    for part in ('before', 'behind'):
        ctx.scenario('cylinder, cells with nodes %s node 14' % part, cylinder, part)


def conv(a, i):
    return A.conv_index(i, a.axes[0]) if hasattr(A, 'conv_index') else i


def template(t):
    """text with placeholder names and the values of the placeholders"""
    if isinstance(t, Opq) and t.desc == 'str' and isinstance(t.data, tuple):
        d = t.data
        if d and d[0] == 'format' and isinstance(d[1], str) and isinstance(d[-1], dict) and len(d) == 3:
            return d[1].format(**{k: '(' + k + ')' for k in d[2]}), d[2]
        env, out = {}, ''
        for x in d:
            if isinstance(x, str):
                out += x
            elif isinstance(x, Opq):
                return None, None
            else:
                nm = 'v%d' % len(env)
                env[nm] = x
                out += '(' + nm + ')'
        return out, env
    return (t, {}) if isinstance(t, str) else (None, None)


class Lin(dict):
    """linear form over placeholder names ('' is the constant part)"""


def geo_eval(s, names):
    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.Constant):
            return Lin({'': float(n.value)})
        if isinstance(n, ast.Name):
            return Lin({'': math.pi}) if n.id == 'Pi' else Lin({n.id: 1.0})
        if isinstance(n, ast.UnaryOp):
            s_ = -1 if isinstance(n.op, ast.USub) else 1
            return Lin({k: s_ * v for k, v in ev(n.operand).items()})
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                s_ = 1 if isinstance(n.op, ast.Add) else -1
                return Lin({k: a.get(k, 0) + s_ * b.get(k, 0) for k in set(a) | set(b)})
            if isinstance(n.op, ast.Mult):
                if set(b) <= {''}:
                    return Lin({k: v * b.get('', 0) for k, v in a.items()})
                if set(a) <= {''}:
                    return Lin({k: v * a.get('', 0) for k, v in b.items()})
            if isinstance(n.op, ast.Div) and set(b) <= {''}:
                return Lin({k: v / b[''] for k, v in a.items()})
        if isinstance(n, ast.Call) and n.func.id in ('Cos', 'Sin', 'Sqrt'):
            a = ev(n.args[0])
            return Lin({'': {'Cos': math.cos, 'Sin': math.sin, 'Sqrt': math.sqrt}[n.func.id](a.get('', 0))})
        raise ValueError(s)
    return ev(ast.parse(s.strip(), mode='eval'))


def geo(ctx, I, text, env, par, w):
    """the geometry program: an O-grid of a disc of radius R (square core of half side rect_ratio*R, four blocks
    around), swept to height H"""
    def form(s):
        """-> {'R','core','H','nc','nh',''} coefficients"""
        out = {}
        for k, v in geo_eval(s, env).items():
            if abs(v) < 1e-12:
                continue
            if k == '':
                out[''] = out.get('', 0) + v
                continue
            e = norm(num(env[k]))
            for nm, want in (('R', par['R']), ('core', mul(par['R'], par['rect_ratio'])), ('H', par['H']), ('nc', par['circle_mesh']), ('nh', par['hight_mesh'])):
                if X.same_values(e, norm(num(want))):
                    out[nm] = out.get(nm, 0) + v
                    break
            else:
                out['?'] = 1
        return out
    text = re.sub(r'//[^\n]*', '', text)
    pts, lines, loops, surf, trans, tsurf, other = {}, {}, {}, {}, {}, set(), []
    sweep, m = None, re.search(r'Extrude\s*\{([^}]*)\}\s*\{', text)
    if m:
        d, j = 1, m.end()
        while d and j < len(text):
            d += {'{': 1, '}': -1}.get(text[j], 0)
            j += 1
        sweep = (m.group(1), text[m.end():j - 1])
        text = text[:m.start()] + ';' + text[j:]
    for x in re.split(r';', text):
        x = x.strip()
        m = re.match(r'([A-Za-z ]+?)\s*(?:\((\d+)\))?\s*(?:=)?\s*\{(.*?)\}(.*)$', x, re.S)
        if not m:
            continue
        kind, no, body, rest = m.group(1).strip(), m.group(2), [y.strip() for y in m.group(3).split(',')], m.group(4)
        if kind == 'Point':
            pts[int(no)] = [form(y) for y in body[:3]]
        elif kind in ('Line', 'Circle'):
            lines[int(no)] = (kind, [int(y) for y in body])
        elif kind in ('Curve Loop', 'Line Loop'):
            loops[int(no)] = [int(y) for y in body]
        elif kind == 'Plane Surface':
            surf[int(no)] = [int(y) for y in body]
        elif kind in ('Transfinite Curve', 'Transfinite Line'):
            r = re.match(r'\s*=\s*(\S+)\s*(.*)', rest, re.S)
            for y in expand(body):
                trans[y] = form(r.group(1)) if r else None
        elif kind == 'Transfinite Surface':
            tsurf |= set(expand(body))
        elif kind == 'Recombine Surface':
            other += [('recombine', expand(body))]
    h = math.sqrt(.5)
    near = lambda a, b: set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in a)
    at = lambda i: pts.get(i, [{'?': 1}] * 3)
    is_pt = lambda i, c: all(near(at(i)[k], {kk: v for kk, v in c[k].items()}) for k in range(3))
    ends = {i: (v[1][0], v[1][-1]) for i, v in lines.items()}
    ctx.ob('arcs turn about the axis of the disc', sum(v[0] == 'Circle' for v in lines.values()) == 4 and all(
        v[0] != 'Circle' or (len(v[1]) == 3 and is_pt(v[1][1], [{}, {}, {}])) for v in lines.values()), '%r' % lines, w)
    corner = {}
    for nm, c in (('core', 1), ('R', h)):
        for sx in (-1, 1):
            for sy in (-1, 1):
                q = [i for i in pts if is_pt(i, [{nm: sx * c}, {nm: sy * c}, {}])]
                ctx.ob('%s corner %d %d' % (nm, sx, sy), len(q) == 1, '%r' % pts, w)
                corner.update({i: (nm, sx, sy) for i in q})
    for i, (k, v) in sorted(lines.items()):
        a, b = corner.get(v[0]), corner.get(v[-1])
        if a and b:
            side = a[0] == b[0] and abs(a[1] - b[1]) + abs(a[2] - b[2]) == 2
            ctx.ob('curve %d joins neighbours' % i, (k == 'Circle') == (side and a[0] == 'R') and (side or (a[0] != b[0] and a[1:] == b[1:])), '%r %r' % (a, b), w)
        else:
            ctx.ob('curve %d joins corners' % i, False, '%r' % (v,), w)
    uses = {}
    for s_, ls in sorted(surf.items()):
        lp = loops.get(ls[0], []) if len(ls) == 1 else []
        ok = len(lp) == 4
        for p, q in zip(lp, lp[1:] + lp[:1]):
            e = lambda c: ends.get(abs(c), (None, -1))[::1 if c > 0 else -1]
            ok = ok and e(p)[1] == e(q)[0]
        for p in lp:
            uses[abs(p)] = uses.get(abs(p), 0) + 1
        ctx.ob('surface %d is bounded by a closed loop of four curves' % s_, ok, '%r' % lp, w)
    ctx.ob('five blocks tile the disc', len(surf) == 5 and len(lines) == 12 and all(uses.get(i) == (1 if v[0] == 'Circle' else 2) for i, v in lines.items()), '%r' % uses, w)
    ctx.ob('every curve has circle_mesh points', set(trans) == set(lines) and all(near(v or {}, {'nc': 1.0}) for v in trans.values()), '%r' % trans, w)
    ctx.ob('every surface is structured in quadrilaterals', tsurf == set(surf) and any(set(o[1]) == set(surf) for o in other), '%r %r' % (tsurf, other), w)
    ok = sweep is not None
    if ok:
        d = [form(y) for y in sweep[0].split(',')]
        ok = len(d) == 3 and not d[0] and not d[1] and near(d[2], {'H': 1.0})
        ss = re.search(r'Surface\s*\{([^}]*)\}', sweep[1])
        ok = ok and ss is not None and set(expand(ss.group(1).split(','))) == set(surf)
        ly = re.search(r'Layers\s*\{([^}]*)\}', sweep[1])
        ok = ok and ly is not None and near(form(ly.group(1)), {'nh': 1.0}) and 'Recombine' in sweep[1]
    ctx.ob('a volume mesh is asked for', re.search(r'\bMesh\s+3\s*;', text) is not None, '', w)
    ctx.ob('the disc is swept to the height in hight_mesh layers of hexahedra', bool(ok), '%r' % (sweep,), w)


def expand(xs):
    out = []
    for x in xs:
        x = x.strip()
        if ':' in x:
            a, b = x.split(':')
            out += list(range(int(a), int(b) + 1))
        else:
            out.append(int(x))
    return out


def val_zero(x):
    return X.same_values(num(x), num(0))


def parts(I, r):
    if not (isinstance(r, NativeObj) and r.kind == 'meshio'):
        return None, None
    cd = r.s['cells']
    cd = cd.d if hasattr(cd, 'd') else {items(c)[0]: items(c)[1] for c in items(cd)}
    return asarr(I, r.s['points'], 'n'), cd


def result(ctx, I, r, key, pts, cells, w):
    p, cd = parts(I, r)
    if ctx.ob('one block of %s cells' % key, cd is not None and list(cd) == [key], '', w):
        ctx.eq('cells read back', asarr(I, cd[key], 'n'), cells, w)
        ctx.eq('points read back', p, pts, w)
