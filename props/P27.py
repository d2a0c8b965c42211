import ast
import glob
import os
from jfsa.interp import parse_file

NARROW = {'float32', 'float16', 'half', 'single', 'bfloat16', 'csingle', 'complex64', 'float8_e4m3fn', 'float8_e5m2'}
NSTR = NARROW | {'f', 'f4', 'f2', 'e', 'F', 'c8', '<f4', '>f4', '=f4', '<f2', '>f2', '<c8'}
HARMLESS = {'finfo', 'isinstance', 'issubdtype', 'issubclass', 'can_cast', 'iinfo', 'promote_types', 'result_type',
            'print', 'str', 'repr', 'type', 'format', 'debug', 'info', 'warning', 'error'}
NARROWOPS = {'reduce_precision'}
FILES = 'save_sol'


class Mod:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.tree = parse_file(path)
        self.parent = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        self.alias = {}        # local name -> dotted external name
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = ('jax_fem.' if n.level else '') + (n.module or '')
                for a in n.names:
                    self.alias[a.asname or a.name] = (base + '.' + a.name).strip('.')

    def dotted(self, e):
        if isinstance(e, ast.Name):
            return self.alias.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b and b + '.' + e.attr
        return None

    def func(self, n):
        """enclosing function (None at import time); decorators and defaults belong to the outer scope"""
        c, p = n, self.parent.get(n)
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                outer = isinstance(p, ast.FunctionDef) and (c in p.decorator_list) or c is p.args
                if not outer:
                    return p
            c, p = p, self.parent.get(p)
        return None

    def at(self, n):
        f = self.func(n)
        return '%s:%d %s' % (self.name, n.lineno, getattr(f, 'name', 'lambda') if f else '<module>')


def const(e):
    return e.value if isinstance(e, ast.Constant) else None


def run(ctx):
    """Def-use analysis over the syntax trees of every module of the package (experimental scripts aside):
     * where double precision is switched on (dominating every import-time array creation), and that nothing switches it off;
     * where a reduced-precision type token goes (aliases and in-package parameters followed): a token that reaches a
       conversion, an array constructor or an unknown consumer narrows a value; only data written by save_sol may be narrowed."""
    mods = []
    for p in sorted(glob.glob(os.path.join(ctx.repo, 'jax_fem', '*.py'))):
        b = os.path.basename(p)[:-3]
        mods.append(Mod(p, 'jax_fem' if b == '__init__' else 'jax_fem.' + b))
        ctx.files.add(p)
    for m in mods:
        ctx.read.update('%s.%s' % (m.name, n.name) for n in ast.walk(m.tree) if isinstance(n, ast.FunctionDef))
    byname = {m.name: m for m in mods}

    # ------------------------------------------------------------ the switch
    def switches(m):
        """(node, value expression) for every statement that sets the switch"""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                d = m.dotted(n.func) or ''
                args = list(n.args) + [k.value for k in n.keywords]
                if d.endswith('config.update') and args and const(args[0]) == 'jax_enable_x64' and len(args) > 1:
                    yield n, args[1]
                elif d.split('.')[-1] == 'disable_x64':
                    yield n, ast.Constant(False)
                elif d.split('.')[-1] == 'enable_x64':
                    yield n, (args[0] if args else ast.Constant(True))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == 'jax_enable_x64' and (m.dotted(t.value) or '').endswith('config'):
                        yield n, n.value
                    if isinstance(t, ast.Subscript) and const(t.slice) == 'JAX_ENABLE_X64':
                        yield n, n.value

    def truth(m, e):
        v = const(e)
        if v is not None:
            return v not in (False, 0, '0', 'False', 'false', '')
        if isinstance(e, ast.Name):
            defs = [a.value for a in ast.walk(m.tree) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in a.targets)]
            return len(defs) == 1 and const(defs[0]) is not None and truth(m, defs[0])
        return isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and const(e.operand) in (False, 0)

    def runs_at_import(m, n):
        """n is executed whenever the module is imported"""
        c, p = n, m.parent.get(n)
        while p is not None:
            if isinstance(p, ast.Module):
                return True
            if isinstance(p, (ast.Expr, ast.Assign, ast.With, ast.Call)) and not (isinstance(p, ast.Call) and c is p.func):
                pass
            elif isinstance(p, ast.Try) and (c in p.body or c in p.finalbody):
                pass
            elif isinstance(p, ast.If) and c in p.body and truth(m, p.test):
                pass
            elif isinstance(p, ast.For) and isinstance(p.iter, (ast.Tuple, ast.List)) and p.iter.elts:
                pass
            elif isinstance(p, ast.FunctionDef) and c in p.body:
                return any(isinstance(k, ast.Call) and m.dotted(k.func) == p.name and m.func(k) is None and runs_at_import(m, k)
                           for k in ast.walk(m.tree) if k is not n)
            else:
                return False
            c, p = p, m.parent.get(p)
        return False

    def first_on(m):
        ln = [n.lineno for n, v in switches(m) if truth(m, v) and runs_at_import(m, n)]
        return min(ln) if ln else None

    def package_imports(m):
        for n in m.tree.body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    yield n.lineno, a.name
            elif isinstance(n, ast.ImportFrom):
                base = ('jax_fem' + ('.' + n.module if n.module else '')) if n.level else n.module or ''
                yield n.lineno, base
                for a in n.names:
                    yield n.lineno, base + '.' + a.name

    def on_line(m, seen=()):
        """line from which on double precision is on while m is imported (0: from the package itself); None: never"""
        if m.name in seen:
            return None
        cand = []
        own = first_on(m)
        if own:
            cand.append(own)
        if m.name != 'jax_fem' and 'jax_fem' in byname and on_line(byname['jax_fem'], seen + (m.name,)) is not None:
            cand.append(0)
        for ln, d in package_imports(m):
            k = byname.get(d)
            if k and k is not m and k.name != 'jax_fem' and on_line(k, seen + (m.name,)) is not None:
                cand.append(ln)
        return min(cand) if cand else None

    def switch():
        for nm in ('jax_fem.solver', 'jax_fem.mma'):
            m = byname.get(nm)
            ctx.ob('importing %s switches double precision on' % nm, m is not None and on_line(m) is not None,
                   'no unconditional import-time statement sets jax_enable_x64', '%s:1' % nm)
        for m in mods:
            for n, v in switches(m):
                ctx.ob('never switched off: %s' % m.name, truth(m, v), ast.unparse(n), m.at(n))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    d = m.dotted(n.func) or ''
                    a = [const(x) for x in n.args]
                    if d.endswith('config.update') and a and a[0] == 'jax_default_dtype_bits':
                        ctx.ob('default width', '64' in [str(x) for x in a[1:]], ast.unparse(n), m.at(n))
        # arrays created while a module is being imported
        for m in mods:
            on = on_line(m)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and m.func(n) is None:
                    d = m.dotted(n.func) or ''
                    if d.startswith('jax.numpy.') or d.startswith('jax.random.'):
                        if m.name in ('jax_fem.solver', 'jax_fem.mma') or on is not None:
                            ok = on is not None and n.lineno > on
                        else:
                            ok = False
                        ctx.ob('import-time array in %s' % m.name, ok, ast.unparse(n), m.at(n))

    # ------------------------------------------------------------ reduced-precision tokens
    def callers(fn_name):
        r = []
        for m in mods:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and n.id == fn_name and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and n.attr == fn_name:
                    f = m.func(n)
                    r.append(f)
        return r

    def file_only(m, n):
        """n belongs to save_sol or to something only save_sol uses"""
        f = m.func(n)
        chain, seen = [f], set()
        while chain:
            g = chain.pop()
            if g is None:
                return False
            while isinstance(g, ast.Lambda) or (isinstance(g, ast.FunctionDef) and g.name != FILES and isinstance(m.func(g), (ast.FunctionDef, ast.Lambda))):
                g = m.func(g)
            if g is None:
                return False
            if g.name == FILES or g in seen:
                continue
            seen.add(g)
            cs = callers(g.name)
            if not cs:
                return False
            chain.extend(cs)
        return True

    def sinks(m, e, depth=0):
        """[(module, node)] where the token denoted by e narrows a value"""
        p = m.parent.get(e)
        if p is None or depth > 8:
            return [(m, e)]
        if isinstance(p, ast.keyword):
            return sinks_call(m, p, m.parent[p], depth)
        if isinstance(p, ast.Call):
            if p.func is e:
                return [(m, p)]          # float32(x)
            return sinks_call(m, e, p, depth)
        if isinstance(p, (ast.Compare, ast.Assert, ast.Raise)):
            return []
        if isinstance(p, (ast.FormattedValue, ast.JoinedStr, ast.Expr)):
            return []
        if isinstance(p, (ast.IfExp, ast.BoolOp, ast.Starred)):
            return sinks(m, p, depth) if not (isinstance(p, ast.IfExp) and p.test is e) else []
        if isinstance(p, (ast.Tuple, ast.List, ast.Set)):
            q = m.parent.get(p)
            if isinstance(q, ast.Compare) or isinstance(q, ast.Call) and last(m, q) in HARMLESS:
                return []
            return sinks(m, p, depth + 1)
        if isinstance(p, ast.Attribute):      # float32.__name__, dtype(float32).itemsize
            return []
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            r = []
            for t in ts:
                if isinstance(t, ast.Name):
                    r += uses(m, t.id, m.func(p), depth + 1)
                elif isinstance(t, ast.Attribute):
                    for k in mods:
                        for n in ast.walk(k.tree):
                            if isinstance(n, ast.Attribute) and n.attr == t.attr and isinstance(n.ctx, ast.Load):
                                r += sinks(k, n, depth + 1)
                else:
                    r.append((m, p))
            return r
        if isinstance(p, ast.arguments):      # default value
            f = m.parent[p]
            pos = p.posonlyargs + p.args
            nm = None
            if e in p.defaults:
                nm = pos[len(pos) - len(p.defaults) + p.defaults.index(e)].arg
            elif e in p.kw_defaults:
                nm = p.kwonlyargs[p.kw_defaults.index(e)].arg
            return uses(m, nm, f, depth + 1) if nm else [(m, e)]
        if isinstance(p, ast.Return):
            f = m.func(p)
            r = []
            if isinstance(f, ast.FunctionDef):
                for k in mods:
                    for n in ast.walk(k.tree):
                        if isinstance(n, ast.Call) and (k.dotted(n.func) or '').split('.')[-1] == f.name:
                            r += sinks(k, n, depth + 1)
                return r
        return [(m, e)]

    def last(m, c):
        return c.func.attr if isinstance(c.func, ast.Attribute) else (m.dotted(c.func) or '?').split('.')[-1]

    def sinks_call(m, arg, call, depth):
        nm = last(m, call)
        if nm in HARMLESS:
            return []
        if nm == 'dtype':
            return sinks(m, call, depth + 1)
        d = m.dotted(call.func) or nm
        for k in mods:
            for f in ast.walk(k.tree):
                if isinstance(f, ast.FunctionDef) and f.name == nm and (k is m or d.startswith(k.name + '.')):
                    ps = [a.arg for a in f.args.posonlyargs + f.args.args]
                    if isinstance(arg, ast.keyword):
                        t = arg.arg
                    else:
                        i = call.args.index(arg) + (1 if ps[:1] == ['self'] else 0)
                        t = ps[i] if i < len(ps) else None
                    return uses(k, t, f, depth + 1) if t else [(m, call)]
        return [(m, call)]

    def uses(m, name, f, depth):
        r = []
        if depth > 8:
            return [(m, f or m.tree.body[0])]
        scope = f if f is not None else m.tree
        for n in ast.walk(scope):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                r += sinks(m, n, depth)
        if f is None:       # module-level name used elsewhere
            for k in mods:
                if k is not m:
                    for n in ast.walk(k.tree):
                        if (k.dotted(n) if isinstance(n, (ast.Name, ast.Attribute)) else None) == m.name + '.' + name and isinstance(n.ctx, ast.Load):
                            r += sinks(k, n, depth)
        return r

    def tokens(m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr in NARROW and isinstance(n.ctx, ast.Load):
                yield n
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and m.alias.get(n.id, '').split('.')[-1] in NARROW:
                yield n
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in NSTR:
                p = m.parent.get(n)
                if isinstance(p, ast.keyword) and p.arg and 'dtype' in p.arg or isinstance(p, ast.Call) and last(m, p) in ('astype', 'dtype', 'view', 'asarray', 'array', 'convert_element_type', 'zeros', 'ones', 'full', 'empty', 'getattr') \
                        or n.value in NARROW and not isinstance(p, (ast.Expr, ast.Compare)):
                    yield n

    def narrowing():
        ntok = 0
        for m in mods:
            bad = 0
            for n in tokens(m):
                ntok += 1
                for k, s in sinks(m, n):
                    if file_only(k, s):
                        ctx.ob('narrowed only for the file: %s' % k.name, True, ast.unparse(s), k.at(s))
                    else:
                        bad += 1
                        ctx.ob('no narrowing: %s' % k.name, False, 'reduced precision %s reaches %s' % (ast.unparse(n), ast.unparse(s)), k.at(s))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and last(m, n) in NARROWOPS:
                    bad += 1
                    ctx.ob('no narrowing: %s' % m.name, False, ast.unparse(n), m.at(n))
            if not bad:
                ctx.ob('no narrowing: %s' % m.name, True, 'no reduced-precision type reaches a conversion', '%s:1' % m.name)
        ctx.assumptions.append('%d modules, %d occurrences of reduced-precision types followed; arrays without an explicit type get the default (double) precision; types taken from other arrays (dtype=x.dtype) are those of package data' % (len(mods), ntok))
    ctx.scenario('switch', switch)
    ctx.scenario('narrowing', narrowing)
