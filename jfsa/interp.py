"""Abstract interpreter over the Python syntax tree.

Control flow is *joined* (gated phi values); loops whose trip count is a generic
size are summarised once with fresh head values.  Nothing from the analysed
repository is imported or executed.
"""
import ast
import os
from .expr import *
from . import expr as X
from . import arr as A
from .arr import Arr, Axis, ShapeError, Unmodelled, PIdx, CIdx

REPO = os.environ.get('JFSA_REPO', '/repo')


class Broken(Exception):
    """analysis-broken: anchor vanished / construct not modelled"""


class ProgramError(Exception):
    """The analysed program certainly fails here for generic inputs."""
    def __init__(self, msg, where=None):
        super().__init__(msg)
        self.where = where


# ------------------------------------------------------------------ values
class Heap:
    pass


class Env(Heap):
    def __init__(self, interp, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.nonlocals = {}
        interp.register(self)

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = dict(s)

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e, e.vars[name]
            e = e.parent
        return None, None


class PList(Heap):
    def __init__(self, interp, items=()):
        self.items = list(items)
        interp.register(self)

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items = list(s)


class GSeg:
    """segment of a list produced by a generic-length loop: value(i) for i < n"""
    def __init__(self, n, var, values):
        self.n = num(n)
        self.var = var
        self.values = list(values)


class PDict(Heap):
    def __init__(self, interp, d=()):
        self.d = dict(d)
        interp.register(self)

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = dict(s)


class Inst(Heap):
    def __init__(self, interp, cls, fields=()):
        self.cls = cls
        self.f = dict(fields)
        interp.register(self)

    def snap(self):
        return dict(self.f)

    def restore(self, s):
        self.f = dict(s)


class Func:
    def __init__(self, node, env, module, name, cls=None, defaults=(), kwdefaults=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.attrs = {}

    def __repr__(self):
        return 'Func(%s)' % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Native:
    def __init__(self, name, fn, attrs=None):
        self.name = name
        self.fn = fn
        self.attrs = attrs or {}

    def __repr__(self):
        return 'Native(%s)' % self.name


class Cls:
    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.dataclass = False
        self.nt = False
        self.fields = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None


class Mod:
    def __init__(self, name, env):
        self.name = name
        self.env = env


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Ph:
    """gated value"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Opq:
    """value of which only the provenance is known"""
    def __init__(self, desc, data=None):
        self.desc = desc
        self.data = data

    def __repr__(self):
        return 'Opq(%s)' % self.desc


class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class NonZero:
    def __init__(self, mask):
        self.mask = mask


class ExcVal:
    def __init__(self, name, args, node=None):
        self.name, self.args, self.node = name, args, node


class NativeObj(Heap):
    """heap object with python-side model; state in self.s (dict)"""
    def __init__(self, interp, kind, **s):
        self.kind = kind
        self.s = dict(s)
        interp.register(self)

    def snap(self):
        return dict(self.s)

    def restore(self, s):
        self.s = dict(s)


class Outcome:
    def __init__(self, kind, val=None):
        self.kind = kind
        self.val = val


class _LoopNext(ast.stmt):
    _fields = ()


class _LoopEnd(ast.stmt):
    _fields = ()


UNDEF = object()


def pyint(e):
    """E -> python int when constant"""
    if isinstance(e, E):
        n = norm(e)
        if n.op == 'num':
            f = n.args[0]
            return int(f) if f.denominator == 1 else float(f)
        return n
    return e


class LoopRec:
    def __init__(self, node, where):
        self.node = node
        self.where = where
        self.entry = {}
        self.head = {}
        self.next = {}
        self.guard = None
        self.breaks = []
        self.names = {}


_modcache = {}


def parse_file(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _modcache:
        with open(path) as f:
            src = f.read()
        _modcache[k] = ast.parse(src, path)
    return _modcache[k]


EXC_PARENTS = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'NotImplementedError': 'RuntimeError',
               'ModuleNotFoundError': 'ImportError', 'FileNotFoundError': 'OSError', 'ZeroDivisionError': 'ArithmeticError',
               'FloatingPointError': 'ArithmeticError', 'UnboundLocalError': 'NameError', 'RecursionError': 'RuntimeError'}


def exc_of(ex):
    """the exception value behind an analysed program error"""
    if isinstance(ex, ProgramRaise) and isinstance(ex.exc, ExcVal):
        return ex.exc
    if isinstance(ex, ProgramAttr):
        return ExcVal('AttributeError', (str(ex),))
    m = str(ex)
    if 'KeyError' in m or 'missing key' in m:
        return ExcVal('KeyError', (m,))
    if 'index out of range' in m or 'out of bounds' in m:
        return ExcVal('IndexError', (m,))
    if m.startswith('name ') and 'not defined' in m:
        return ExcVal('NameError', (m,))
    if 'argument' in m or 'not callable' in m:
        return ExcVal('TypeError', (m,))
    if 'unpack' in m:
        return ExcVal('ValueError', (m,))
    return ExcVal('ProgramError', (m,))


def handler_matches(h, exc):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    names = {ast.unparse(t).split('.')[-1] for t in ts}
    if names & {'Exception', 'BaseException'}:
        return True
    n = exc.name if isinstance(exc, ExcVal) else ''
    while n:
        if n in names:
            return True
        n = EXC_PARENTS.get(n)
    return False


def may_exit(stmts):
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Break, ast.Continue, ast.Raise)):
            return True
        if isinstance(s, ast.If) and (may_exit(s.body) or may_exit(s.orelse)):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if any(isinstance(x, (ast.Return, ast.Raise)) for x in _walk_nofunc(s)):
                return True
        if isinstance(s, ast.With) and may_exit(s.body):
            return True
        if isinstance(s, ast.Match) and any(may_exit(c.body) for c in s.cases):
            return True
        if isinstance(s, ast.Try) and (may_exit(s.body) or may_exit(s.finalbody) or may_exit(s.orelse)
                                       or any(may_exit(h.body) for h in s.handlers)):
            return True
    return False


def is_generator(node):
    if not hasattr(node, '_gen'):
        node._gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_nofunc(node))
    return node._gen


def _walk_nofunc(n):
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield c
        yield from _walk_nofunc(c)


def rotated(st):
    """`while True: A; if C: break; B`  ->  `A; while not C: B; A`  (no other exits of the loop)"""
    if hasattr(st, '_rot'):
        return st._rot
    st._rot = None
    if not (isinstance(st.test, ast.Constant) and st.test.value) or st.orelse:
        return None
    own = lambda n: _own_jumps(n)
    for j, x in enumerate(st.body):
        js = own(x)
        if not js:
            continue
        post = []
        if isinstance(x, ast.If) and x.body and isinstance(x.body[-1], ast.Break) and not any(own(y) for y in x.body[:-1]):
            post = list(x.body[:-1])
            rest = list(x.orelse) + st.body[j + 1:]
            test = ast.UnaryOp(op=ast.Not(), operand=x.test)
        elif isinstance(x, ast.If) and x.orelse and isinstance(x.orelse[-1], ast.Break) and not any(own(y) for y in x.orelse[:-1]):
            post = list(x.orelse[:-1])
            rest = list(x.body) + st.body[j + 1:]
            test = x.test
        else:
            return None
        pre = st.body[:j]
        if any(isinstance(q, (ast.Break, ast.Return)) for y in rest for q in own(y)) or (
                pre and any(isinstance(q, ast.Continue) for y in rest for q in own(y))):
            return None
        ast.copy_location(test, x)
        w = ast.copy_location(ast.While(test=test, body=(rest + pre) or [ast.copy_location(ast.Pass(), x)], orelse=[]), st)
        w._rot = None
        st._rot = list(pre) + [w] + post
        return st._rot
    return None


def _own_jumps(n):
    """break/continue/return statements that leave the enclosing loop body"""
    if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
        return [n]
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return []
    out = []
    for c in ast.iter_child_nodes(n):
        out += _own_jumps(c)
    if isinstance(n, (ast.For, ast.While)):
        out = [q for q in out if isinstance(q, ast.Return)] + [q for y in n.orelse for q in _own_jumps(y) if not isinstance(q, ast.Return)]
    return out


class Interp:
    def __init__(self, repo=None, config=None):
        self.repo = repo or REPO
        self.config = config or {}
        self.heap = []
        self.modules = {}
        self.events = []
        self.handlers = []
        self.cur_breaks = []
        self.loops = []
        self.assumed = {}       # key -> value (ONE/ZERO) for indicator atoms
        self.assumed_atoms = {}
        self.stack = []
        self.functions = set()  # analysed functions (module:qualname)
        self.callsites = 0
        self.lenient = 0
        self.overrides = {}     # qualified repo function name -> Native
        self.ext_overrides = {} # external dotted name -> callable
        self.depth = 0
        self.argw = {}
        self.steps = 0
        self.trace_reads = None
        self.opq_ctr = 0
        self.jitted = 0
        self.files_open = {}
        self.tracers = set()
        self.all_tracers = set()
        self.jit_tracing = 0
        self.fx = None          # effects monitor
        self.vw = {}            # id of a view -> (view, base, take, put)
        self.vb = {}            # id of a base -> its views
        self.now = {}           # id of an array stored into -> (array, its value after the store)
        from . import models
        self.models = models

    # -------------------------------------------------- infrastructure
    def register(self, h):
        self.heap.append(h)

    def where(self, node=None):
        if self.stack:
            m, fn, cur = self.stack[-1]
            n = node if node is not None and hasattr(node, 'lineno') else cur
            return '%s:%s (%s)' % (m, getattr(n, 'lineno', '?'), fn)
        return '<top>'

    def event(self, kind, **data):
        data['kind'] = kind
        data['where'] = self.where(data.get('node'))
        self.events.append(data)

    def tracing_of(self, a):
        """does the array depend on an active differentiation variable?"""
        if not self.tracers:
            return False
        if isinstance(a, E):
            return X.mentions(norm(a), self.tracers)
        if isinstance(a, Arr):
            return any(X.mentions(norm(a.get(idx)), self.tracers) for _, idx, _ in a.cases())
        return False

    def unmodelled(self, msg, node=None):
        raise Unmodelled('%s: %s' % (self.where(node), msg))

    def snapshot(self):
        return (len(self.heap), [h.snap() for h in self.heap], dict(self.assumed), dict(self.assumed_atoms))

    def restore(self, s):
        n, snaps, asm, asma = s
        for h, x in zip(self.heap[:n], snaps):
            h.restore(x)
        self.assumed = dict(asm)
        self.assumed_atoms = dict(asma)

    def join_states(self, c, s1, s2, n0):
        """current heap has all objects; s1 then-state, s2 else-state"""
        n1, sn1, a1, aa1 = s1
        n2, sn2, a2, aa2 = s2
        for i, h in enumerate(self.heap):
            if i < n0:
                x, y = sn1[i], sn2[i]
                if x is y:
                    continue
                h.restore(self.join_snap(c, h, x, y))
            elif i < n1:
                h.restore(sn1[i])
            elif i < n2:
                h.restore(sn2[i])
        self.assumed = {k: v for k, v in a1.items() if k in a2 and a2[k] is v}
        self.assumed_atoms = {k: v for k, v in aa1.items() if k in aa2 and aa2[k] is v}

    def join_snap(self, c, h, x, y):
        if isinstance(x, list):
            if len(x) == len(y) and all(isinstance(p, GSeg) == isinstance(q, GSeg) for p, q in zip(x, y)):
                return [self.join(c, p, q) for p, q in zip(x, y)]
            k = 0
            while k < min(len(x), len(y)) and x[k] is y[k]:
                k += 1
            if len(x) == len(y):
                return [self.join(c, p, q) for p, q in zip(x, y)]
            raise Unmodelled('%s: list length depends on a run-time condition' % self.where())
        out = {}
        for k in list(x.keys()) + [k for k in y.keys() if k not in x]:
            if k in x and k in y:
                out[k] = self.join(c, x[k], y[k])
            else:
                v = x[k] if k in x else y[k]
                out[k] = Ph(c, v, UNDEF) if k in x else Ph(c, UNDEF, v)
        return out

    def join(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (bool, int, float, str, type(None))) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, (E, int, float, Fraction)) and isinstance(b, (E, int, float, Fraction)) \
                and not (isinstance(a, bool) != isinstance(b, bool) and False):
            return pyint(ite(c, num(a), num(b)))
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.join_arr(c, a, b)
        if isinstance(a, Arr) and isinstance(b, (int, float, E)):
            if a.ndim == 0:
                return ite(c, a.get([]), num(b))
        if isinstance(b, Arr) and isinstance(a, (int, float, E)):
            if b.ndim == 0:
                return ite(c, num(a), b.get([]))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join(c, p, q) for p, q in zip(a, b))
        if isinstance(a, PList) and isinstance(b, PList) and len(a.items) == len(b.items):
            return PList(self, [self.join(c, p, q) for p, q in zip(a.items, b.items)])
        if isinstance(a, Ext) and isinstance(b, Ext) and a == b:
            return a
        if isinstance(a, Opq) and isinstance(b, Opq) and a.desc == b.desc and a.data is b.data:
            return a
        if isinstance(a, Opq) and isinstance(b, Opq) and a.desc in ('str', 'time') and b.desc == a.desc:
            return a
        if isinstance(a, GSeg) and isinstance(b, GSeg) and len(a.values) == len(b.values) and equal(a.n, b.n):
            return GSeg(a.n, a.var, [self.join(c, x, self.subst_val(y, {b.var: a.var})) for x, y in zip(a.values, b.values)])
        return Ph(c, a, b)

    def join_arr(self, c, a, b):
        if a.ndim != b.ndim:
            return Ph(c, a, b)
        axes = []
        for p, q in zip(a.axes, b.axes):
            if A.same_size(p.size, q.size):
                axes.append(A.unify_axis(p, q))
            else:
                axes.append(Axis(ite(c, p.size, q.size)))
        r = Arr(axes, lambda idx: ite(c, a.get(idx), b.get(idx)), a.dtype if a.dtype == b.dtype else 'f', a.lib)
        return r

    # -------------------------------------------------- truth
    def truth(self, v, node=None):
        """-> True / False / E (symbolic 0/1)"""
        if isinstance(v, (bool, int, float, str)) or v is None:
            return bool(v)
        if isinstance(v, PList):
            if any(isinstance(i, GSeg) for i in v.items):
                self.unmodelled('truth of generic list', node)
            return bool(v.items)
        if isinstance(v, PDict):
            return bool(v.d)
        if isinstance(v, (tuple, set, frozenset, dict)):
            return bool(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                v = v.get([])
            elif all(A.is_one(a) for a in v.axes):
                v = v.get([ZERO] * v.ndim)
            else:
                raise ProgramError('truth value of an array with more than one element', self.where(node))
        if isinstance(v, E):
            n = self.under(v)
            if n.op == 'num':
                return n.args[0] != 0
            if is_ind(n):
                return n
            ts = nf(n)
            # boolean polynomial over indicators stays as is; otherwise v != 0
            if all(all(is_ind(f) for f, _ in t.f) for t in ts):
                return n
            return norm(sub(1, eq(n, 0)))
        if isinstance(v, Ph):
            return self._ph_truth(v, node)
        if isinstance(v, Opq):
            if v.desc == 'bool':
                return v.data
            self.unmodelled('truth of opaque value %s' % v.desc, node)
        return True

    def _ph_truth(self, v, node):
        if v.a is UNDEF or v.b is UNDEF:
            self.unmodelled('possibly unbound value', node)
        a, b = self.truth(v.a, node), self.truth(v.b, node)
        if a is b:
            return a
        r = self.under(ite(v.c, num(a), num(b)))
        return (r.args[0] != 0) if r.op == 'num' else r

    def under(self, e):
        """normal form under the assumed facts"""
        n = norm(e)
        if self.assumed_atoms and n.op != 'num':
            m = {a: v for a, v in self.assumed_atoms.items()}
            if X.contains(n, lambda z: z in m):
                n = norm(X.replace_atoms(n, m))
            else:
                # compare through keys
                m2 = {}
                for z in X.walk(n):
                    if is_ind(z) and key(z) in self.assumed:
                        m2[z] = self.assumed[key(z)]
                if m2:
                    n = norm(X.replace_atoms(n, m2))
        return n

    def assume(self, c, val=True):
        if not isinstance(c, E):
            return
        n = norm(c)
        if n.op == 'num':
            return
        ts = nf(n)
        if is_ind(n):
            v = ONE if val else ZERO
            self.assumed[key(n)] = v
            self.assumed_atoms[n] = v
            return
        # 1 - x
        if len(ts) == 2:
            consts = [t for t in ts if not t.f]
            rest = [t for t in ts if t.f]
            if consts and rest and consts[0].c == 1 and rest[0].c == -1 and len(rest[0].f) == 1 and not rest[0].b and is_ind(rest[0].f[0][0]):
                self.assume(rest[0].f[0][0], not val)
                return
        # product of indicators true => each true
        if val and len(ts) == 1 and ts[0].c == 1 and not ts[0].b and all(is_ind(f) for f, _ in ts[0].f):
            for f, _ in ts[0].f:
                self.assume(f, True)

    # -------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            f = os.path.join(path, '__init__.py')
            is_pkg = True
        else:
            f = path + '.py'
            is_pkg = False
        if not os.path.exists(f):
            if os.path.isdir(path):
                m = Mod(name, Env(self, None, name))
                self.modules[name] = m
                return m
            raise Broken('module %s not found at %s' % (name, f))
        env = Env(self, None, name)
        m = Mod(name, env)
        env.vars['__name__'] = name
        env.vars['__file__'] = Opq('str')
        self.modules[name] = m
        tree = parse_file(f)
        rel = os.path.relpath(f, self.repo)
        env.path = rel
        self.stack.append((rel, '<module>', tree))
        try:
            for st in tree.body:
                self.exec_top(st, env)
        finally:
            self.stack.pop()
        return m

    def exec_top(self, st, env):
        try:
            out = self.exec_block([st], env)
        except (Unmodelled, ShapeError, ProgramError, Broken) as ex:
            # module-level statement without a model: its targets become opaque
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                env.vars[st.name] = Opq('toplevel:%s:%s' % (st.name, ex))
                return
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env.vars[n.id] = Opq('toplevel:%s:%s' % (n.id, ex))
            return
        if out is not None and out.kind == 'raise':
            return

    def is_repo_module(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        return os.path.isdir(p) or os.path.exists(p + '.py')

    def import_(self, name):
        if self.is_repo_module(name) and name.split('.')[0] in ('jax_fem', 'applications', 'tests'):
            parts = name.split('.')
            for k in range(1, len(parts) + 1):
                self.module('.'.join(parts[:k]))
            return self.module(name)
        return Ext(name)

    def get_from_module(self, m, name):
        if name in m.env.vars:
            return m.env.vars[name]
        sub_ = m.name + '.' + name
        if self.is_repo_module(sub_):
            return self.module(sub_)
        raise Broken('%s has no attribute %s' % (m.name, name))

    def get(self, modname, name):
        m = self.module(modname)
        v = self.get_from_module(m, name)
        if isinstance(v, Opq):
            raise Broken('%s.%s is not analysable: %s' % (modname, name, v.desc))
        return v

    # -------------------------------------------------- statements
    def exec_block(self, stmts, env, top=False):
        i = 0
        stmts = list(stmts)
        while i < len(stmts):
            st = stmts[i]
            self.steps += 1
            if self.steps > 400000:
                raise Broken('analysis step budget exceeded')
            if self.stack and hasattr(st, 'lineno'):
                m, f, _ = self.stack[-1]
                self.stack[-1] = (m, f, st)
            if isinstance(st, ast.If):
                c = self.truth(self.eval(st.test, env), st)
                if not isinstance(c, E):
                    br = st.body if c else st.orelse
                    if may_exit(br):
                        return self.exec_block(list(br) + stmts[i + 1:], env, top)
                    out = self.exec_block(br, env)
                    if out is not None:
                        return out
                    i += 1
                    continue
                if may_exit(st.body) or may_exit(st.orelse):
                    rest = stmts[i + 1:]
                    return self.branch(c, list(st.body) + rest, list(st.orelse) + rest, env, top, st)
                out = self.branch(c, st.body, st.orelse, env, False, st)
                if out is not None:
                    return out
                i += 1
                continue
            if isinstance(st, ast.Continue):
                for j in range(i + 1, len(stmts)):
                    if isinstance(stmts[j], (_LoopNext, _LoopEnd)):
                        i = j
                        break
                else:
                    return Outcome('continue')
                continue
            if isinstance(st, ast.Break):
                return Outcome('break')
            if isinstance(st, _LoopEnd):
                i += 1
                continue
            if isinstance(st, _LoopNext):
                if st.items is None:
                    out = self.while_loop(st.loop, st.env)
                else:
                    out = self.run_loop(st.loop, st.items, st.env)
                if out is not None:
                    return out
                i += 1
                continue
            out = self.exec_stmt(st, env)
            if out is not None:
                return out
            i += 1
        return None

    def branch(self, c, s1, s2, env, top, node):
        s0 = self.snapshot()
        n0 = s0[0]
        self.assume(c, True)
        o1 = self._try_branch(s1, env)
        st1 = self.snapshot()
        self.restore(s0)
        self.assume(c, False)
        o2 = self._try_branch(s2, env)
        st2 = self.snapshot()
        inloop = any(isinstance(x, (_LoopNext,)) for x in s1 + s2)
        looprec = any(isinstance(x, (_LoopEnd,)) for x in s1 + s2)
        if o1 is not None and o1.kind == 'raise' and (o2 is None or o2.kind != 'raise'):
            self.caught_here(o1.val, node)
            self.event('guard', cond=norm(sub(1, c)), exc=o1.val, node=node)
            # heap objects created in the raising branch are dead
            return o2
        if o2 is not None and o2.kind == 'raise' and (o1 is None or o1.kind != 'raise'):
            self.caught_here(o2.val, node)
            self.restore(st1)
            self.event('guard', cond=c, exc=o2.val, node=node)
            return o1
        if o1 is not None and o2 is not None and o1.kind == 'raise':
            self.restore_join(c, st1, st2, n0)
            return o1
        k1 = o1.kind if o1 else None
        k2 = o2.kind if o2 else None
        if inloop:
            if k1 == 'break':
                o1, k1 = None, None
            if k2 == 'break':
                o2, k2 = None, None
        if looprec and {k1, k2} <= {None, 'break'} and k1 != k2:
            self.restore_join(c, st1, st2, n0)
            if k1 == 'break':
                self.cur_breaks.append(c)
            else:
                self.cur_breaks.append(norm(sub(1, c)))
            return None
        self.restore_join(c, st1, st2, n0)
        if k1 is None and k2 is None:
            return None
        if k1 == k2 == 'return':
            return Outcome('return', self.join(c, o1.val, o2.val))
        if k1 == k2:
            return o1
        if top and {k1, k2} == {None, 'return'}:
            return Outcome('return', self.join(c, o1.val if o1 else None, o2.val if o2 else None))
        self.unmodelled('branches leave the block differently (%s/%s)' % (k1, k2), node)

    def restore_join(self, c, st1, st2, n0):
        self.join_states(c, st1, st2, n0)

    def _try_branch(self, stmts, env):
        try:
            return self.exec_block(stmts, env, True if False else False)
        except ProgramError as ex:
            return Outcome('raise', exc_of(ex))

    def caught_here(self, exc, node):
        """a run-time condition decides whether an exception is raised inside a try that handles it"""
        for hs in self.handlers:
            if any(handler_matches(h, exc) for h in hs):
                self.unmodelled('exception raised and handled under a run-time condition', node)

    def exec_stmt(self, st, env):
        t = type(st)
        if t is ast.Expr:
            if isinstance(st.value, ast.Constant):
                return None
            self.eval(st.value, env)
            return None
        if t is ast.Assign:
            v = self.eval(st.value, env)
            for tg in st.targets:
                self.assign(tg, v, env)
            return None
        if t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.eval(st.value, env), env)
            return None
        if t is ast.AugAssign:
            self.augassign(st, env)
            return None
        if t is ast.Return:
            return Outcome('return', self.eval(st.value, env) if st.value is not None else None)
        if t is ast.FunctionDef:
            self.def_function(st, env)
            return None
        if t is ast.ClassDef:
            self.def_class(st, env)
            return None
        if t is ast.For:
            it = self.eval(st.iter, env)
            return self.for_loop(st, it, env)
        if t is ast.While:
            return self.while_loop(st, env)
        if t is ast.Assert:
            try:
                c = self.truth(self.eval(st.test, env), st)
            except Unmodelled:
                self.event('assert', cond=None, node=st)
                return None
            if c is True:
                return None
            if c is False:
                return Outcome('raise', ExcVal('AssertionError', (), st))
            self.event('assert', cond=c, node=st)
            self.assume(c, True)
            return None
        if t is ast.Raise:
            ex = None
            if st.exc is not None:
                self.lenient += 1
                try:
                    ex = self.eval(st.exc, env)
                except (Unmodelled, ShapeError):
                    ex = None
                finally:
                    self.lenient -= 1
            if not isinstance(ex, ExcVal):
                ex = ExcVal('Exception', (), st)
            ex.node = st
            return Outcome('raise', ex)
        if t is ast.Pass:
            return None
        if t in (ast.Import,):
            for a in st.names:
                if a.asname:
                    env.vars[a.asname] = self.import_(a.name)
                else:
                    top = a.name.split('.')[0]
                    self.import_(a.name)
                    env.vars[top] = self.import_(top)
            return None
        if t is ast.ImportFrom:
            base = st.module or ''
            if st.level:
                pk = env
                while pk.parent is not None:
                    pk = pk.parent
                parts = pk.module.split('.')
                path = os.path.join(self.repo, *parts)
                if not os.path.isdir(path):
                    parts = parts[:-1]
                for _ in range(st.level - 1):
                    parts = parts[:-1]
                base = '.'.join(parts + ([base] if base else []))
            m = self.import_(base)
            for a in st.names:
                if a.name == '*':
                    if isinstance(m, Mod):
                        env.vars.update({k: v for k, v in m.env.vars.items() if not k.startswith('_')})
                    continue
                if isinstance(m, Mod):
                    env.vars[a.asname or a.name] = self.get_from_module(m, a.name)
                else:
                    env.vars[a.asname or a.name] = Ext(m.name + '.' + a.name)
            return None
        if t is ast.Try:
            return self.exec_try(st, env)
        if t is ast.With:
            return self.exec_with(list(st.items), st, env)
        if t is ast.Match:
            return self.exec_match(st, env)
        if t is ast.Global:
            e = env
            while e.parent is not None:
                e = e.parent
            for n in st.names:
                env.nonlocals[n] = e
            return None
        if t is ast.Nonlocal:
            for n in st.names:
                e, _ = env.parent.lookup(n)
                env.nonlocals[n] = e
            return None
        if t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    env.vars.pop(tg.id, None)
                elif isinstance(tg, ast.Attribute):
                    o = self.eval(tg.value, env)
                    if isinstance(o, Inst):
                        o.f.pop(tg.attr, None)
                    else:
                        self.unmodelled('del attribute', st)
                elif isinstance(tg, ast.Subscript):
                    o = self.eval(tg.value, env)
                    k = self.eval(tg.slice, env)
                    if isinstance(o, PDict):
                        if k not in o.d:
                            raise ProgramError('del of missing key %r' % (k,), self.where(st))
                        if self.fx:
                            self.fx.touch(o, st)
                        del o.d[k]
                    elif isinstance(o, PList) and isinstance(pyint(k), int) and not any(isinstance(x, GSeg) for x in o.items):
                        k = pyint(k)
                        if not -len(o.items) <= k < len(o.items):
                            raise ProgramError('list index out of range', self.where(st))
                        if self.fx:
                            self.fx.touch(o, st)
                        del o.items[k]
                    else:
                        self.unmodelled('del subscript', st)
            return None
        self.unmodelled('statement %s' % t.__name__, st)

    def exec_with(self, items, st, env):
        if not items:
            return self.exec_block(st.body, env)
        item = items[0]
        v = self.eval(item.context_expr, env)
        if isinstance(v, Opq) and v.desc == 'ctxgen':
            fn, args, kw = v.data
            hold = []
            frames = list(self.stack)

            def body(val):
                if hold:
                    self.unmodelled('context manager yields more than once', st)
                hold.append(None)
                here, self.stack = self.stack, list(frames)
                try:
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, val, env)
                    out = self.exec_with(items[1:], st, env)
                finally:
                    self.stack = here
                if out is not None and out.kind == 'raise':
                    raise ProgramRaise(out.val, self.where(getattr(out.val, 'node', None)))
                hold[0] = out
            self.call_func(fn, args, kw, st, ctx=body)
            if not hold:
                raise ProgramError("generator didn't yield", self.where(st))
            return hold[0]
        if isinstance(v, Inst) and v.cls.find('__enter__')[1] is not None:
            x = self.call(self.getattr(v, '__enter__', st), [], {}, st)
            ex = self.getattr(v, '__exit__', st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, x, env)
            try:
                out = self.exec_with(items[1:], st, env)
            except ProgramError as e:
                out = Outcome('raise', exc_of(e))
            if out is not None and out.kind == 'raise':
                r = self.call(ex, [Opq('exctype'), out.val, None], {}, st)
                if r is True:
                    return None
                return out
            self.call(ex, [None, None, None], {}, st)
            return out
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        return self.exec_with(items[1:], st, env)

    # -------------------------------------------------- match
    def exec_match(self, st, env):
        v = self.eval(st.subject, env)
        return self.match_cases(v, list(st.cases), st, env)

    def match_cases(self, v, cases, st, env):
        for j, cs in enumerate(cases):
            c = self.match_pattern(cs.pattern, v, env, st)
            if c is False:
                continue
            if cs.guard is not None and c is True:
                c = self.truth(self.eval(cs.guard, env), st)
                if c is False:
                    continue
            elif cs.guard is not None:
                self.unmodelled('guarded case under a run-time condition', st)
            if c is True:
                return self.exec_block(cs.body, env)
            if may_exit([st]):
                self.unmodelled('match on a run-time value leaves the block', st)
            s0 = self.snapshot()
            self.assume(c, True)
            o1 = self._try_branch(cs.body, env)
            s1 = self.snapshot()
            self.restore(s0)
            self.assume(c, False)
            o2 = self.match_cases(v, cases[j + 1:], st, env)
            s2 = self.snapshot()
            if o1 is not None or o2 is not None:
                self.unmodelled('match on a run-time value leaves the block', st)
            self.restore_join(c, s1, s2, s0[0])
            return None
        return None

    def match_pattern(self, p, v, env, st):
        if isinstance(v, Ph):
            self.unmodelled('match on a value chosen at run time', st)
        if isinstance(p, ast.MatchValue):
            op = ast.Eq()
            return self.truth(self.models.compare(self, op, v, self.eval(p.value, env), st), st)
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            c = True
            if p.pattern is not None:
                c = self.match_pattern(p.pattern, v, env, st)
            if c is not False and p.name is not None:
                self.store_name(p.name, v, env)
            return c
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                c = self.match_pattern(q, v, env, st)
                if c is not False:
                    if c is not True and q is not p.patterns[-1]:
                        self.unmodelled('alternative patterns on a run-time value', st)
                    return c
            return False
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, PDict):
                return False
            seen = []
            for k, q in zip(p.keys, p.patterns):
                kk = self.hashable(self.eval(k, env), st)
                if kk not in v.d:
                    return False
                seen.append(kk)
                c = self.match_pattern(q, v.d[kk], env, st)
                if c is False:
                    return False
                if c is not True:
                    self.unmodelled('nested pattern on a run-time value', st)
            if p.rest is not None:
                self.store_name(p.rest, PDict(self, {k: x for k, x in v.d.items() if k not in seen}), env)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, PList)):
                return False
            items = self.iter_concrete(v, st)
            star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                k = star[0]
                after = len(p.patterns) - k - 1
                if len(items) < len(p.patterns) - 1:
                    return False
                pairs = list(zip(p.patterns[:k], items[:k])) + list(zip(p.patterns[k + 1:], items[len(items) - after:]))
                if p.patterns[k].name is not None:
                    self.store_name(p.patterns[k].name, PList(self, items[k:len(items) - after]), env)
            else:
                if len(items) != len(p.patterns):
                    return False
                pairs = list(zip(p.patterns, items))
            for q, x in pairs:
                c = self.match_pattern(q, x, env, st)
                if c is False:
                    return False
                if c is not True:
                    self.unmodelled('nested pattern on a run-time value', st)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            f = self.models.BUILTINS.get('isinstance')
            return self.truth(self.call(f, [v, self.eval(p.cls, env)], {}, st), st)
        self.unmodelled('pattern %s' % type(p).__name__, st)

    def exec_try(self, st, env):
        s0 = self.snapshot()
        if st.handlers:
            self.handlers.append(st.handlers)
        try:
            out = self.exec_block(st.body, env)
        except (ProgramError,) as ex:
            out = Outcome('raise', exc_of(ex))
        finally:
            if st.handlers:
                self.handlers.pop()
        imp = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in st.body)
        if imp and self.config.get('imports_fail'):
            names = set()
            for x in st.body:
                if isinstance(x, ast.Import):
                    names |= {a.name.split('.')[0] for a in x.names}
                elif isinstance(x, ast.ImportFrom):
                    names.add((x.module or '').split('.')[0])
            if names & set(self.config['imports_fail']):
                self.restore(s0)
                out = Outcome('raise', ExcVal('ImportError', ()))
        if out is not None and out.kind == 'raise' and st.handlers:
            for h in st.handlers:
                if handler_matches(h, out.val):
                    if h.name:
                        env.vars[h.name] = out.val
                    out = self.exec_block(h.body, env)
                    break
        elif out is None and st.orelse:
            out = self.exec_block(st.orelse, env)
        if st.finalbody:
            o2 = self.exec_block(st.finalbody, env)
            if o2 is not None:
                return o2
        return out

    def def_function(self, st, env, cls=None):
        f = self.make_func(st, env, cls)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env)
            v = self.apply_decorator(dv, v, st)
        if cls is None:
            self.store_name(st.name, v, env)
        return v

    def make_func(self, st, env, cls=None):
        a = st.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(st, 'name', '<lambda>')
        e = env
        while e.parent is not None:
            e = e.parent
        return Func(st, env, e.module, name, cls, defaults, kwd)

    def apply_decorator(self, d, v, node):
        if isinstance(d, Native) and d.name == 'wraps':
            return d.fn(self, [v], {}, node)
        if isinstance(d, Ext):
            if d.name in ('dataclasses.dataclass',):
                v.dataclass = True
                return v
            if d.name == 'staticmethod':
                return ('static', v)
            if d.name == 'property':
                return ('property', v)
            if d.name == 'classmethod':
                return ('classm', v)
        return self.call(d, [v], {}, node)

    def def_class(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        e = env
        while e.parent is not None:
            e = e.parent
        cls = Cls(st.name, bases, {}, e.module, st)
        if any(isinstance(b, Ext) and b.name == 'typing.NamedTuple' for b in bases):
            cls.dataclass = cls.nt = True
            cls.bases = [b for b in bases if not (isinstance(b, Ext) and b.name == 'typing.NamedTuple')]
        cenv = Env(self, env, env.module)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                v = self.def_function(s, env, cls)
                cls.ns[s.name] = v
                cenv.vars[s.name] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                d = self.eval(s.value, cenv) if s.value is not None else UNDEF
                cls.fields.append((s.target.id, d))
                if d is not UNDEF and not (isinstance(d, Opq) and d.desc == 'default_factory'):
                    cls.ns[s.target.id] = d
            elif isinstance(s, ast.Assign):
                v = self.eval(s.value, cenv)
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        cls.ns[t.id] = v
                        cenv.vars[t.id] = v
            elif isinstance(s, (ast.Expr, ast.Pass)):
                pass
            else:
                self.exec_block([s], cenv)
                cls.ns.update(cenv.vars)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.apply_decorator(self.eval(d, env), v, st)
        self.store_name(st.name, v, env)

    def store_name(self, name, v, env):
        e = env.nonlocals.get(name, env)
        e.vars[name] = v

    # -------------------------------------------------- assignment
    def assign(self, tg, v, env):
        if isinstance(tg, ast.Name):
            self.store_name(tg.id, v, env)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            items = self.iter_concrete(v, tg)
            star = [k for k, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(tg.elts) - k - 1
                if len(items) < len(tg.elts) - 1:
                    raise ProgramError('not enough values to unpack', self.where(tg))
                for e, x in zip(tg.elts[:k], items[:k]):
                    self.assign(e, x, env)
                self.assign(tg.elts[k].value, PList(self, items[k:len(items) - after]), env)
                for e, x in zip(tg.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(tg.elts):
                raise ProgramError('cannot unpack %d values into %d targets' % (len(items), len(tg.elts)), self.where(tg))
            for e, x in zip(tg.elts, items):
                self.assign(e, x, env)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env)
            self.setattr(o, tg.attr, v, tg)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env)
            k = self.eval_index(tg.slice, env)
            self.setitem(o, k, v, tg)
        else:
            self.unmodelled('assignment target', tg)

    def setattr(self, o, name, v, node=None):
        if isinstance(o, Inst):
            o.f[name] = v
        elif isinstance(o, Func):
            o.attrs[name] = v
        elif isinstance(o, Native):
            o.attrs[name] = v
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, Mod):
            o.env.vars[name] = v
        elif isinstance(o, NativeObj):
            self.models.nobj_setattr(self, o, name, v, node)
        elif isinstance(o, Ph):
            self.unmodelled('attribute store on gated object', node)
        else:
            self.unmodelled('attribute store on %r' % (o,), node)

    def delattr(self, o, name):
        if isinstance(o, Inst) and name in o.f:
            del o.f[name]
        else:
            raise Unmodelled('delete attribute %s' % name)

    def setitem(self, o, k, v, node=None):
        if isinstance(o, PList):
            k = pyint(k) if not isinstance(k, Slice) else k
            if isinstance(k, int):
                if any(isinstance(x, GSeg) for x in o.items):
                    self.unmodelled('store into generic list', node)
                if not -len(o.items) <= k < len(o.items):
                    raise ProgramError('list assignment index out of range', self.where(node))
                if self.fx:
                    self.fx.touch(o, node)
                o.items[k] = v
                return
            if isinstance(k, Slice) and k.a is None and k.b is None and k.c is None:
                o.items = list(self.iter_concrete(v, node))
                return
            if isinstance(k, E) and getattr(self, 'list_dep_ok', False):
                pass
            self.unmodelled('list store with run-time index', node)
        if isinstance(o, PDict):
            k = self.hashable(k, node)
            if self.fx:
                self.fx.touch(o, node)
            o.d[k] = v
            return
        if isinstance(o, Arr):
            new = self.models.setitem_arr(self, o, k, v, node)
            self.event('inplace', node=node, arr=o)
            if o.lib == 'j':
                raise ProgramError('in-place store into an immutable JAX array', self.where(node))
            self.replace_value(o, new, node)
            return
        if isinstance(o, NativeObj):
            return self.models.nobj_setitem(self, o, k, v, node)
        if isinstance(o, Opq):
            return self.models.opq_setitem(self, o, k, v, node)
        if isinstance(o, (tuple, str)):
            raise ProgramError('item assignment on an immutable %s' % type(o).__name__, self.where(node))
        self.unmodelled('item store on %r' % (o,), node)

    def view(self, base, v, take, put):
        """v shares the memory of the NumPy array base"""
        if isinstance(base, Arr) and isinstance(v, Arr) and v is not base and base.lib == 'n' and v.lib == 'n' \
                and id(v) not in self.vw:
            e = (v, base, take, put)
            self.vw[id(v)] = e
            self.vb.setdefault(id(base), []).append(e)
        return v

    def row_view(self, v, k, x):
        if v.lib == 'n' and isinstance(x, Arr):
            self.view(v, x, lambda b: self.arr_at(b, k), lambda b, w: self.models.setitem_arr(self, b, k, w, None))

    def latest(self, o):
        """the current value of an array that was stored into"""
        while id(o) in self.now and self.now[id(o)][0] is o:
            o = self.now[id(o)][1]
        return o

    def replace_value(self, old, new, node=None):
        """in-place update: every alias of `old` now denotes `new`, and so do the arrays that share its memory"""
        todo, repl = [(old, new)], {}
        while todo:
            o, w = todo.pop(0)
            if id(o) in repl:
                continue
            repl[id(o)] = (o, w)
            e = self.vw.get(id(o))
            if e is not None:
                if id(e[1]) in repl:
                    nb = repl[id(e[1])][1]
                else:
                    nb = e[3](e[1], w)
                    todo.append((e[1], nb))
                ne = (w, nb, e[2], e[3])
                self.vw[id(w)] = ne
                self.vb.setdefault(id(nb), []).append(ne)
            for e in self.vb.get(id(o), ()):
                if id(e[0]) not in repl and e[0] is not w:
                    todo.append((e[0], e[2](w)))
        self.now.update(repl)
        if self.fx:
            for o, w in list(repl.values()):
                self.fx.stored(o, w, node)

        def rep(v, depth=0):
            r = repl.get(id(v))
            if r is not None and r[0] is v:
                return r[1]
            if isinstance(v, tuple) and any(id(x) in repl for x in v):
                return tuple(rep(x) for x in v)
            return v
        for h in self.heap:
            if isinstance(h, Env):
                d = h.vars
            elif isinstance(h, Inst):
                d = h.f
            elif isinstance(h, PDict):
                d = h.d
            elif isinstance(h, NativeObj):
                d = h.s
            elif isinstance(h, PList):
                for i, v in enumerate(h.items):
                    h.items[i] = rep(v)
                continue
            else:
                continue
            for k in list(d):
                v = d[k]
                if id(v) in repl or isinstance(v, tuple):
                    d[k] = rep(v)

    def augassign(self, st, env):
        tg = st.target
        rhs = self.eval(st.value, env)
        if isinstance(tg, ast.Name):
            e, cur = env.lookup(tg.id)
            if e is None:
                raise ProgramError('name %s is not defined' % tg.id, self.where(st))
            if isinstance(cur, PList) and isinstance(st.op, ast.Add):
                self.list_extend(cur, rhs, st)
                return
            if self.aug_container(cur, st, rhs):
                return
            new = self.binop(st.op, cur, rhs, st)
            if isinstance(cur, Arr) and cur.lib == 'n' and isinstance(new, Arr):
                self.replace_value(cur, new, st)
                self.store_name(tg.id, new, env)
            else:
                self.store_name(tg.id, new, env)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env)
            cur = self.getattr(o, tg.attr, st)
            if isinstance(cur, PList) and isinstance(st.op, ast.Add):
                self.list_extend(cur, rhs, st)
                return
            new = self.binop(st.op, cur, rhs, st)
            if isinstance(cur, Arr) and cur.lib == 'n' and isinstance(new, Arr):
                self.replace_value(cur, new, st)
            self.setattr(o, tg.attr, new, st)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env)
            k = self.eval_index(tg.slice, env)
            cur = self.getitem(o, k, st)
            self.setitem(o, k, self.binop(st.op, cur, rhs, st), st)
        else:
            self.unmodelled('augmented assignment', st)

    def aug_container(self, cur, st, rhs):
        """augmented assignments that change a list, dictionary or set in place"""
        if isinstance(cur, PDict) and isinstance(st.op, ast.BitOr) and isinstance(rhs, PDict):
            if self.fx:
                self.fx.touch(cur, st)
            cur.d.update(rhs.d)
            return True
        if isinstance(cur, PList) and isinstance(st.op, ast.Mult):
            if self.fx:
                self.fx.touch(cur, st)
            cur.items = list(self.binop(st.op, cur, rhs, st).items)
            return True
        if isinstance(cur, set) and isinstance(st.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(rhs, (set, frozenset)):
            cur.update(rhs) if isinstance(st.op, ast.BitOr) else cur.intersection_update(rhs) if isinstance(st.op, ast.BitAnd) else cur.difference_update(rhs)
            return True
        return False

    def list_extend(self, lst, v, node):
        if self.fx:
            self.fx.touch(lst, node)
        if isinstance(v, PList):
            lst.items.extend(v.items)
        elif isinstance(v, tuple):
            lst.items.extend(v)
        elif isinstance(v, Arr):
            lst.items.extend(self.iter_items(v, node))
        elif isinstance(v, Opq) and v.desc == 'replist':
            lst.items.append(v)
        else:
            lst.items.extend(self.iter_items(v, node))

    # -------------------------------------------------- loops
    def iter_concrete(self, v, node=None):
        its = self.iter_items(v, node)
        if any(isinstance(x, GSeg) for x in its):
            self.unmodelled('unpacking a sequence of generic length', node)
        return its

    def nt_fields(self, v):
        """field names of a named tuple value, else None"""
        if not isinstance(v, Inst):
            return None
        for c in v.cls.mro():
            if isinstance(c, Cls) and c.nt:
                return [x for x, _ in c.fields]
        return None

    def iter_items(self, v, node=None):
        """list of items; generic segments are GSeg"""
        fs = self.nt_fields(v)
        if fs is not None:
            return [v.f[x] for x in fs]
        if isinstance(v, Inst):
            m, c = v.cls.find('__iter__')
            if c is not None:
                return self.iter_items(self.call(self.bind_member(m, v), [], {}, node), node)
        if isinstance(v, PList):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, PDict):
            return list(v.d.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise ProgramError('iteration over a 0-d array', self.where(node))
            n = pyint(v.axes[0].size)
            if isinstance(n, int):
                out = [self.unbox(A.index_axis(v, 0, k)) if v.axes[0].kind == 'atom' else self.unbox(self.arr_at(v, k)) for k in range(n)]
                for k, x in enumerate(out):
                    self.row_view(v, k, x)
                return out
            i = fresh('it', v.axes[0].size)
            x = self.unbox(self.arr_at(v, i))
            self.row_view(v, i, x)
            return [GSeg(v.axes[0].size, i, [x])]
        if isinstance(v, Opq) and v.desc == 'range':
            n = v.data[1]
            i = fresh('i', n)
            return [GSeg(n, i, [add(v.data[0], mul(v.data[2], i))])]
        if isinstance(v, Opq) and v.desc == 'geniter':
            return v.data
        if isinstance(v, NativeObj):
            return self.models.nobj_iter(self, v, node)
        if isinstance(v, Ph):
            a, b = self.iter_items(v.a, node), self.iter_items(v.b, node)
            if len(a) == len(b):
                return [self.join(v.c, x, y) for x, y in zip(a, b)]
        self.unmodelled('iteration over %r' % (v,), node)

    def arr_at(self, v, i):
        return Arr(v.axes[1:], lambda idx: v.get([num(i)] + list(idx)), v.dtype, v.lib)

    def unbox(self, a):
        if isinstance(a, Arr) and a.ndim == 0 and a.lib == 'n':
            return a
        return a

    def for_loop(self, st, it, env):
        if isinstance(it, Opq) and it.desc == 'count':
            nm = '__count%d' % getattr(st, 'lineno', 0)
            env.vars[nm], step = it.data[0], it.data[1]
            if not hasattr(st, '_aswhile'):
                src = ast.parse('t = %s\n%s = %s + __step' % (nm, nm, nm)).body
                src[0].targets = [st.target]
                for x in src:
                    for y in ast.walk(x):
                        ast.copy_location(y, st)
                st._aswhile = ast.copy_location(ast.While(test=ast.copy_location(ast.Constant(value=True), st),
                                                          body=src + list(st.body), orelse=list(st.orelse)), st)
            env.vars['__step'] = step
            return self.while_loop(st._aswhile, env)
        items = self.iter_items(it, st)
        if any(isinstance(x, GSeg) for x in items):
            if len(items) == 1:
                return self.generic_loop(st, items[0], env)
            # mix of concrete and generic segments
            for x in items:
                if isinstance(x, GSeg):
                    out = self.generic_loop(st, x, env)
                else:
                    self.assign(st.target, x, env)
                    out = self.exec_block(st.body, env)
                if out is not None:
                    self.unmodelled('exit from mixed loop', st)
            return None
        return self.run_loop(st, items, env)

    def run_loop(self, st, items, env):
        # iterative while possible, falling back to chained continuation when branches may break
        body_exits = may_exit(st.body)
        while items:
            self.assign(st.target, items[0], env)
            if not body_exits:
                out = self.exec_block(st.body, env)
                if out is not None:
                    return out
                items = items[1:]
                continue
            nxt = _LoopNext()
            nxt.loop, nxt.items, nxt.env = st, items[1:], env
            out = self.exec_block(list(st.body) + [nxt], env)
            if out is not None and out.kind == 'break':
                return None
            return out
        if st.orelse:
            return self.exec_block(st.orelse, env)
        return None

    def modified(self, s0, s1):
        """[(heap object, key)] whose value differs between snapshots, for objects existing in s0"""
        out = []
        for i in range(s0[0]):
            h = self.heap[i]
            x, y = s0[1][i], s1[1][i]
            if isinstance(x, list):
                if len(x) != len(y) or any(p is not q for p, q in zip(x, y)):
                    out.append((h, None))
            else:
                for k in y:
                    if k not in x or x[k] is not y[k]:
                        if k in x and isinstance(x[k], (int, float, str, bool)) and type(x[k]) is type(y[k]) and x[k] == y[k]:
                            continue
                        out.append((h, k))
        return out

    def generic_loop(self, st, seg, env):
        """for over a segment of generic length"""
        has_break = any(isinstance(x, (ast.Break, ast.Return)) for x in _walk_nofunc(st))
        if has_break:
            return self.record_loop(st, env, seg)
        for h in self.heap:
            if isinstance(h, NativeObj) and h.kind == 'spmat':
                h.s.pop('parts', None)
        s0 = self.snapshot()
        i = fresh(seg.var.args[0].split('#')[0], seg.n)
        tgt = [self.subst_val(v, {seg.var: i}) for v in seg.values]

        def run():
            for v in tgt:
                self.assign(st.target, v, env)
                end = _LoopEnd()
                out = self.exec_block(list(st.body) + [end], env)
                if out is not None:
                    self.unmodelled('loop of generic length exits early', st)
        targets = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        ev0, lp0 = len(self.events), len(self.loops)
        run()
        s1 = self.snapshot()
        mods = [(h, k) for h, k in self.modified(s0, s1) if not (h is env and k in targets)
                and not (isinstance(h, NativeObj) and (h.kind == 'jitfn' or k == 'parts'))]
        # carried = existed before (other than list appends) and possibly read in the body
        heads = {}
        appends = []
        carried = []
        for h, k in mods:
            if k is None:
                x, y = s0[1][self.heap.index(h)], s1[1][self.heap.index(h)]
                if len(y) >= len(x) and all(p is q for p, q in zip(x, y)):
                    appends.append((h, len(x)))
                else:
                    self.unmodelled('list rewritten in a loop of generic length', st)
            else:
                x = s0[1][self.heap.index(h)]
                if k in x:
                    carried.append((h, k))
        if carried:
            self.restore(s0)
            del self.events[ev0:]
            del self.loops[lp0:]
            for h, k in carried:
                x = s0[1][self.heap.index(h)][k]
                hv = self.head_value(x, '%s@%d' % (k, getattr(st, 'lineno', 0)))
                heads[(h, k)] = (x, hv)
                self.set_slot(h, k, hv)
            sh = self.snapshot()
            run()
            s1 = self.snapshot()
            more = [(h, k) for h, k in self.modified(sh, s1) if not (h is env and k in targets)
                    and not (isinstance(h, NativeObj) and (h.kind == 'jitfn' or k == 'parts'))]
            for h, k in more:
                if k is not None and k in s0[1][self.heap.index(h)] and (h, k) not in heads:
                    self.unmodelled('loop-carried state not stabilised', st)
            appends = []
            for h, k in more:
                if k is None:
                    j = self.heap.index(h)
                    appends.append((h, len(s0[1][j])))
            for (h, k), (x, hv) in heads.items():
                y = s1[1][self.heap.index(h)][k]
                try:
                    fin = self.close_loop(x, hv, y, i, seg.n, st)
                except Unmodelled as ex:
                    raise Unmodelled('%s [%s]' % (ex, k))
                self.set_slot(h, k, fin)
        for h, n in appends:
            new = h.items[n:]
            h.items[n:] = [GSeg(seg.n, i, new)]
        # loop-local temporaries keep their last value
        last = {i: norm(sub(seg.n, 1))}
        for h, k in self.modified(s0, self.snapshot()):
            if k is not None and (h, k) not in heads and isinstance(h, Env):
                h.vars[k] = self.subst_val(h.vars[k], last)
        return None

    def set_slot(self, h, k, v):
        if isinstance(h, Env):
            h.vars[k] = v
        elif isinstance(h, Inst):
            h.f[k] = v
        elif isinstance(h, PDict):
            h.d[k] = v
        elif isinstance(h, NativeObj):
            h.s[k] = v
        else:
            raise Unmodelled('slot')

    def head_like(self, x, y, nm, s0):
        """head value of a slot holding x before the loop and y after one pass; shared objects stay shared"""
        if isinstance(x, NativeObj) and x is y:
            return x
        if isinstance(x, Inst) and isinstance(y, Inst) and x.cls is y.cls:
            j = self.heap.index(x)
            fx = s0[1][j] if j < s0[0] else x.f
            return Inst(self, x.cls, {f: self.head_like(v, y.f.get(f), '%s.%s' % (nm, f), s0) for f, v in fx.items()})
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.head_like(v, w, nm, s0) for v, w in zip(x, y))
        return self.head_value(x, nm)

    def head_value(self, x, nm):
        self.opq_ctr += 1
        name = '%s!%d' % (nm, self.opq_ctr)
        if isinstance(x, bool):
            return sym(name, bool=True)
        if isinstance(x, int):
            return sym(name, int=True)
        if isinstance(x, (float, E)):
            return sym(name)
        if isinstance(x, Arr):
            r = A.symbolic(name, x.axes, x.dtype, x.lib)
            r.head_name = name
            return r
        if isinstance(x, tuple):
            return tuple(self.head_value(v, nm) for v in x)
        if isinstance(x, PList):
            return PList(self, [self.head_value(v, nm) for v in x.items])
        if isinstance(x, Opq):
            return x
        if x is None:
            return Opq('head:' + name)
        if isinstance(x, NativeObj) and x.kind in ('spmat', 'bcoo', 'mat') and isinstance(x.s.get('M'), Arr):
            M = A.symbolic(name, x.s['M'].axes, x.s['M'].dtype, x.s['M'].lib)
            M.head_name = name
            r = NativeObj(self, x.kind, **{k: v for k, v in x.s.items() if k in ('fmt', 'opts', 'coo')})
            r.s['M'] = M
            r.head_name = name
            return r
        if isinstance(x, Inst):
            # the variable is rebound to another object of the class: a fresh object with head fields
            return Inst(self, x.cls, {f: self.head_value(v, '%s.%s' % (nm, f)) for f, v in x.f.items()})
        if isinstance(x, NativeObj):
            return Opq('head:' + name)
        if isinstance(x, (Func, Native, Bound)):
            return x
        if isinstance(x, (str,)):
            return Opq('str')
        raise Unmodelled('%s: loop-carried value of type %s (%s)' % (self.where(), type(x).__name__, nm))

    def close_loop(self, x, hv, y, i, n, st):
        """closed form of a carried value: accumulators and guarded overwrites"""
        if y is hv:
            return x
        if isinstance(hv, Opq) and isinstance(y, (Opq, E, int, float)):
            return Opq('after-loop:carried')
        if isinstance(hv, E):
            hn = hv
            d = norm(sub(num(y) if not isinstance(y, Arr) else A.scalar_of(y), hv))
            if not X.contains(d, lambda z: z is hn):
                return add(num(x), mksum(i, n, d))
            self.unmodelled('loop-carried scalar without closed form', st)
        if isinstance(hv, Arr) and isinstance(y, Arr):
            name = hv.head_name
            xa = x

            def fn(idx):
                e = norm(y.get(idx))
                he = hv.get(idx)
                # coefficient of head element
                coef, rest = [], []
                for t in nf(e):
                    if any(f is he and p == 1 for f, p in t.f):
                        t2 = Term(t.c, t.b, tuple((f, p) for f, p in t.f if f is not he))
                        coef.append(t2)
                    else:
                        rest.append(t)
                r = X.from_terms(rest)
                cf = X.from_terms(coef)
                hasname = lambda z: z.op == 'app' and z.args[0] == name
                if X.contains(r, hasname) or X.contains(cf, hasname):
                    raise Unmodelled('%s: loop-carried array without closed form' % self.where(st))
                if equal(cf, 1):
                    return add(xa.get(idx), mksum(i, n, r))
                m = norm(sub(1, cf))
                mt = nf(m)
                if len(mt) == 1 and mt[0].c == 1 and all(is_ind(f) for f, _ in mt[0].f) and equal(mul(m, r), r) and any(
                        f.op == 'eq' and X.injective_in(sub(f.args[0], f.args[1]), i) for f, _ in mt[0].f):
                    return add(mul(xa.get(idx), sub(1, mksum(i, n, m))), mksum(i, n, r))
                raise Unmodelled('%s: loop-carried array without closed form' % self.where(st))
            return Arr(hv.axes, fn, hv.dtype, hv.lib)
        self.unmodelled('loop-carried value without closed form (%s -> %s)' % (type(hv).__name__, type(y).__name__), st)

    def while_loop(self, st, env):
        rot = rotated(st)
        if rot is not None:
            out = self.exec_block(rot, env)
            return out
        c = self.truth(self.eval(st.test, env), st)
        k = 0
        if not isinstance(c, E):
            # concrete guard: unroll while it stays concrete (bounded)
            exits = may_exit(st.body)
            while c is True and k < 64:
                if isinstance(st.test, ast.Constant):
                    s0, ev0, lp0 = self.snapshot(), len(self.events), len(self.loops)
                    outer, self.cur_breaks = self.cur_breaks, []
                    try:
                        out = self.exec_block(list(st.body) + [_LoopEnd()], env)
                        run_time = bool(self.cur_breaks)
                    finally:
                        self.cur_breaks = outer
                    if run_time:
                        self.restore(s0)
                        del self.events[ev0:]
                        del self.loops[lp0:]
                        break
                elif exits:
                    nxt = _LoopNext()
                    nxt.loop, nxt.items, nxt.env = st, None, env
                    out = self.exec_block(list(st.body) + [nxt], env)
                    if out is not None and out.kind == 'break':
                        return None
                    return out
                else:
                    out = self.exec_block(list(st.body) + [_LoopEnd()], env)
                if out is not None:
                    if out.kind == 'break':
                        return None
                    return out
                k += 1
                c = self.truth(self.eval(st.test, env), st)
                if isinstance(c, E):
                    break
            if c is False:
                return None
        return self.record_loop(st, env, None)

    def record_loop(self, st, env, seg):
        """loop with a run-time guard: havoc modified state to head symbols, analyse the body once"""
        rec = LoopRec(st, self.where(st))
        s0 = self.snapshot()
        targets = set()
        if seg is not None:
            targets = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        outer = self.cur_breaks

        def body():
            self.cur_breaks = []
            g = None
            if seg is not None:
                i = fresh('step', seg.n)
                self.assign(st.target, self.subst_val(seg.values[0], {seg.var: i}), env)
                rec.index = i
                rec.n = seg.n
            else:
                g = self.truth(self.eval(st.test, env), st)
                if isinstance(g, E):
                    self.assume(g, True)
            out = self.exec_block(list(st.body) + [_LoopEnd()], env)
            if out is not None and out.kind not in ('break',):
                if out.kind == 'raise':
                    self.unmodelled('loop body always raises', st)
                self.unmodelled('return from inside a loop with a run-time guard', st)
            if out is not None:
                self.cur_breaks.append(ONE)
            return g, list(self.cur_breaks)
        heads = {}
        for attempt in range(6):
            ev0, lp0 = len(self.events), len(self.loops)
            sh = self.snapshot()
            g, brk = body()
            s1 = self.snapshot()
            mods = [(h, k) for h, k in self.modified(sh, s1) if not (h is env and k in targets)
                    and not (isinstance(h, NativeObj) and (h.kind == 'jitfn' or k == 'parts'))]
            new = []
            for h, k in mods:
                j = self.heap.index(h)
                if j >= s0[0]:
                    continue
                x = s0[1][j]
                if k is None:
                    if (h, None) not in heads:
                        new.append((h, None))
                elif k in x and (h, k) not in heads:
                    new.append((h, k))
            self.restore(s0)
            if not new:
                # final: keep analysed body results
                for (h, k), (x, hv) in heads.items():
                    if k is not None:
                        self.set_slot(h, k, hv)
                    else:
                        h.items = list(hv)
                break
            del self.events[ev0:]
            del self.loops[lp0:]
            for h, k in new:
                x = s0[1][self.heap.index(h)]
                if k is None:
                    self.opq_ctr += 1
                    hv = list(x) + [Opq('loop-list', self.opq_ctr)]
                    heads[(h, None)] = (list(x), hv)
                else:
                    hv = self.head_like(x[k], s1[1][self.heap.index(h)][k], '%s@%s' % (k, getattr(st, 'lineno', 0)), s0)
                    heads[(h, k)] = (x[k], hv)
            for (h, k), (x, hv) in heads.items():
                if k is not None:
                    self.set_slot(h, k, hv)
                else:
                    h.items = list(hv)
        else:
            self.unmodelled('loop state does not stabilise', st)
        self.cur_breaks = outer
        rec.guard = g
        rec.breaks = brk
        for (h, k), (x, hv) in heads.items():
            j = self.heap.index(h)
            y = s1[1][j][k] if k is not None else list(s1[1][j])
            self.loop_slots(rec, (h, k), x, hv, y, s0, s1)
        rec.body_state = s1
        rec.env = env
        rec.assumed_body = dict(s1[2])
        self.loops.append(rec)
        # variables defined only inside the loop body
        je = self.heap.index(env) if env in self.heap[:s0[0]] else None
        if je is not None:
            for k, v in s1[1][je].items():
                if k not in s0[1][je] and k not in targets:
                    env.vars[k] = v if isinstance(v, (Func, Native)) else Opq('after-loop:%s' % k, v)
        if seg is not None:
            for t in targets:
                env.vars[t] = Opq('after-loop:%s' % t)
        if isinstance(g, E) and not brk:
            self.assume(g, False)
        if st.orelse:
            return self.exec_block(st.orelse, env)
        return None

    def loop_slots(self, rec, nm, x, hv, y, s0, s1):
        """record a carried value; a rebound object contributes one entry per field"""
        if isinstance(x, Inst) and isinstance(hv, Inst) and isinstance(y, Inst) and x.cls is hv.cls is y.cls:
            def fields(o, s):
                j = self.heap.index(o)
                return s[1][j] if j < s[0] else o.f
            fx, fh, fy = fields(x, s0), hv.f, fields(y, s1)
            for f in fh:
                if f in fx and f in fy:
                    self.loop_slots(rec, (nm[0], '%s.%s' % (nm[1], f)), fx[f], fh[f], fy[f], s0, s1)
            return
        if isinstance(x, tuple) and isinstance(hv, tuple) and isinstance(y, tuple) and len(x) == len(hv) == len(y) and nm[1] is not None:
            for j in range(len(x)):
                self.loop_slots(rec, (nm[0], '%s[%d]' % (nm[1], j)), x[j], hv[j], y[j], s0, s1)
        rec.entry[nm] = x
        rec.head[nm] = hv
        rec.next[nm] = y

    # -------------------------------------------------- value substitution
    def subst_val(self, v, m):
        if isinstance(v, E):
            return subst(v, m)
        if isinstance(v, Arr):
            r = Arr([self.subst_axis(a, m) for a in v.axes], lambda idx: self._subst_get(v, idx, m), v.dtype, v.lib)
            return r
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, m) for x in v)
        if isinstance(v, PList):
            return PList(self, [self.subst_val(x, m) for x in v.items])
        if isinstance(v, GSeg):
            return GSeg(subst(v.n, m), v.var, [self.subst_val(x, m) for x in v.values])
        if isinstance(v, PDict):
            return PDict(self, {k: self.subst_val(x, m) for k, x in v.d.items()})
        if isinstance(v, Slice):
            return Slice(*[self.subst_val(x, m) for x in (v.a, v.b, v.c)])
        if isinstance(v, Ph):
            return Ph(subst(v.c, m), self.subst_val(v.a, m), self.subst_val(v.b, m))
        return v

    def subst_axis(self, a, m):
        if a.kind == 'atom':
            return Axis(subst(a.size, m))
        return Axis(subst(a.size, m), a.kind, tuple(self.subst_axis(p, m) for p in a.parts))

    def _subst_get(self, v, idx, m):
        # idx may legitimately contain the substituted variables: evaluate generically first
        bk, es = (), []
        idx = [A.conv_index(i, a) for i, a in zip(idx, v.axes)]
        for i, a in zip(idx, v.axes):
            b, e = A.split_index(i, a)
            bk += (b,)
            es += e
        gen, vs = [], ()
        for b, a in zip(bk, v.axes):
            for b2, it, v2 in A.axis_cases(a):
                if b2 == b:
                    gen.append(it)
                    vs += v2
                    break
        body = subst(v.get(gen), m)
        return subst(body, dict(zip(vs, es)))

    def realize(self, v):
        """force element terms now (fixes the heap state they read)"""
        if isinstance(v, Arr):
            for bks, idx, vs in v.cases():
                v.get(idx)
        return v

    # -------------------------------------------------- expressions
    def eval(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unmodelled('expression %s' % type(n).__name__, n)
        return m(n, env)

    def e_Constant(self, n, env):
        if n.value is Ellipsis:
            return Ellipsis
        return n.value

    def e_Name(self, n, env):
        e, v = env.lookup(n.id)
        if e is not None:
            if isinstance(v, Ph) and (v.a is UNDEF or v.b is UNDEF):
                w = v.b if v.a is UNDEF else v.a
                t = self.under(v.c)
                if t.op == 'num':
                    w = v.a if t.args[0] != 0 else v.b
                    if w is UNDEF:
                        raise ProgramError('name %s is not defined' % n.id, self.where(n))
                    return w
                self.event('maybe-unbound', name=n.id, node=n)
                return w
            return v
        b = self.models.BUILTINS.get(n.id)
        if b is not None:
            return b
        if n.id in ('Exception', 'ValueError', 'RuntimeError', 'NotImplementedError', 'TypeError', 'ImportError', 'AssertionError',
                    'KeyError', 'FileNotFoundError', 'OSError', 'IndexError', 'AttributeError', 'ArithmeticError', 'FloatingPointError', 'UserWarning', 'RuntimeWarning', 'DeprecationWarning', 'BaseException', 'StopIteration', 'ZeroDivisionError'):
            nm = n.id
            return Native(nm, lambda I, a, k, node: ExcVal(nm, tuple(a), node))
        raise ProgramError('name %s is not defined' % n.id, self.where(n))

    def e_Tuple(self, n, env):
        return tuple(self.eval_elts(n.elts, env))

    def e_List(self, n, env):
        return PList(self, self.eval_elts(n.elts, env))

    def e_Set(self, n, env):
        return set(self.hashable(x, n) for x in self.eval_elts(n.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter_items(self.eval(e.value, env), e))
            else:
                out.append(self.eval(e, env))
        return out

    def hashable(self, k, node=None):
        if isinstance(k, (str, int, float, bool, tuple, type(None), frozenset)):
            return k
        if isinstance(k, E):
            k2 = pyint(k)
            return k2
        if isinstance(k, (Ext, Inst, Func, Native, Cls, Opq)):
            return k
        self.unmodelled('dict key %r' % (k,), node)

    def e_Dict(self, n, env):
        d = PDict(self)
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, env)
                if isinstance(o, PDict):
                    d.d.update(o.d)
                else:
                    self.unmodelled('dict unpacking', n)
            else:
                d.d[self.hashable(self.eval(k, env), n)] = self.eval(v, env)
        return d

    def e_JoinedStr(self, n, env):
        parts = []
        const = True
        self.lenient += 1
        try:
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(str(v.value))
                else:
                    try:
                        x = self.eval(v.value, env)
                    except (Unmodelled, ShapeError, ProgramError):
                        const = False
                        continue
                    if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                        parts.append(str(x))
                    else:
                        const = False
                        parts.append(x)
        finally:
            self.lenient -= 1
        if const:
            return ''.join(parts)
        return Opq('str', tuple(p for p in parts))

    def e_FormattedValue(self, n, env):
        return Opq('str')

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_IfExp(self, n, env):
        c = self.truth(self.eval(n.test, env), n)
        if c is True:
            return self.eval(n.body, env)
        if c is False:
            return self.eval(n.orelse, env)
        s0 = self.snapshot()
        self.assume(c, True)
        a = self.eval(n.body, env)
        s1 = self.snapshot()
        self.restore(s0)
        self.assume(c, False)
        b = self.eval(n.orelse, env)
        s2 = self.snapshot()
        self.join_states(c, s1, s2, s0[0])
        return self.join(c, a, b)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        acc = None      # symbolic accumulated condition
        last = None
        s_guard = []
        saved = (dict(self.assumed), dict(self.assumed_atoms))
        try:
            for k, v in enumerate(n.values):
                x = self.eval(v, env)
                t = self.truth(x, n) if k < len(n.values) - 1 or acc is not None else None
                if k == len(n.values) - 1 and acc is None:
                    return x
                if t is True:
                    if not isand:
                        if acc is None:
                            return x
                        return True if acc is None else self._b(bor(acc, ONE))
                    last = x
                    continue
                if t is False:
                    if isand:
                        return x if acc is None else False
                    last = x
                    continue
                if acc is None:
                    acc = t
                else:
                    acc = band(acc, t) if isand else bor(acc, t)
                self.assume(t, isand)
                last = x
            return self._b(acc)
        finally:
            self.assumed, self.assumed_atoms = saved

    def _b(self, e):
        e = norm(e)
        if e.op == 'num':
            return e.args[0] != 0
        return e

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        return self.unop(n.op, v, n)

    def unop(self, op, v, n=None):
        if isinstance(v, Ph):
            return self.ph_map(v, lambda x: self.unop(op, x, n))
        if isinstance(op, ast.Not):
            t = self.truth(v, n)
            if isinstance(t, E):
                return self._b(sub(1, t))
            return not t
        if isinstance(op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, E):
                return neg(v)
            if isinstance(v, Arr):
                return A.elementwise(neg, v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, Arr):
                if v.dtype != 'b':
                    return A.elementwise(lambda e: sub(-1, e), v)
                return A.elementwise(lambda e: sub(1, e), v)
            if isinstance(v, E):
                return sub(1, v)
            if isinstance(v, bool):
                return -2 if v else -1
            if isinstance(v, int):
                return ~v
        if isinstance(v, NativeObj):
            return self.models.nobj_unop(self, op, v, n)
        self.unmodelled('unary operator on %r' % (v,), n)

    def ph_map(self, v, f):
        if v.a is UNDEF or v.b is UNDEF:
            self.unmodelled('possibly unbound value')
        t = self.under(v.c)
        if t.op == 'num':
            return f(v.a if t.args[0] != 0 else v.b)
        return self.join(v.c, f(v.a), f(v.b))

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n=None):
        return self.models.binop(self, op, a, b, n)

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env)
            c = self.models.compare(self, op, left, right, n)
            if res is None:
                res = c
            else:
                t1, t2 = self.truth(res, n), self.truth(c, n)
                if t1 is False or t2 is False:
                    res = False
                elif t1 is True:
                    res = t2
                elif t2 is True:
                    res = t1
                else:
                    res = self._b(band(t1, t2))
            left = right
        return res

    def e_Attribute(self, n, env):
        o = self.eval(n.value, env)
        return self.getattr(o, n.attr, n)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        k = self.eval_index(n.slice, env)
        return self.getitem(o, k, n)

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return Slice(*[self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            out = []
            for e in s.elts:
                if isinstance(e, ast.Starred):
                    out.extend(self.iter_concrete(self.eval(e.value, env), e))
                else:
                    out.append(self.eval_index(e, env))
            return tuple(out)
        return self.eval(s, env)

    def e_Slice(self, n, env):
        return self.eval_index(n, env)

    def e_Starred(self, n, env):
        self.unmodelled('starred', n)

    def e_Yield(self, n, env):
        e = env
        while e is not None and not hasattr(e, 'yield_to'):
            e = e.parent
        if e is None:
            self.unmodelled('yield outside a generator function', n)
        e.yield_to(self.eval(n.value, env) if n.value is not None else None)
        return None

    def e_YieldFrom(self, n, env):
        e = env
        while e is not None and not hasattr(e, 'yield_to'):
            e = e.parent
        if e is None:
            self.unmodelled('yield outside a generator function', n)
        for x in self.iter_items(self.eval(n.value, env), n):
            e.yield_to(x)
        return None

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_ListComp(self, n, env):
        out = PList(self)
        self.comp(n.generators, 0, Env(self, env, env.module), lambda e: out.items.append(self.eval(n.elt, e)), n, out)
        return out

    def e_GeneratorExp(self, n, env):
        out = PList(self)
        self.comp(n.generators, 0, Env(self, env, env.module), lambda e: out.items.append(self.eval(n.elt, e)), n, out)
        return Opq('geniter', out.items)

    def e_SetComp(self, n, env):
        out = set()
        self.comp(n.generators, 0, Env(self, env, env.module), lambda e: out.add(self.hashable(self.eval(n.elt, e))), n, None)
        return out

    def e_DictComp(self, n, env):
        out = PDict(self)

        def put(e):
            out.d[self.hashable(self.eval(n.key, e), n)] = self.eval(n.value, e)
        self.comp(n.generators, 0, Env(self, env, env.module), put, n, None)
        return out

    def comp(self, gens, k, env, emit, n, out):
        if k == len(gens):
            emit(env)
            return
        g = gens[k]
        items = self.iter_items(self.eval(g.iter, env), n)
        for it in items:
            if isinstance(it, GSeg):
                if out is None or g.ifs:
                    self.unmodelled('comprehension over a generic sequence', n)
                i = fresh('i', it.n)
                mark = len(out.items)
                for v in it.values:
                    self.assign(g.target, self.subst_val(v, {it.var: i}), env)
                    self.comp(gens, k + 1, env, emit, n, out)
                new = out.items[mark:]
                out.items[mark:] = [GSeg(it.n, i, new)]
                continue
            self.assign(g.target, it, env)
            ok = True
            cond = None
            for f in g.ifs:
                t = self.truth(self.eval(f, env), n)
                if t is False:
                    ok = False
                    break
                if isinstance(t, E):
                    self.unmodelled('comprehension filter depends on a run-time condition', n)
            if ok:
                self.comp(gens, k + 1, env, emit, n, out)

    def e_Call(self, n, env):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e, s = env.lookup('self')
            e2, c = env.lookup('__class__')
            return Opq('super', (s, c))
        f = self.eval(n.func, env)
        if self.is_noop(f):
            return None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_items(self.eval(a.value, env), a))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, PDict):
                    kw.update(d.d)
                else:
                    self.unmodelled('** argument', n)
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.callsites += 1
        return self.call(f, args, kw, n)

    def is_noop(self, f):
        if isinstance(f, Ext):
            return f.name in self.models.NOOPS or f.name.startswith('logging.') or f.name.startswith('warnings.')
        if isinstance(f, Bound) and isinstance(f.self_, Opq) and f.self_.desc == 'logger':
            return True
        return isinstance(f, Native) and f.name in ('print', 'logger.noop')

    # -------------------------------------------------- calls
    def call(self, f, args, kw=None, node=None):
        kw = kw or {}
        if isinstance(f, Native):
            return f.fn(self, list(args), dict(kw), node)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k2, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.name, list(args), dict(kw), node)
        if isinstance(f, NativeObj):
            return self.models.nobj_call(self, f, list(args), dict(kw), node)
        if isinstance(f, Inst):
            m = self.getattr(f, '__call__', node)
            return self.call(m, args, kw, node)
        if isinstance(f, Ph):
            t = self.under(f.c)
            if t.op == 'num':
                return self.call(f.a if t.args[0] != 0 else f.b, args, kw, node)
            s0 = self.snapshot()
            self.assume(f.c, True)
            a = self.call(f.a, args, kw, node)
            s1 = self.snapshot()
            self.restore(s0)
            self.assume(f.c, False)
            b = self.call(f.b, args, kw, node)
            s2 = self.snapshot()
            self.join_states(f.c, s1, s2, s0[0])
            return self.join(f.c, a, b)
        if f is None:
            raise ProgramError("'NoneType' object is not callable", self.where(node))
        if isinstance(f, Opq) and f.desc.startswith('toplevel:'):
            self.unmodelled('call of %s' % f.desc, node)
        if isinstance(f, tuple) and f and f[0] == 'static':
            return self.call(f[1], args, kw, node)
        self.unmodelled('call of %r' % (f,), node)

    def bind(self, f, args, kw, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if any(isinstance(x, GSeg) for x in args):
            self.unmodelled('generic number of arguments', node)
        for nm, v in zip(names, args):
            out[nm] = v
        extra = args[len(names):]
        if extra and a.vararg is None:
            raise ProgramError('%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)), self.where(node))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in out:
                    raise ProgramError('%s() got multiple values for argument %s' % (f.name, k), self.where(node))
                out[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            raise ProgramError('%s() got an unexpected keyword argument %s' % (f.name, sorted(rest)[0]), self.where(node))
        nd = len(f.defaults)
        for nm, d in zip(names[len(names) - nd:], f.defaults):
            out.setdefault(nm, d)
        for nm, d in f.kwdefaults.items():
            out.setdefault(nm, d)
        for nm in names + kwonly:
            if nm not in out:
                raise ProgramError('%s() missing required argument %s' % (f.name, nm), self.where(node))
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            out[a.kwarg.arg] = PDict(self, rest)
        return out

    def call_func(self, f, args, kw, node=None, ctx=None):
        ov = self.overrides.get((f.module or '') + ':' + f.name) or (
            self.overrides.get((f.module or '') + ':' + f.cls.name + '.' + f.name) if f.cls else None)
        if ov is not None:
            return ov(self, list(args), dict(kw), node)
        if self.depth > 120:
            raise Broken('recursion too deep at %s' % self.where(node))
        bound = self.bind(f, args, kw, node)
        if self.fx and not self.fx.active and (f.module or '').startswith('jax_fem'):
            self.fx.begin(f, bound)
            try:
                return self.run_func(f, bound, node, ctx)
            finally:
                self.fx.end()
        return self.run_func(f, bound, node, ctx)

    def run_func(self, f, bound, node=None, ctx=None):
        env = Env(self, f.env, f.module)
        env.vars.update(bound)
        if f.cls is not None:
            env.vars['__class__'] = f.cls
        root = env
        while root.parent is not None:
            root = root.parent
        path = getattr(root, 'path', f.module or '?')
        qn = (f.cls.name + '.' if f.cls else '') + f.name
        self.functions.add('%s:%s' % (path, qn))
        self.stack.append((path, qn, f.node))
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if is_generator(f.node):
                if ctx is not None:
                    env.yield_to = ctx
                else:
                    # the generator is run to its end at the call: what it yields is collected
                    seq = PList(self)
                    env.yield_to = lambda v: seq.items.append(v)
                    env.yield_seq = seq
            out = self.exec_block(f.node.body, env, top=True)
            if hasattr(env, 'yield_seq') and (out is None or out.kind == 'return'):
                return Opq('geniter', env.yield_seq.items)
            if out is None:
                return None
            if out.kind == 'return':
                return out.val
            if out.kind == 'raise':
                ex = out.val
                msg = ''
                if isinstance(ex, ExcVal):
                    msg = ex.name
                raise ProgramRaise(ex, self.where(getattr(ex, 'node', None)))
            self.unmodelled('break outside loop', node)
        finally:
            self.depth -= 1
            self.stack.pop()

    def instantiate(self, cls, args, kw, node):
        o = Inst(self, cls)
        init, _ = cls.find('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kw, node)
            return o
        # dataclass
        fields = []
        for c in reversed(cls.mro()):
            if isinstance(c, Cls) and c.dataclass:
                for nm, d in c.fields:
                    fields = [x for x in fields if x[0] != nm] if False else fields
                    if nm in [x[0] for x in fields]:
                        fields = [(n2, d if n2 == nm else d2) for n2, d2 in fields]
                    else:
                        fields.append((nm, d))
        if fields:
            vals = {}
            if len(args) > len(fields):
                raise ProgramError('too many arguments for %s' % cls.name, self.where(node))
            for (nm, d), v in zip(fields, args):
                vals[nm] = v
            for k, v in kw.items():
                if k not in [x[0] for x in fields]:
                    raise ProgramError('%s() got an unexpected keyword argument %s' % (cls.name, k), self.where(node))
                vals[k] = v
            for nm, d in fields:
                if nm not in vals:
                    if d is UNDEF:
                        raise ProgramError('%s() missing argument %s' % (cls.name, nm), self.where(node))
                    vals[nm] = self.call(d.data, [], {}, node) if isinstance(d, Opq) and d.desc == 'default_factory' else d
            o.f.update(vals)
            post, _ = cls.find('__post_init__')
            if post is not None:
                self.call(post, [o], {}, node)
            return o
        if args or kw:
            if any(not isinstance(b, Cls) for b in cls.bases):
                return ExcVal(cls.name, tuple(args), node)
            raise ProgramError('%s() takes no arguments' % cls.name, self.where(node))
        return o

    # -------------------------------------------------- attributes
    def hasattr(self, o, name):
        if isinstance(o, Inst):
            if name in o.f:
                v = o.f[name]
                return not (isinstance(v, Ph) and (v.a is UNDEF or v.b is UNDEF)) or Opq('maybe')
            return o.cls.find(name)[1] is not None
        if isinstance(o, Cls):
            return o.find(name)[1] is not None
        if isinstance(o, Func):
            return name in o.attrs or name in ('__code__', '__name__')
        if isinstance(o, Arr):
            return name in ('shape', 'dtype', 'ndim', 'at', 'T', 'reshape')
        if isinstance(o, NativeObj):
            return self.models.nobj_hasattr(self, o, name)
        if isinstance(o, (int, float, str, type(None), tuple, PList, PDict, E)):
            return False
        self.unmodelled('hasattr on %r' % (o,))

    def getattr(self, o, name, node=None):
        if isinstance(o, Inst):
            if name in o.f:
                v = o.f[name]
                if isinstance(v, Ph) and (v.a is UNDEF or v.b is UNDEF):
                    t = self.under(v.c)
                    if t.op == 'num':
                        v = v.a if t.args[0] != 0 else v.b
                        if v is UNDEF:
                            raise ProgramError('%s has no attribute %s' % (o.cls.name, name), self.where(node))
                        return v
                    return v.b if v.a is UNDEF else v.a
                if self.trace_reads is not None:
                    self.trace_reads.append((o, name, v))
                return v
            v, c = o.cls.find(name)
            if c is None:
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return PDict(self, o.f)
                fs = self.nt_fields(o)
                if fs is not None and name == '_fields':
                    return tuple(fs)
                if fs is not None and name == '_asdict':
                    return Native('_asdict', lambda I, a, k, nd: PDict(I, dict(o.f)))
                if fs is not None and name == '_replace':
                    return Native('_replace', lambda I, a, k, nd: I.instantiate(o.cls, [], {**o.f, **k}, nd))
                ga = self.config.get('inst_default')
                if ga is not None:
                    r = ga(self, o, name)
                    if r is not None:
                        return r
                raise ProgramAttr('%s object has no attribute %s' % (o.cls.name, name), self.where(node))
            return self.bind_member(v, o)
        if isinstance(o, Mod):
            return self.get_from_module(o, name)
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o, name, node)
        if isinstance(o, Cls):
            v, c = o.find(name)
            if c is None:
                if name == '__name__':
                    return o.name
                raise ProgramAttr('class %s has no attribute %s' % (o.name, name), self.where(node))
            if isinstance(v, tuple) and v and v[0] == 'static':
                return v[1]
            return v
        if isinstance(o, (Arr, E)) or isinstance(o, (int, float)) and not isinstance(o, bool):
            return self.models.arr_attr(self, o, name, node)
        if isinstance(o, PList):
            return self.models.list_attr(self, o, name, node)
        if isinstance(o, PDict):
            return self.models.dict_attr(self, o, name, node)
        if isinstance(o, str) or (isinstance(o, Opq) and o.desc == 'str'):
            return self.models.str_attr(self, o, name, node)
        if isinstance(o, (set, frozenset)):
            return self.models.set_attr(self, o, name, node)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__code__':
                a = o.node.args
                return Opq('code', len(a.posonlyargs) + len(a.args))
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return None
            if name == '__wrapped__':
                raise ProgramAttr('function has no attribute __wrapped__', self.where(node))
        if isinstance(o, Native):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__code__' and 'argcount' in o.attrs:
                return Opq('code', o.attrs['argcount'])
        if isinstance(o, Bound):
            if name == '__name__':
                return self.getattr(o.fn, name, node)
            if name == '__self__':
                return o.self_
            if name == '__code__':
                return self.getattr(o.fn, name, node)
        if isinstance(o, Partial) and name in ('func', 'args', 'keywords'):
            return {'func': o.fn, 'args': tuple(o.args), 'keywords': PDict(self, o.kw)}[name]
        if isinstance(o, Opq):
            if o.desc == 'code' and name == 'co_argcount':
                return o.data
            if o.desc == 'super':
                s, c = o.data
                mro = s.cls.mro()
                for d in mro[mro.index(c) + 1:]:
                    if name in d.ns:
                        return self.bind_member(d.ns[name], s)
                if name in ('__init__', '__post_init__'):
                    return Native('object.__init__', lambda I, a, k, nd: None)
                raise ProgramAttr('super has no attribute %s' % name, self.where(node))
            return self.models.opq_attr(self, o, name, node)
        if isinstance(o, NativeObj):
            return self.models.nobj_attr(self, o, name, node)
        if isinstance(o, Ph):
            return self.ph_map(o, lambda x: self.getattr(x, name, node))
        if isinstance(o, tuple):
            if name in ('index', 'count'):
                return Native('tuple.' + name, lambda I, a, k, nd: o.index(a[0]) if name == 'index' else o.count(a[0]))
        if o is None:
            raise ProgramAttr("'NoneType' object has no attribute %s" % name, self.where(node))
        self.unmodelled('attribute %s of %r' % (name, o), node)

    def bind_member(self, v, o):
        if isinstance(v, tuple) and v and v[0] in ('static', 'property', 'classm'):
            if v[0] == 'static':
                return v[1]
            if v[0] == 'classm':
                return Bound(v[1], o.cls)
            return self.call(v[1], [o])
        if isinstance(v, (Func, Native)):
            return Bound(v, o)
        if isinstance(v, NativeObj) and v.kind == 'jitfn':
            return Bound(v, o)
        return v

    def getitem(self, o, k, node=None):
        return self.models.getitem(self, o, k, node)


class ProgramRaise(ProgramError):
    def __init__(self, exc, where):
        nm = exc.name if isinstance(exc, ExcVal) else 'exception'
        super().__init__('raises %s' % nm, where)
        self.exc = exc


class ProgramAttr(ProgramError):
    pass
