"""Effects on what the caller owns.

While a function of the analysed package that was called from outside runs, nothing reachable from its
arguments may change: NumPy arrays (in-place stores, also through views), lists, dictionaries, and the fields of
meshes and of the caller's own objects.  The same is asked of mutable default arguments and of the variables of the
package's modules."""
from .arr import Arr
from .interp import PList, PDict, Inst, Func, Native, NativeObj, Bound, Partial, Env, Cls, Mod

CALLERS = ('jax_fem.generate_mesh',)


class Effects:
    def __init__(self, interp, exempt=()):
        self.I = interp
        self.active = None          # the outermost analysed call
        self.owned = {}             # id -> (object, how the caller knows it)
        self.exempt = set(exempt)   # parameter names whose purpose is to collect results
        self.calls = {}             # function -> number of calls
        self.objects = {}           # function -> number of objects watched
        self.bad = []               # (function, where, text)
        self.sites = {}

    # ---- what the caller owns
    def mine(self, o):
        """instances that hold the package's own state (or, in an analysed scenario, stand for them): all but meshes"""
        return isinstance(o, Inst) and not any(isinstance(c, Cls) and (c.module or '') in CALLERS for c in o.cls.mro())

    def collect(self, v, text, skip=False, depth=0):
        if depth > 8 or v is None or isinstance(v, (int, float, str, bool)):
            return
        if isinstance(v, tuple):
            for i, x in enumerate(v):
                self.collect(x, '%s[%d]' % (text, i), depth=depth + 1)
            return
        if isinstance(v, Bound):
            return self.collect(v.self_, text, depth=depth + 1)
        if isinstance(v, Partial):
            for i, x in enumerate(list(v.args) + list(v.kw.values())):
                self.collect(x, '%s[%d]' % (text, i), depth=depth + 1)
            return
        if not isinstance(v, (Arr, PList, PDict, Inst, NativeObj)) or id(v) in self.owned:
            return
        if self.mine(v):
            return
        if isinstance(v, Arr):
            self.owned[id(v)] = (v, text)
            return
        self.owned[id(v)] = (v, text)
        if isinstance(v, PList):
            for i, x in enumerate(v.items):
                self.collect(x, '%s[%d]' % (text, i), depth=depth + 1)
        elif isinstance(v, PDict):
            for k, x in v.d.items():
                self.collect(x, '%s[%r]' % (text, k), depth=depth + 1)
        elif isinstance(v, Inst):
            for k, x in v.f.items():
                self.collect(x, '%s.%s' % (text, k), depth=depth + 1)
        else:
            for k, x in v.s.items():
                self.collect(x, text, depth=depth + 1)

    def begin(self, f, bound):
        self.active = (f.cls.name + '.' if f.cls else '') + f.name
        # a private helper has no callers of its own: what it may change is its callers' affair
        self.snap, self.mods, self.quiet = {}, {}, f.name.startswith('_') and not f.name.startswith('__')
        if self.quiet:
            return
        for j, (k, v) in enumerate(bound.items()):
            if k in self.exempt:
                continue
            if isinstance(v, Inst) and (self.mine(v) or j == 0 and f.cls is not None and f.name == '__init__'):
                if f.name == '__post_init__':
                    for q, x in v.f.items():
                        self.collect(x, q)
                continue
            self.collect(v, k)
        self.snap = {i: self.content(o) for i, (o, _) in self.owned.items() if not isinstance(o, Arr)}
        self.mods = self.module_data()
        self.calls[self.active] = self.calls.get(self.active, 0) + 1
        self.objects[self.active] = max(self.objects.get(self.active, 0), len(self.owned))
        self.sites = {}

    def content(self, o):
        return list(o.items) if isinstance(o, PList) else dict(o.d) if isinstance(o, PDict) else \
            dict(o.f) if isinstance(o, Inst) else {k: v for k, v in o.s.items() if isinstance(v, Arr)}

    def module_data(self):
        out = {}
        for name, m in self.I.modules.items():
            if not name.startswith('jax_fem'):
                continue
            for k, v in m.env.vars.items():
                out[(name, k)] = (v, self.deep(v, True))
                if isinstance(v, Func):
                    for i, d in enumerate(list(v.defaults) + list((v.kwdefaults or {}).values())):
                        out[(name, '%s default %d' % (k, i))] = (d, self.deep(d))
                    if v.attrs:
                        out[(name, '%s attributes' % k)] = (None, dict(v.attrs))
                if isinstance(v, Cls):
                    for q, g in v.ns.items():
                        out[(name, '%s.%s' % (k, q))] = (g, self.deep(g, True))
                        if isinstance(g, Func):
                            for i, d in enumerate(list(g.defaults) + list((g.kwdefaults or {}).values())):
                                out[(name, '%s.%s default %d' % (k, q, i))] = (d, self.deep(d))
        return out

    def deep(self, v, memo=False):
        """contents of a module-level list or dictionary; one that starts empty (a memo) may be filled"""
        if isinstance(v, (PList, PDict)):
            c = self.content(v)
            return c if c or not memo else None
        return None

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, (int, float, str, bool)) and isinstance(b, (int, float, str, bool)):
            return type(a) is type(b) and a == b
        return False

    def end(self):
        I, fn = self.I, self.active
        for i, was in self.snap.items():
            o, text = self.owned[i]
            now = self.content(o)
            if isinstance(o, Inst):
                now = {k: v for k, v in now.items() if k in was}
            if not self.same(was, now):
                self.report(self.sites.get(i) or '%s' % fn, "the caller's %s %s changes" % (
                    {'PList': 'list', 'PDict': 'dictionary', 'Inst': 'object'}.get(type(o).__name__, 'object'), text))
        now = self.module_data()
        for k, (v, d) in self.mods.items():
            if k not in now or not self.same(v, now[k][0]) and v is not None or d is not None and not self.same(d, now[k][1]):
                self.report(fn, 'module data %s.%s changes' % k)
        self.active = None

    def report(self, where, text):
        if (self.active, where, text) not in self.bad:
            self.bad.append((self.active, where, text))

    def touch(self, o, node):
        """a store into a list or dictionary"""
        if self.active and id(o) in self.owned and id(o) not in self.sites:
            self.sites[id(o)] = self.I.where(node)

    def stored(self, old, new, node):
        if self.active and not self.quiet and id(old) in self.owned:
            st = self.I.stack
            if st and '/jax_fem/' in '/' + st[-1][0]:
                self.report(self.I.where(node), "the caller's array %s is overwritten in place" % self.owned[id(old)][1])
            self.owned[id(new)] = (new, self.owned[id(old)][1])
