"""Dispatch of built-ins, external functions and attributes to the transfer functions."""
from .m_obj import *
from . import m_np, m_jax, m_ext, m_obj
from .m_core import _sc, binop, compare, getitem, setitem_arr, contains_, py_eq
from .m_np import NP, mask_index, argwhere

BUILTINS = {}


def bi(*names):
    def d(f):
        for x in names:
            BUILTINS[x] = Native(x, f)
        return f
    return d


BUILTINS['True'], BUILTINS['False'], BUILTINS['None'] = True, False, None
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['NotImplemented'] = Opq('NotImplemented')
for _nm in ('property', 'staticmethod', 'classmethod'):
    BUILTINS[_nm] = Ext(_nm)
BUILTINS['object'] = Ext('object')
NOOPS = {'print', 'gc.collect', 'sys.stdout.flush', 'warnings.warn', 'gc.disable', 'gc.enable'}


@bi('print')
def _(I, a, k, n):
    return None


def seq_len(I, v, n):
    if isinstance(v, Inst):
        fs = I.nt_fields(v)
        if fs is not None:
            return len(fs)
        if v.cls.find('__len__')[1] is not None:
            return I.call(I.getattr(v, '__len__', n), [], {}, n)
    if isinstance(v, PList):
        tot = 0
        for x in v.items:
            if isinstance(x, GSeg):
                tot = add(num(tot), mul(x.n, len(x.values)))
            elif isinstance(x, Opq) and x.desc == 'replist':
                I.unmodelled('length', n)
            else:
                tot = tot + 1 if isinstance(tot, int) else add(tot, 1)
        return pyint(tot) if isinstance(tot, E) else tot
    if isinstance(v, (tuple, str, set, frozenset, range)):
        return len(v)
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise ProgramError('len() of unsized object', I.where(n))
        return pyint(v.axes[0].size)
    if isinstance(v, Opq) and v.desc == 'range':
        return pyint(v.data[1])
    if isinstance(v, Opq) and v.desc == 'geniter':
        raise ProgramError('len() of a generator', I.where(n))
    if isinstance(v, Ph):
        return I.ph_map(v, lambda x: seq_len(I, x, n))
    if isinstance(v, NativeObj) and 'len' in v.s:
        return v.s['len']
    if is_scal(v) or v is None:
        raise ProgramError('object of type %s has no len()' % type(v).__name__, I.where(n))
    I.unmodelled('len of %r' % (v,), n)


@bi('len')
def _(I, a, k, n):
    return seq_len(I, a[0], n)


@bi('range')
def _(I, a, k, n):
    v = [num(_sc(x)) for x in a]
    st, dl = ZERO, ONE
    if len(v) == 1:
        sp = v[0]
    else:
        st, sp = v[0], v[1]
        if len(v) > 2:
            dl = v[2]
    ps = [pyint(x) for x in (st, sp, dl)]
    if all(isinstance(x, int) for x in ps):
        return range(*ps)
    if any(isinstance(x, float) for x in ps):
        raise ProgramError('range() with a float', I.where(n))
    if equal(dl, ONE):
        size = norm(sub(sp, st))
    else:
        size = norm(floordiv(norm(add(sub(sp, st), sub(dl, 1))), dl))
    return Opq('range', (st, size, dl))


@bi('enumerate')
def _(I, a, k, n):
    st = arg(a, k, 1, 'start', 0)
    items = I.iter_items(a[0], n)
    out, pos = [], num(_sc(st))
    for x in items:
        if isinstance(x, GSeg):
            if len(x.values) != 1:
                out2 = []
                for q, v in enumerate(x.values):
                    out2.append((add(pos, mul(x.var, len(x.values)), q), v))
                out.append(GSeg(x.n, x.var, out2))
            else:
                out.append(GSeg(x.n, x.var, [(norm(add(pos, x.var)), x.values[0])]))
            pos = add(pos, mul(x.n, len(x.values)))
        else:
            out.append((pyint(norm(pos)), x))
            pos = add(pos, 1)
    return Opq('geniter', out)


@bi('zip')
def _(I, a, k, n):
    if any(isinstance(x, GSeg) for x in a):
        # zip(*rows) over rows of generic number: the columns
        widths = set()
        for x in a:
            for v in (x.values if isinstance(x, GSeg) else [x]):
                widths.add(len(I.iter_concrete(v, n)))
        if len(widths) != 1:
            I.unmodelled('zip of a generic number of sequences', n)
        cols = []
        for c in range(widths.pop()):
            col = []
            for x in a:
                if isinstance(x, GSeg):
                    col.append(GSeg(x.n, x.var, [I.iter_concrete(v, n)[c] for v in x.values]))
                else:
                    col.append(I.iter_concrete(x, n)[c])
            cols.append(tuple(col))
        return Opq('geniter', cols)
    lists = [I.iter_items(x, n) for x in a]
    if not lists:
        return Opq('geniter', [])
    if any(isinstance(x, GSeg) for l in lists for x in l):
        if all(len(l) == 1 and isinstance(l[0], GSeg) and len(l[0].values) == 1 for l in lists):
            g0 = lists[0][0]
            for l in lists[1:]:
                if not A.same_size(l[0].n, g0.n):
                    I.unmodelled('zip of sequences with different generic lengths', n)
            i = fresh('z', g0.n)
            return Opq('geniter', [GSeg(g0.n, i, [tuple(I.subst_val(l[0].values[0], {l[0].var: i}) for l in lists)])])
        L = {len(l) for l in lists}
        if len(L) == 1 and all(all(isinstance(x, GSeg) for x in col) or not any(isinstance(x, GSeg) for x in col) for col in zip(*lists)):
            out = []
            for col in zip(*lists):
                if isinstance(col[0], GSeg):
                    if any(not A.same_size(c.n, col[0].n) or len(c.values) != 1 for c in col):
                        I.unmodelled('zip', n)
                    i = fresh('z', col[0].n)
                    out.append(GSeg(col[0].n, i, [tuple(I.subst_val(c.values[0], {c.var: i}) for c in col)]))
                else:
                    out.append(tuple(col))
            return Opq('geniter', out)
        from .m_core import gen_len, gen_at
        tot = [gen_len(l) for l in lists]
        if all(A.same_size(t, tot[0]) for t in tot[1:]):
            i = fresh('z', tot[0])
            return Opq('geniter', [GSeg(tot[0], i, [tuple(gen_at(I, l, i, n) for l in lists)])])
        I.unmodelled('zip of generic sequences', n)
    return Opq('geniter', [tuple(t) for t in zip(*lists)])


@bi('map')
def _(I, a, k, n):
    z = BUILTINS['zip'].fn(I, a[1:], {}, n)
    out = []
    for t in z.data:
        if isinstance(t, GSeg):
            out.append(GSeg(t.n, t.var, [I.call(a[0], list(v), {}, n) for v in t.values]))
        else:
            out.append(I.call(a[0], list(t), {}, n))
    return Opq('geniter', out)


@bi('filter')
def _(I, a, k, n):
    out = []
    for x in I.iter_concrete(a[1], n):
        t = I.truth(I.call(a[0], [x], {}, n) if a[0] is not None else x, n)
        if isinstance(t, E):
            I.unmodelled('filter on a run-time condition', n)
        if t:
            out.append(x)
    return Opq('geniter', out)


@bi('list')
def _(I, a, k, n):
    return PList(I, I.iter_items(a[0], n) if a else [])


@bi('tuple')
def _(I, a, k, n):
    if not a:
        return ()
    its = I.iter_items(a[0], n)
    if any(isinstance(x, GSeg) for x in its):
        return PList(I, its)
    return tuple(its)


@bi('set', 'frozenset')
def _(I, a, k, n):
    return set(I.hashable(x, n) for x in (I.iter_concrete(a[0], n) if a else []))


@bi('dict')
def _(I, a, k, n):
    d = PDict(I)
    if a:
        if isinstance(a[0], PDict):
            d.d.update(a[0].d)
        else:
            for kv in I.iter_concrete(a[0], n):
                kk, v = I.iter_concrete(kv, n)
                d.d[I.hashable(kk, n)] = v
    d.d.update(k)
    return d


@bi('reversed')
def _(I, a, k, n):
    return Opq('geniter', list(reversed(I.iter_concrete(a[0], n))))


@bi('sorted')
def _(I, a, k, n):
    its = I.iter_concrete(a[0], n)
    kf = k.get('key')
    keys = [I.call(kf, [x], {}, n) if kf is not None else x for x in its]
    if all(isinstance(x, (int, float, str)) for x in keys):
        o = sorted(range(len(its)), key=lambda i: keys[i], reverse=bool(k.get('reverse', False)))
        return PList(I, [its[i] for i in o])
    if any(isinstance(x, Opq) and x.desc == 'str' for x in its) or not its:
        return PList(I, its)
    I.unmodelled('sorted', n)


# ------------------------------------------------------------------ numeric built-ins
def _red2(I, a, k, n, f, name):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, Arr):
            if v.ndim == 2 and A.is_one(v.axes[1]):
                return A.reshape(asarr(I, NP[name](I, v.lib, [v], {}, n)), [num(1)]) if hasattr(A, 'reshape') else NP['reshape'](I, v.lib, [NP[name](I, v.lib, [v], {}, n), (1,)], {}, n)
            if v.ndim != 1:
                raise ProgramError('%s() of an array of rank %d' % (name, v.ndim), I.where(n))
            return NP[name](I, v.lib, [v], {}, n)
        its = I.iter_items(v, n)
    else:
        its = a
    if not its:
        if 'default' in k:
            return k['default']
        raise ProgramError('%s() of an empty sequence' % name, I.where(n))
    if any(isinstance(x, GSeg) for x in its):
        if len(its) == 1 and len(its[0].values) == 1:
            g = its[0]
            return red(name, g.var, g.n, num(_sc(g.values[0])))
        I.unmodelled('%s of a generic sequence' % name, n)
    if all(isinstance(x, (int, float)) for x in its):
        return max(its) if name == 'max' else min(its)
    return pyint(f(*[num(_sc(x)) for x in its]))


BUILTINS['max'] = Native('max', lambda I, a, k, n: _red2(I, a, k, n, emax, 'max'))
BUILTINS['min'] = Native('min', lambda I, a, k, n: _red2(I, a, k, n, emin, 'min'))


@bi('sum')
def _(I, a, k, n):
    tot = arg(a, k, 1, 'start', 0)
    for x in I.iter_items(a[0], n):
        if isinstance(x, GSeg):
            for v in x.values:
                if isinstance(v, Arr) and v.ndim:
                    s = Arr(v.axes, lambda idx, v=v, x=x: mksum(x.var, x.n, v.get(idx)), v.dtype, v.lib)
                else:
                    s = mksum(x.var, x.n, num(_sc(v)))
                tot = binop(I, ast.Add(), tot, s, n)
        else:
            tot = binop(I, ast.Add(), tot, x, n)
    return tot


@bi('abs')
def _(I, a, k, n):
    if isinstance(a[0], (int, float)):
        return abs(a[0])
    if isinstance(a[0], NativeObj):
        return NP['abs'](I, 'n', a, k, n)
    return NP['abs'](I, getattr(a[0], 'lib', 'n'), a, k, n)


@bi('round')
def _(I, a, k, n):
    if isinstance(a[0], (int, float)):
        return round(*a)
    return ew(I, lambda e: opq('round', e), a[0], node=n)


@bi('pow')
def _(I, a, k, n):
    return binop(I, ast.Pow(), a[0], a[1], n)


@bi('divmod')
def _(I, a, k, n):
    return (binop(I, ast.FloorDiv(), a[0], a[1], n), binop(I, ast.Mod(), a[0], a[1], n))


def _quant(isall):
    def f(I, a, k, n):
        v = a[0]
        if isinstance(v, Arr):
            return NP['all' if isall else 'any'](I, v.lib, [v], {}, n)
        acc = None
        for x in I.iter_items(v, n):
            if isinstance(x, GSeg):
                t = I.truth(x.values[0], n)
                if isinstance(t, bool):
                    if t == isall:
                        continue
                    I.unmodelled('any/all over a generic sequence', n)
                t = red('all' if isall else 'any', x.var, x.n, t)
            else:
                t = I.truth(x, n)
            if isinstance(t, bool):
                if t != isall:
                    return not isall
                continue
            acc = t if acc is None else (band(acc, t) if isall else bor(acc, t))
        if acc is None:
            return isall
        return I._b(acc)
    return f


BUILTINS['all'] = Native('all', _quant(True))
BUILTINS['any'] = Native('any', _quant(False))


@bi('float')
def _(I, a, k, n):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, str):
        return float(v)
    if isinstance(v, (Arr, E)) and I.tracing_of(v):
        raise ProgramError('float() of a traced value', I.where(n))
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, Opq):
        return Opq('time') if v.desc == 'time' else sym('float_of_opq!%d' % newid())
    v = _one(I, v, n)
    return v


def _one(I, v, n):
    if isinstance(v, Arr):
        if v.ndim and not all(A.is_one(x) for x in v.axes):
            raise ProgramError('only size-1 arrays can be converted to scalars', I.where(n))
        return v.get([ZERO] * v.ndim)
    if isinstance(v, Ph):
        return I.ph_map(v, lambda x: _one(I, x, n))
    if is_scal(v):
        return v
    raise ProgramError('cannot convert %r to a number' % (v,), I.where(n))


@bi('int')
def _(I, a, k, n):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        return int(v)
    if isinstance(v, str):
        return int(v)
    if isinstance(v, (Arr, E)) and I.tracing_of(v):
        raise ProgramError('int() of a traced value', I.where(n))
    if isinstance(v, Opq):
        return sym('int_of_opq!%d' % newid(), int=True)
    e = norm(num(_one(I, v, n)))
    if is_int(e):
        return pyint(e)
    return opq('trunc', e)


@bi('bool')
def _(I, a, k, n):
    t = I.truth(a[0], n) if a else False
    return t


@bi('str', 'repr', 'format', 'chr', 'hex')
def _(I, a, k, n):
    if a and isinstance(a[0], (str, int)) and not isinstance(a[0], bool):
        return str(a[0])
    return Opq('str', tuple(a))


@bi('complex')
def _(I, a, k, n):
    return a[0] if len(a) == 1 else I.unmodelled('complex', n)


@bi('id', 'hash')
def _(I, a, k, n):
    return Opq('id', a[0])


@bi('callable')
def _(I, a, k, n):
    v = a[0]
    if isinstance(v, (Func, Native, Bound, Partial, Cls, Ext)):
        return True
    if isinstance(v, NativeObj):
        return v.kind in ('jitfn', 'custom_vjp') or '__call__' in v.s
    if isinstance(v, Inst):
        return v.cls.find('__call__')[1] is not None
    return False


# ------------------------------------------------------------------ reflection
def type_of(I, v, n):
    if isinstance(v, bool):
        return BUILTINS['bool']
    if isinstance(v, int):
        return BUILTINS['int']
    if isinstance(v, float):
        return BUILTINS['float']
    if isinstance(v, E):
        return BUILTINS['int'] if is_int(norm(v)) else BUILTINS['float']
    if isinstance(v, str) or isinstance(v, Opq) and v.desc == 'str':
        return BUILTINS['str']
    if isinstance(v, PList):
        return BUILTINS['list']
    if isinstance(v, tuple):
        return BUILTINS['tuple']
    if isinstance(v, PDict):
        return BUILTINS['dict']
    if isinstance(v, (set, frozenset)):
        return BUILTINS['set']
    if v is None:
        return Ext('NoneType')
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Arr):
        return Ext('numpy.ndarray' if v.lib == 'n' else 'jax.Array')
    if isinstance(v, (Func, Native, Bound, Partial)):
        return Ext('function')
    if isinstance(v, NativeObj):
        return Ext('type:' + v.kind)
    if isinstance(v, Ph):
        return I.ph_map(v, lambda x: type_of(I, x, n))
    if isinstance(v, Opq):
        return Opq('type', v)
    I.unmodelled('type of %r' % (v,), n)


@bi('type')
def _(I, a, k, n):
    return type_of(I, a[0], n)


def isinst(I, v, t, n):
    if isinstance(t, (tuple, set)):
        return any(isinst(I, v, x, n) is True for x in t)
    if isinstance(v, Ph):
        a, b = isinst(I, v.a, t, n), isinst(I, v.b, t, n)
        if a is b:
            return a
        I.unmodelled('isinstance of a gated value', n)
    if isinstance(t, Native):
        nm = t.name
        if nm == 'float':
            return isinstance(v, float) or (isinstance(v, E) and not is_int(norm(v)))
        if nm == 'int':
            return isinstance(v, int) or (isinstance(v, E) and is_int(norm(v)))
        if nm == 'bool':
            return isinstance(v, bool)
        if nm == 'str':
            return isinstance(v, str) or (isinstance(v, Opq) and v.desc == 'str')
        if nm == 'list':
            return isinstance(v, PList)
        if nm == 'tuple':
            return isinstance(v, tuple) or I.nt_fields(v) is not None
        if nm == 'dict':
            return isinstance(v, PDict)
        if nm in ('set', 'frozenset'):
            return isinstance(v, (set, frozenset))
        if nm == 'range':
            return isinstance(v, range) or (isinstance(v, Opq) and v.desc == 'range')
        if isinstance(v, ExcVal):
            return v.name == nm
    if isinstance(t, Cls):
        return isinstance(v, Inst) and t in v.cls.mro()
    if isinstance(t, Ext):
        nm = t.name.split('.')[-1]
        if t.name.startswith('basix.'):
            if isinstance(v, NativeObj) and v.kind == 'quadrule':
                return nm == 'QuadratureType'
            return isinstance(v, Ext) and v.name.startswith(t.name + '.')
        if nm in ('ndarray', 'Array', 'ArrayLike', 'DeviceArray'):
            if not isinstance(v, Arr):
                return False
            if t.name.startswith('numpy'):
                return v.lib == 'n'
            return v.lib == 'j'
        if nm in ('Callable', 'function', 'FunctionType'):
            return isinstance(v, (Func, Native, Bound, Partial)) or (isinstance(v, NativeObj) and v.kind == 'jitfn')
        if nm in ('Mapping', 'MutableMapping'):
            return isinstance(v, PDict)
        if nm in ('Sequence', 'Iterable'):
            return isinstance(v, (PList, tuple, str)) or (nm == 'Iterable' and isinstance(v, (Arr, PDict, set)))
        if nm in ('Number', 'Real', 'Integral', 'integer', 'floating', 'number'):
            if nm in ('Integral', 'integer'):
                return isinstance(v, int) or isinstance(v, E) and is_int(norm(v))
            return isinstance(v, (int, float, E))
        if nm in ('csr_array', 'csr_matrix', 'csc_array', 'spmatrix', 'sparray', 'csc_matrix'):
            return isinstance(v, NativeObj) and v.kind == 'spmat'
        if nm == 'Mat':
            return isinstance(v, NativeObj) and v.kind == 'mat'
        if nm == 'BCOO':
            return isinstance(v, NativeObj) and v.kind == 'bcoo'
        if nm == 'Tracer':
            return isinstance(v, (Arr, E)) and I.tracing_of(v)
        if nm == 'NoneType':
            return v is None
        if nm == 'object':
            return True
        if isinstance(v, (PList, tuple, PDict, str, int, float, Arr, type(None), Inst)):
            return False
    I.unmodelled('isinstance(%r, %r)' % (v, t), n)


@bi('isinstance')
def _(I, a, k, n):
    return isinst(I, a[0], a[1], n)


@bi('issubclass')
def _(I, a, k, n):
    x, y = a
    if isinstance(x, Cls) and isinstance(y, Cls):
        return y in x.mro()
    nx, ny = getattr(x, 'name', ''), getattr(y, 'name', '')
    if nx.split('.')[-1] == 'ScalarType':
        return False if 'complex' in ny else True
    if nx and ny:
        return nx.split('.')[-1] == ny.split('.')[-1]
    I.unmodelled('issubclass', n)


@bi('hasattr')
def _(I, a, k, n):
    r = I.hasattr(a[0], a[1])
    if isinstance(r, Opq):
        v = a[0].f[a[1]]
        return v.c if v.b is UNDEF else I._b(sub(1, v.c))
    return r


@bi('getattr')
def _(I, a, k, n):
    if not isinstance(a[1], str):
        I.unmodelled('getattr with a computed name', n)
    if len(a) > 2:
        if isinstance(a[0], Inst) and isinstance(a[0].f.get(a[1]), Ph):
            v = a[0].f[a[1]]
            if v.a is UNDEF or v.b is UNDEF:
                return Ph(v.c, a[2] if v.a is UNDEF else v.a, a[2] if v.b is UNDEF else v.b)
        try:
            return I.getattr(a[0], a[1], n)
        except ProgramAttr:
            return a[2]
    return I.getattr(a[0], a[1], n)


@bi('setattr')
def _(I, a, k, n):
    I.setattr(a[0], a[1], a[2], n)


@bi('delattr')
def _(I, a, k, n):
    if isinstance(a[0], Inst):
        if a[1] not in a[0].f:
            raise ProgramAttr('no attribute %s' % a[1], I.where(n))
        del a[0].f[a[1]]
        return
    I.unmodelled('delattr', n)


@bi('vars')
def _(I, a, k, n):
    if isinstance(a[0], Inst):
        return PDict(I, a[0].f)
    I.unmodelled('vars', n)


@bi('iter')
def _(I, a, k, n):
    return NativeObj(I, 'iter', left=tuple(I.iter_concrete(a[0], n)))


@bi('next')
def _(I, a, k, n):
    it = a[0]
    if isinstance(it, Opq) and it.desc == 'geniter':
        if not it.data or isinstance(it.data[0], GSeg):
            if len(a) > 1 and not it.data:
                return a[1]
            I.unmodelled('next()', n)
        return it.data.pop(0)
    if isinstance(it, NativeObj) and it.kind == 'iter':
        l = it.s['left']
        if not l:
            if len(a) > 1:
                return a[1]
            raise ProgramError('StopIteration', I.where(n))
        it.s['left'] = l[1:]
        return l[0]
    I.unmodelled('next()', n)


@bi('open')
def _(I, a, k, n):
    I.event('open', node=n, path=a[0], mode=arg(a, k, 1, 'mode', 'r'))
    return Opq('file', a[0])


@bi('slice')
def _(I, a, k, n):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@bi('exit', 'quit')
def _(I, a, k, n):
    raise ProgramError('exit()', I.where(n))


@bi('globals', 'locals')
def _(I, a, k, n):
    I.unmodelled('globals()', n)


# ------------------------------------------------------------------ external functions
import posixpath


def clock(I):
    return sym('clock!%d' % newid(), pos=True)


def _s(x):
    return isinstance(x, str)


@jx('time.time', 'time.perf_counter', 'time.process_time', 'time.monotonic')
def _(I, a, k, n):
    return clock(I)


@jx('time.strftime', 'time.ctime', 'os.getcwd', 'os.path.abspath', 'os.path.realpath', 'json.dumps', 'os.getenv', 'os.path.expanduser', 'textwrap.dedent')
def _(I, a, k, n):
    return Opq('str', tuple(a))


@jx('os.path.join')
def _(I, a, k, n):
    if all(_s(x) for x in a):
        return posixpath.join(*a)
    return Opq('str', ('join',) + tuple(a))


@jx('os.path.dirname')
def _(I, a, k, n):
    return posixpath.dirname(a[0]) if _s(a[0]) else Opq('str', ('dirname', a[0]))


@jx('os.path.basename')
def _(I, a, k, n):
    return posixpath.basename(a[0]) if _s(a[0]) else Opq('str', ('basename', a[0]))


@jx('os.path.splitext')
def _(I, a, k, n):
    if _s(a[0]):
        return posixpath.splitext(a[0])
    return (Opq('str', ('root', a[0])), Opq('str', ('ext', a[0])))


@jx('os.path.exists', 'os.path.isfile', 'os.path.isdir')
def _(I, a, k, n):
    return sym('exists!%d' % newid(), bool=True)


@jx('os.makedirs', 'os.mkdir')
def _(I, a, k, n):
    if a[0] == '':
        raise ProgramError('makedirs of an empty path', I.where(n))
    I.event('makedirs', node=n, path=a[0], exist_ok=k.get('exist_ok', False))


@jx('os.remove', 'os.system', 'os.rename', 'shutil.rmtree', 'os.environ.setdefault')
def _(I, a, k, n):
    I.event('fs', node=n, args=tuple(a))


@jx('glob.glob', 'os.listdir')
def _(I, a, k, n):
    return PList(I, [])


@jx('json.load', 'json.loads', 'pickle.load', 'yaml.safe_load')
def _(I, a, k, n):
    return Opq('loaded', tuple(a))


@jx('json.dump', 'pickle.dump')
def _(I, a, k, n):
    I.event('dump', node=n, args=tuple(a))


@jx('copy.copy', 'copy.deepcopy')
def _(I, a, k, n):
    v = a[0]
    return copy_val(I, v)


def copy_val(I, v):
    if isinstance(v, PList):
        return PList(I, [copy_val(I, x) for x in v.items])
    if isinstance(v, tuple):
        return tuple(copy_val(I, x) for x in v)
    if isinstance(v, PDict):
        return PDict(I, {k: copy_val(I, x) for k, x in v.d.items()})
    if isinstance(v, Arr):
        return Arr(v.axes, v.get, v.dtype, v.lib)
    return v


@jx('meshio.Mesh')
def _(I, a, k, n):
    pd, cd = k.get('point_data') or PDict(I), k.get('cell_data') or PDict(I)
    if isinstance(cd, PDict):
        for nm, v in cd.d.items():
            if not isinstance(v, (PList, tuple)):
                raise ProgramError('meshio cell_data entries must be lists with one array per cell block', I.where(n))
    cells = arg(a, k, 1, 'cells')
    return NativeObj(I, 'meshio', points=arg(a, k, 0, 'points'), cells=cells,
                     point_data=pd, cell_data=cd, field_data=PDict(I),
                     cells_dict=PDict(I), write=Native('write', lambda I, b, kk, nn: I.event('mesh-write', node=nn, args=tuple(b), cells=cells)))


@jx('meshio.read', 'logging.getLogger', 'logging.StreamHandler', 'logging.Formatter')
def _(I, a, k, n):
    return Opq('logger' if True else '')


for _nm in ('Config', 'Resources', 'Solver', 'Matrix', 'Vector'):
    JX['pyamgx.' + _nm] = lambda I, a, k, n, nm=_nm: NativeObj(I, 'amgx', cls=nm)
JX['pyamgx.initialize'] = lambda I, a, k, n: None
JX['pyamgx.finalize'] = lambda I, a, k, n: None


@jx('dataclasses.dataclass')
def _(I, a, k, n):
    if a:
        a[0].dataclass = True
        return a[0]

    def deco(I, b, kk, nn):
        b[0].dataclass = True
        return b[0]
    return Native('dataclass', deco)


@jx('dataclasses.replace')
def _(I, a, k, n):
    if not isinstance(a[0], Inst):
        I.unmodelled('dataclasses.replace', n)
    names = [x for c in reversed(a[0].cls.mro()) for x, _ in c.fields]
    return I.instantiate(a[0].cls, [], {**{x: a[0].f[x] for x in names}, **k}, n)


@jx('dataclasses.asdict')
def _(I, a, k, n):
    if not isinstance(a[0], Inst):
        I.unmodelled('dataclasses.asdict', n)
    names = [x for c in reversed(a[0].cls.mro()) for x, _ in c.fields]
    return PDict(I, {x: a[0].f[x] for x in names})


@jx('dataclasses.field')
def _(I, a, k, n):
    if 'default' in k:
        return k['default']
    if 'default_factory' in k:
        return Opq('default_factory', k['default_factory'])
    return UNDEF


@jx('itertools.product', 'itertools.chain', 'itertools.combinations', 'itertools.permutations')
def _(I, a, k, n):
    I.unmodelled('itertools', n)


@jx('contextlib.contextmanager')
def _(I, a, k, n):
    f = a[0]
    return Native('contextmanager', lambda I2, b, kk, nd: Opq('ctxgen', (f, list(b), dict(kk))))


@jx('contextlib.nullcontext')
def _(I, a, k, n):
    return a[0] if a else None


@jx('itertools.count')
def _(I, a, k, n):
    return Opq('count', (arg(a, k, 0, 'start', 0), arg(a, k, 1, 'step', 1)))


@jx('itertools.repeat')
def _(I, a, k, n):
    if len(a) > 1 and isinstance(a[1], int):
        return Opq('geniter', [a[0]] * a[1])
    I.unmodelled('itertools.repeat', n)


@jx('itertools.accumulate')
def _(I, a, k, n):
    f = arg(a, k, 1, 'func', None)
    out = []
    if k.get('initial') is not None:
        out.append(k['initial'])
    for x in I.iter_concrete(a[0], n):
        if not out:
            out.append(x)
        else:
            out.append(I.call(f, [out[-1], x], {}, n) if f is not None else binop(I, ast.Add(), out[-1], x, n))
    return Opq('geniter', out)


@jx('itertools.starmap')
def _(I, a, k, n):
    return Opq('geniter', [I.call(a[0], I.iter_concrete(x, n), {}, n) for x in I.iter_concrete(a[1], n)])


@jx('itertools.islice')
def _(I, a, k, n):
    l = I.iter_concrete(a[0], n)
    if not all(x is None or isinstance(x, int) for x in a[1:]):
        I.unmodelled('itertools.islice', n)
    return Opq('geniter', l[slice(*a[1:])])


@jx('itertools.pairwise')
def _(I, a, k, n):
    l = I.iter_concrete(a[0], n)
    return Opq('geniter', list(zip(l[:-1], l[1:])))


@jx('itertools.zip_longest')
def _(I, a, k, n):
    return Opq('geniter', list(__import__('itertools').zip_longest(*[I.iter_concrete(x, n) for x in a], fillvalue=k.get('fillvalue'))))


def make_nt(I, name, fields, defaults, module, n):
    c = Cls(name, [], {}, module, None)
    c.dataclass = c.nt = True
    nd = len(fields) - len(defaults)
    c.fields = [(f, UNDEF if j < nd else defaults[j - nd]) for j, f in enumerate(fields)]
    return c


@jx('collections.namedtuple', 'typing.NamedTuple')
def _(I, a, k, n):
    fs = a[1]
    if isinstance(fs, str):
        fs = fs.replace(',', ' ').split()
    else:
        fs = [x if isinstance(x, str) else I.iter_concrete(x, n)[0] for x in I.iter_concrete(fs, n)]
    d = k.get('defaults')
    return make_nt(I, a[0], fs, I.iter_concrete(d, n) if d is not None else [], None, n)


JX['itertools.chain.from_iterable'] = lambda I, a, k, n: Opq('geniter', [x for y in I.iter_concrete(a[0], n) for x in I.iter_items(y, n)])
JX['itertools.permutations'] = lambda I, a, k, n: Opq('geniter', [tuple(t) for t in __import__('itertools').permutations(I.iter_concrete(a[0], n), *a[1:])])
JX['itertools.product'] = lambda I, a, k, n: Opq('geniter', [tuple(t) for t in __import__('itertools').product(
    *[I.iter_concrete(x, n) for x in a], repeat=k.get('repeat', 1))])
JX['itertools.chain'] = lambda I, a, k, n: Opq('geniter', [x for y in a for x in I.iter_items(y, n)])
JX['itertools.combinations'] = lambda I, a, k, n: Opq('geniter', [tuple(t) for t in __import__('itertools').combinations(I.iter_concrete(a[0], n), a[1])])
JX['math.prod'] = lambda I, a, k, n: JX['functools.reduce'](I, [Native('*', lambda I, b, kk, nn: binop(I, ast.Mult(), b[0], b[1], nn)), a[0], 1], {}, n)
for _nm in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'floor', 'ceil', 'fabs'):
    JX['math.' + _nm] = lambda I, a, k, n, nm=_nm: _one(I, NP[nm](I, 'n', a, k, n), n) if nm in NP else I.unmodelled('math.' + nm, n)
for _op, _cls in (('add', ast.Add), ('mul', ast.Mult), ('sub', ast.Sub), ('truediv', ast.Div), ('matmul', ast.MatMult)):
    JX['operator.' + _op] = lambda I, a, k, n, c=_cls: binop(I, c(), a[0], a[1], n)
JX['operator.itemgetter'] = lambda I, a, k, n: Native('itemgetter', lambda I, b, kk, nn: getitem(I, b[0], a[0], nn))
JX['operator.attrgetter'] = lambda I, a, k, n: Native('attrgetter', lambda I, b, kk, nn: I.getattr(b[0], a[0], nn))

ALIASES = {'scipy.linalg.': 'numpy.linalg.', 'jax.scipy.linalg.': 'jax.numpy.linalg.', 'jax.lib.xla_bridge.': 'jax.lib.xla_bridge.'}


def _inplace(short):
    def f(I, a, k, n):
        x, r = a[0], list(a[1:])
        if not isinstance(x, Arr) or x.lib != 'n':
            I.unmodelled('numpy.%s' % short, n)
        if short == 'copyto' and len(r) == 1 and not set(k) - {'casting'}:
            I.setitem(x, Ellipsis, r[0], n)
        elif short == 'put' and len(r) == 2 and not k and x.ndim == 1:
            I.setitem(x, r[0], r[1], n)
        elif short == 'fill_diagonal' and len(r) == 1 and not k and x.ndim == 2 and X.equal(x.axes[0].size, x.axes[1].size):
            i = NP['arange'](I, 'n', [pyint(x.axes[0].size)], {}, n)
            I.setitem(x, (i, i), r[0], n)
        elif short in ('place', 'putmask') and len(r) == 2 and not k and not (isinstance(r[1], Arr) and r[1].ndim):
            I.setitem(x, r[0], r[1], n)
        elif short.endswith('.at') and len(r) in (1, 2) and not k and short[:-3] in ('add', 'subtract', 'multiply', 'maximum', 'minimum'):
            op = short[:-3]
            v = arith(I, ast.Mult, -1, r[1], n) if op == 'subtract' else r[1]
            new = scatter(I, x, r[0], v, {'add': 'add', 'subtract': 'add', 'multiply': 'multiply', 'maximum': 'max', 'minimum': 'min'}[op], n)
            I.replace_value(x, withlib(new, 'n'), n)
        else:
            I.unmodelled('numpy.%s' % short, n)
        return None
    return f


INPLACE = {q: _inplace(q) for q in ('copyto', 'put', 'fill_diagonal', 'place', 'putmask', 'add.at', 'subtract.at', 'multiply.at', 'maximum.at', 'minimum.at')}
VIEWS = {'reshape', 'ravel', 'squeeze', 'expand_dims', 'atleast_1d', 'atleast_2d', 'transpose', 'swapaxes', 'matrix_transpose'}


def np_plain(I, short, lib, a, k, n):
    return NP[short](I, lib, a, k, n)


def short_elementwise(f):
    return any(NP.get(q) is f for q in ('add', 'subtract', 'multiply', 'maximum', 'minimum', 'sqrt', 'abs', 'absolute', 'negative', 'power', 'square', 'true_divide'))


def np_out(I, f, lib, a, k, out, n):
    """a ufunc whose result is written into an array"""
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if lib != 'n' or not isinstance(out, Arr) or 'where' in k and len(a) > 2:
        I.unmodelled('out argument', n)
    w = k.get('where')
    if w is None:
        r = f(I, lib, a, k, n)
    elif f is NP['divide']:
        r = f(I, lib, a, dict(k, out=out), n)
    elif short_elementwise(f):
        r = NP['where'](I, lib, [w, f(I, lib, a, {q: v for q, v in k.items() if q != 'where'}, n), out], {}, n)
    else:
        I.unmodelled('out and where arguments', n)
    I.setitem(out, Ellipsis, r, n)
    return I.latest(out)


def np_call(I, short, lib, a, k, n):
    """a NumPy function; results that share the memory of their argument are recorded as views"""
    if k.get('out') is not None:
        return np_out(I, NP[short], lib, list(a), {q: v for q, v in k.items() if q != 'out'}, k['out'], n)
    if short == 'nan_to_num' and lib == 'n' and k.get('copy', True) is False:
        return np_out(I, NP[short], lib, list(a), {q: v for q, v in k.items() if q != 'copy'}, a[0], n)
    r = NP[short](I, lib, list(a), dict(k), n)
    if lib != 'n' or short not in VIEWS or not a or not isinstance(a[0], Arr) or not isinstance(r, Arr) or r is a[0]:
        return r
    rest = list(a[1:])
    if k.get('order', 'C') not in ('C', 'K', 'A'):
        return r
    take = lambda b: NP[short](I, lib, [b] + rest, dict(k), n)
    if short == 'swapaxes':
        put = lambda b, v: NP[short](I, lib, [v] + rest, dict(k), n)
    elif short in ('transpose', 'matrix_transpose'):
        pm = arg(a, k, 1, 'axes', None)
        if pm is None:
            put = lambda b, v: NP[short](I, lib, [v], {}, n)
        else:
            pm = [pyint(x) for x in I.iter_concrete(pm, n)]
            if not all(isinstance(x, int) for x in pm):
                return r
            pm = [x % len(pm) for x in pm]
            put = lambda b, v: NP['transpose'](I, lib, [v, tuple(pm.index(i) for i in range(len(pm)))], {}, n)
    else:
        put = lambda b, v: NP['reshape'](I, lib, [v, tuple(pyint(x) for x in b.shape)], {}, n)
    return I.view(a[0], r, take, put)


def call_ext(I, name, a, k, n):
    ov = I.ext_overrides.get(name)
    if ov is not None:
        return ov(I, a, k, n)
    f = JX.get(name)
    if f is not None:
        return f(I, a, k, n)
    for p, q in ALIASES.items():
        if name.startswith(p):
            name = q + name[len(p):]
    for p, lib in (('jax.numpy.', 'j'), ('numpy.', 'n'), ('jax.lax.', 'j')):
        if name.startswith(p):
            short = name[len(p):]
            if lib == 'n' and short in INPLACE:
                return INPLACE[short](I, a, k, n)
            g = NP.get(short)
            if g is not None:
                if short in ('array', 'asarray', 'ascontiguousarray', 'float64', 'float32', 'int32', 'int64', 'float_', 'bool_', 'float16', 'int8', 'int16', 'uint8', 'uint32', 'uint64', 'intp', 'asanyarray'):
                    k['__name'] = short
                return np_call(I, short, lib, a, k, n)
    if name.startswith('jax.lib.xla_bridge.'):
        raise ProgramError('%s does not exist in the installed JAX' % name, I.where(n))
    if name in ('object',):
        return Opq('object')
    I.unmodelled('external function %s' % name, n)


def ext_attr(I, o, name, node):
    full = o.name + '.' + name
    if o.name in ('numpy', 'jax.numpy', 'math'):
        if name == 'pi':
            return sym('pi', pos=True)
        if name == 'inf':
            return num(float('inf'))
        if name == 'nan':
            return num(float('nan'))
        if name == 'newaxis':
            return None
        if name == 'e':
            return opq('exp', ONE)
    if full == 'sys.maxsize':
        return 9223372036854775807
    if full == 'sys.argv':
        return PList(I, [Opq('str')])
    if full == 'os.environ':
        return Opq('environ')
    if full == 'sys.path':
        return PList(I, [])
    if full == 'os.sep':
        return '/'
    if full in ('petsc4py.PETSc.ScalarType', 'petsc4py.PETSc.RealType'):
        return Ext('petsc4py.PETSc.ScalarType')
    if name == '__name__':
        return o.name.split('.')[-1]
    if name == '__version__':
        return Opq('str')
    return Ext(full)


# ------------------------------------------------------------------ array attributes
NPM = {'sum', 'mean', 'max', 'min', 'all', 'any', 'prod', 'std', 'argmax', 'argmin', 'cumsum', 'dot', 'squeeze', 'take', 'repeat', 'round', 'clip',
       'conj', 'trace', 'diagonal', 'nonzero', 'swapaxes', 'argsort', 'var', 'ptp'}


class AtIndexer:
    pass


def at_obj(I, arr, k):
    def mkf(mode):
        def f(I, a, kw, n):
            v = a[0]
            if mode == 'apply':
                I.unmodelled('.at[].apply', n)
            r = scatter(I, arr, k, v, mode, n)
            return withlib(r, 'j')
        return Native('at.' + mode, f)
    s = {m: mkf(m) for m in ('set', 'add', 'multiply', 'max', 'min')}
    s['mul'] = s['multiply']
    s['subtract'] = Native('at.subtract', lambda I, a, kw, n: withlib(scatter(I, arr, k, arith(I, ast.Mult, -1, a[0], n), 'add', n), 'j'))
    s['get'] = Native('at.get', lambda I, a, kw, n: arr_getitem(I, arr, k, n))
    return NativeObj(I, 'at-ref', **s)


def arr_attr(I, o, name, node=None):
    if not isinstance(o, Arr):
        # scalars
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name in ('real', 'T'):
            return o
        if name == 'imag':
            return 0
        if name == 'dtype':
            return Opq('dtype', ('i' if is_int(norm(num(o))) else 'f', None))
        if name in ('item', 'copy', 'tolist', 'conjugate', 'block_until_ready', 'squeeze', 'ravel'):
            return Native(name, lambda I, a, k, n: o)
        if name == 'astype':
            return Native(name, lambda I, a, k, n: cast(I, o, a[0], n))
        if name == 'is_integer':
            return Native(name, lambda I, a, k, n: is_int(norm(num(o))))
        if name in ('reshape', 'sum', 'mean', 'max', 'min', 'all', 'any'):
            return arr_attr(I, A.to_arr(o, 'n'), name, node)
        raise ProgramAttr('number has no attribute %s' % name, I.where(node))
    if name == 'shape':
        return tuple(pyint(a.size) for a in o.axes)
    if name == 'ndim':
        return o.ndim
    if name == 'size':
        return pyint(norm(mul(*[a.size for a in o.axes]))) if o.ndim else 1
    if name == 'T' or name == 'mT':
        return I.view(o, A.transpose(o), A.transpose, lambda b, v: A.transpose(v))
    if name == 'dtype':
        return Opq('dtype', (o.dtype, None))
    if name == 'real':
        return o
    if name == 'at':
        if o.lib == 'n':
            raise ProgramAttr('numpy.ndarray has no attribute at', I.where(node))
        return NativeObj(I, 'at', __getitem__=lambda I, s, k, n: at_obj(I, o, k))
    if name == 'flat':
        return A.ravel(o)
    if name in ('reshape', 'transpose'):
        def f(I, a, k, n):
            if name == 'reshape':
                sh = a[0] if len(a) == 1 else tuple(a)
                if not a:
                    sh = k.get('shape', k.get('newshape'))
                return np_call(I, 'reshape', o.lib, [o, sh], {q: v for q, v in k.items() if q == 'order'}, n)
            if not a:
                return np_call(I, 'transpose', o.lib, [o], {}, n)
            pm = a[0] if len(a) == 1 and isinstance(a[0], (tuple, PList)) else tuple(a)
            return np_call(I, 'transpose', o.lib, [o, pm], {}, n)
        return Native(name, f)
    if name in ('flatten', 'ravel'):
        def f(I, a, k, n):
            od = arg(a, k, 0, 'order', 'C')
            return (np_call if name == 'ravel' else np_plain)(I, 'ravel', o.lib, [o], {'order': od} if od != 'C' else {}, n)
        return Native(name, f)
    if name == 'astype':
        return Native(name, lambda I, a, k, n: cast(I, o, arg(a, k, 0, 'dtype'), n))
    if name in ('view', '__array__') and o.lib == 'n':
        return Native(name, lambda I, a, k, n: o if not a and not k else I.unmodelled('array view with a type', n))
    if name in ('put', 'sort', 'resize', 'partition') and o.lib == 'n':
        def f(I, a, k, n):
            if name == 'put':
                return INPLACE['put'](I, [o] + list(a), k, n)
            if name != 'sort' or k or a or o.ndim != 1:
                I.unmodelled('array method %s' % name, n)
            I.replace_value(o, NP['sort'](I, 'n', [o], {}, n), n)
        return Native(name, f)
    if name in ('copy', 'block_until_ready', 'conjugate', '__array__', 'view'):
        return Native(name, lambda I, a, k, n: Arr(o.axes, o.get, o.dtype, o.lib))
    if name == 'item':
        return Native(name, lambda I, a, k, n: _one(I, o, n))
    if name == 'tolist':
        return Native(name, lambda I, a, k, n: tolist(I, o, n))
    if name == 'fill':
        def f(I, a, k, n):
            new = Arr(o.axes, lambda idx, v=num(_sc(a[0])): v, o.dtype, o.lib)
            I.replace_value(o, new, n)
        return Native(name, f)
    if name == 'flags':
        return Opq('flags')
    if name == 'nbytes' or name == 'itemsize':
        return sym('nbytes', int=True)
    if name in NPM and name in NP:
        def f(I, a, k, n):
            if o.lib == 'n' and I.tracing_of(o):
                pass
            return np_call(I, name, o.lib, [o] + a, k, n)
        return Native(name, f)
    if name in NPM:
        I.unmodelled('array method %s' % name, node)
    raise ProgramAttr('array has no attribute %s' % name, I.where(node))


def tolist(I, o, n):
    if o.ndim == 0:
        return pyint(o.get([]))
    out = []
    for x in I.iter_items(o, n):
        if isinstance(x, GSeg):
            out.append(GSeg(x.n, x.var, [tolist(I, v, n) if isinstance(v, Arr) else v for v in x.values]))
        else:
            out.append(tolist(I, x, n) if isinstance(x, Arr) else x)
    return PList(I, out)


# ------------------------------------------------------------------ containers
def list_attr(I, o, name, node=None):
    def m(f):
        if I.fx and name not in ('copy', 'index', 'count'):
            I.fx.touch(o, node)
        return Native('list.' + name, f)
    if name == 'append':
        return m(lambda I, a, k, n: o.items.append(a[0]))
    if name == 'extend':
        return m(lambda I, a, k, n: I.list_extend(o, a[0], n))
    if name == 'copy':
        return m(lambda I, a, k, n: PList(I, o.items))
    if name == 'clear':
        return m(lambda I, a, k, n: setattr(o, 'items', []))
    if name == 'pop':
        def f(I, a, k, n):
            if any(isinstance(x, GSeg) for x in o.items):
                I.unmodelled('pop from a generic list', n)
            if not o.items:
                raise ProgramError('pop from empty list', I.where(n))
            return o.items.pop(pyint(a[0]) if a else -1)
        return m(f)
    if name == 'insert':
        return m(lambda I, a, k, n: o.items.insert(pyint(a[0]), a[1]))
    if name == 'remove':
        def f(I, a, k, n):
            for i, x in enumerate(o.items):
                e = py_eq(I, x, a[0], n)
                if e is True:
                    del o.items[i]
                    return None
                if e is not False:
                    I.unmodelled('list.remove', n)
            raise ProgramError('value not in list', I.where(n))
        return m(f)
    if name == 'reverse':
        return m(lambda I, a, k, n: o.items.reverse())
    if name == 'index':
        def f(I, a, k, n):
            for i, x in enumerate(o.items):
                if py_eq(I, x, a[0], n) is True:
                    return i
            raise ProgramError('value not in list', I.where(n))
        return m(f)
    if name == 'sort':
        return m(lambda I, a, k, n: setattr(o, 'items', BUILTINS['sorted'].fn(I, [o], k, n).items))
    if name == 'count':
        return m(lambda I, a, k, n: sum(1 for x in o.items if py_eq(I, x, a[0], n) is True))
    raise ProgramAttr('list has no attribute %s' % name, I.where(node))


def dict_attr(I, o, name, node=None):
    def m(f):
        if I.fx and name in ('update', 'setdefault', 'pop', 'clear'):
            I.fx.touch(o, node)
        return Native('dict.' + name, f)

    def val(v, d):
        if isinstance(v, Ph) and (v.a is UNDEF or v.b is UNDEF):
            return Ph(v.c, d if v.a is UNDEF else v.a, d if v.b is UNDEF else v.b)
        return v
    if name == 'get':
        return m(lambda I, a, k, n: val(o.d.get(I.hashable(a[0], n), a[1] if len(a) > 1 else k.get('default')), a[1] if len(a) > 1 else None))
    if name == 'keys':
        return m(lambda I, a, k, n: set(o.d.keys()))
    if name == 'values':
        return m(lambda I, a, k, n: PList(I, list(o.d.values())))
    if name == 'items':
        return m(lambda I, a, k, n: PList(I, [(q, v) for q, v in o.d.items()]))
    if name == 'update':
        def f(I, a, k, n):
            if a:
                o.d.update(a[0].d if isinstance(a[0], PDict) else {I.hashable(x[0]): x[1] for x in I.iter_concrete(a[0], n)})
            o.d.update(k)
        return m(f)
    if name == 'copy':
        return m(lambda I, a, k, n: PDict(I, o.d))
    if name == 'setdefault':
        def f(I, a, k, n):
            kk = I.hashable(a[0], n)
            if kk not in o.d:
                o.d[kk] = a[1] if len(a) > 1 else None
            return o.d[kk]
        return m(f)
    if name == 'pop':
        def f(I, a, k, n):
            kk = I.hashable(a[0], n)
            if kk in o.d:
                return o.d.pop(kk)
            if len(a) > 1:
                return a[1]
            raise ProgramError('KeyError %r' % (kk,), I.where(n))
        return m(f)
    if name == 'clear':
        return m(lambda I, a, k, n: setattr(o, 'd', {}))
    raise ProgramAttr('dict has no attribute %s' % name, I.where(node))


def str_attr(I, o, name, node=None):
    if isinstance(o, str) and name in ('upper', 'lower', 'startswith', 'endswith', 'split', 'replace', 'strip', 'join', 'rstrip', 'lstrip', 'format', 'find', 'isdigit', 'rsplit', 'title', 'zfill'):
        def f(I, a, k, n):
            if name == 'join':
                its = I.iter_concrete(a[0], n)
                if all(isinstance(x, str) for x in its):
                    return o.join(its)
                return Opq('str', tuple(its))
            if all(isinstance(x, (str, int)) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in a) and not k:
                r = getattr(o, name)(*a)
                return PList(I, r) if isinstance(r, list) else r
            if name == 'format' and all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
                try:
                    return o.format(*a, **k)
                except (KeyError, IndexError, ValueError) as ex:
                    raise ProgramError('str.format: %r' % ex, I.where(n))
            return Opq('str', (name, o) + tuple(a) + ((dict(k),) if k else ()))
        return Native('str.' + name, f)
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha'):
        return Native('str.' + name, lambda I, a, k, n: sym('strpred!%d' % newid(), bool=True))
    if name in ('split', 'rsplit', 'splitlines'):
        return Native('str.' + name, lambda I, a, k, n: I.unmodelled('str.split', n))
    return Native('str.' + name, lambda I, a, k, n: Opq('str', (name, o) + tuple(a)))


def set_attr(I, o, name, node=None):
    def f(I, a, k, n):
        if name == 'add':
            o.add(I.hashable(a[0], n))
            return None
        if name == 'copy':
            return set(o)
        b = [set(I.hashable(x, n) for x in I.iter_concrete(x, n)) for x in a]
        if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
            return getattr(set(o), name)(*b)
        if name in ('update', 'discard', 'remove'):
            if name == 'update':
                o.update(*b)
            else:
                o.discard(I.hashable(a[0], n))
            return None
        I.unmodelled('set.%s' % name, n)
    return Native('set.' + name, f)


NOOPN = Native('logger.noop', lambda I, a, k, n: None)


def opq_attr(I, o, name, node=None):
    d = o.desc
    if d == 'logger':
        return NOOPN
    if d == 'dtype':
        if name in ('name', 'str', 'char'):
            return Opq('str')
        if name == 'kind':
            return o.data[0]
        if name == 'type':
            return o
        if name == 'itemsize':
            return 8
    if d == 'csrpart':
        if name == 'astype' or name == 'copy':
            return Native(name, lambda I, a, k, n: o)
        if name == 'dtype':
            return Opq('dtype', ('f' if o.data[1] == 'data' else 'i', None))
        if name == 'shape' or name == 'size':
            s = sym('nnz', int=True)
            return (s,) if name == 'shape' else s
    if d == 'file':
        if name in ('write', 'close', 'read', 'flush'):
            return Native(name, lambda I, a, k, n: Opq('str') if name == 'read' else I.event('fwrite', node=n, args=tuple(a)))
    if d == 'environ':
        return Native(name, lambda I, a, k, n: Opq('str'))
    if d in ('info', 'str', 'loaded', 'device', 'flags', 'info'):
        if d == 'loaded':
            return Opq('loaded', (o, name))
    if d.startswith('toplevel:'):
        I.unmodelled('attribute %s of %s' % (name, d), node)
    I.unmodelled('attribute %s of opaque %s' % (name, d), node)


def opq_getitem(I, o, k, n=None):
    if o.desc == 'csrpart' and o.data[1] == 'indptr':
        return Opq('spptr', (o.data[0].get('owner'), num(_sc(k)) if not isinstance(k, Slice) else k))
    if o.desc in ('loaded',):
        return Opq('loaded', (o, k))
    if o.desc in ('str', 'environ'):
        return Opq('str', (o, k))
    if o.desc.startswith('after-loop:') or o.desc.startswith('head:'):
        I.unmodelled('use of %s' % o.desc, n)
    I.unmodelled('subscript of opaque %s' % o.desc, n)
