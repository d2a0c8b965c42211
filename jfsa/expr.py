"""Abstract value domain: scalar terms in index notation.

A term denotes, for every choice of the free index variables, a scalar that the
analysed program computes.  Terms are compared by an alpha-invariant normal form
(sum of products under summation binders, Kronecker/indicator atoms, opaque
applications).  There is no search and no solver: `key(e)` is a deterministic
value number, two program values are equal when their value numbers are equal.
"""
import hashlib
from fractions import Fraction
from itertools import permutations, product as _iproduct

F0, F1 = Fraction(0), Fraction(1)


class E:
    __slots__ = ('op', 'args', '_h', '_fv', '_nf', '_norm', '_kc', '__weakref__')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._h = hash((op, args))
        self._fv = None
        self._nf = None
        self._norm = None
        self._kc = None

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


_intern = {}


def mk(op, *args):
    k = (op, args)
    e = _intern.get(k)
    if e is None:
        e = E(op, args)
        _intern[k] = e
    return e


# ---------------------------------------------------------------- atoms
_ctr = [0]


def num(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return mk('num', F1 if x else F0)
    if isinstance(x, int):
        return mk('num', Fraction(x))
    if isinstance(x, Fraction):
        return mk('num', x)
    if isinstance(x, float):
        if x != x:
            return mk('nan')
        if x in (float('inf'), float('-inf')):
            return mk('inf') if x > 0 else mul(num(-1), mk('inf'))
        return mk('num', Fraction(repr(x)))
    if isinstance(x, complex):
        return add(num(x.real), mul(num(x.imag), mk('I')))
    if isinstance(x, str):
        return mk('num', Fraction(x))
    raise TypeError('num(%r)' % (x,))


ZERO, ONE = num(0), num(1)
NAN = mk('nan')

VARSIZE = {}     # var id -> size E
SYM = {}         # sym name -> dict(lo, hi, int)
ARR = {}         # array name -> dict(lo, hi, int, bool, inj)


def fresh(hint, size):
    _ctr[0] += 1
    v = mk('var', '%s#%d' % (hint, _ctr[0]))
    VARSIZE[v.args[0]] = num(size)
    return v


def sym(name, **info):
    if info:
        SYM.setdefault(name, {}).update(info)
    return mk('sym', name)


def size_sym(name, lo=1):
    return sym(name, int=True, lo=num(lo), pos=True)


def app(name, *idx):
    return mk('app', name, tuple(num(i) for i in idx))


def declare(name, **info):
    ARR.setdefault(name, {}).update(info)


# ---------------------------------------------------------------- constructors
def add(*xs):
    out = []
    c = F0
    for x in xs:
        x = num(x)
        if x.op == 'num':
            c += x.args[0]
        elif x.op == 'add':
            for y in x.args:
                if y.op == 'num':
                    c += y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c != 0:
        out.append(num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk('add', *out)


def mul(*xs):
    out = []
    c = F1
    for x in xs:
        x = num(x)
        if x.op == 'num':
            c *= x.args[0]
        elif x.op == 'mul':
            for y in x.args:
                if y.op == 'num':
                    c *= y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        return ZERO
    if not out:
        return num(c)
    if c != 1:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return mk('mul', *out)


def neg(x):
    return mul(-1, x)


def sub(a, b):
    return add(a, neg(b))


def power(a, n):
    a, n = num(a), num(n)
    if n.op == 'num':
        if n.args[0] == 0:
            return ONE
        if n.args[0] == 1:
            return a
        if a.op == 'num':
            if n.args[0].denominator == 1 and (a.args[0] != 0 or n.args[0] > 0) and abs(n.args[0]) < 64:
                return num(a.args[0] ** int(n.args[0]))
            if a.args[0] == 0 and n.args[0] > 0:
                return ZERO
            if a.args[0] == 1:
                return ONE
            r = _frac_root(a.args[0], n.args[0])
            if r is not None:
                return num(r)
    return mk('pow', a, n)


def _frac_root(b, n):
    if b < 0 or n.denominator != 2:
        return None
    from math import isqrt
    p, q = isqrt(b.numerator), isqrt(b.denominator)
    if p * p == b.numerator and q * q == b.denominator:
        r = Fraction(p, q)
        if r == 0:
            return None
        return r ** int(n.numerator)
    return None


def div(a, b):
    return mul(a, power(b, -1))


def ite(c, a, b):
    c, a, b = num(c), num(a), num(b)
    if c.op == 'num':
        return a if c.args[0] != 0 else b
    if a is b:
        return a
    c2 = c
    if c.op in ('lt', 'le'):
        x, y = c.args
        # [y' < x'] ? x' : y'   -> max / min
        if a is y and b is x:
            return emax(x, y)
        if a is x and b is y:
            return emin(x, y)
    return mk('ite', c2, a, b)


def emax(*xs):
    return _mm('max', xs)


def emin(*xs):
    return _mm('min', xs)


def _mm(op, xs):
    flat = []
    cs = []
    for x in xs:
        x = num(x)
        for y in (x.args if x.op == op else (x,)):
            if y.op == 'num':
                cs.append(y.args[0])
            elif y not in flat:
                flat.append(y)
    if cs:
        flat.append(num(max(cs) if op == 'max' else min(cs)))
    if len(flat) == 1:
        return flat[0]
    return mk(op, *flat)


def esum(hint, size, f):
    """sum over i<size of f(i)"""
    size = num(size)
    v = fresh(hint, size)
    return mksum(v, size, f(v))


def mksum(v, size, body):
    body = num(body)
    size = num(size)
    if body.op == 'num' and body.args[0] == 0:
        return ZERO
    if size.op == 'num' and size.args[0].denominator == 1 and 0 <= size.args[0] <= 40:
        return add(*[subst(body, {v: num(k)}) for k in range(int(size.args[0]))])
    return mk('sum', v, size, body)


def red(op, v, size, body):
    size = num(size)
    body = num(body)
    if op == 'any':
        return sub(1, red('all', v, size, sub(1, body)))
    if size.op == 'num' and 0 < size.args[0] <= 40:
        items = [subst(body, {v: num(k)}) for k in range(int(size.args[0]))]
        if op == 'all':
            return mul(*items)
        return _mm(op[1:] if op.startswith('r') else op, items)
    if v not in fv(body):
        return body
    return mk('red', op, v, size, body)


def lam(vars_, body):
    return mk('lam', tuple(vars_), body)


def lt(a, b):
    a, b = num(a), num(b)
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] < b.args[0])
    return mk('lt', a, b)


def le(a, b):
    a, b = num(a), num(b)
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] <= b.args[0])
    return mk('le', a, b)


def eq(a, b):
    a, b = num(a), num(b)
    if a is b:
        return ONE
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] == b.args[0])
    return mk('eq', a, b)


def bnot(a):
    return sub(1, a)


def band(*xs):
    return mul(*xs)


def bor(a, b):
    return sub(add(a, b), mul(a, b))


def opq(name, *args):
    return mk('op', name, tuple(args))


def floordiv(a, b):
    a, b = num(a), num(b)
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE:
        return a
    q = _divmod(a, b)
    if q is not None:
        return q[0]
    Q, R = _split_div(a, b)
    if Q is not ZERO:
        return add(Q, mk('op', 'floordiv', (R, b)))
    return mk('op', 'floordiv', (a, b))


def mod(a, b):
    a, b = num(a), num(b)
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if b is ONE:
        return ZERO
    q = _divmod(a, b)
    if q is not None:
        return q[1]
    Q, R = _split_div(a, b)
    if Q is not ZERO:
        return mk('op', 'mod', (R, b))
    return mk('op', 'mod', (a, b))


# ---------------------------------------------------------------- free variables, substitution
def fv(e):
    r = e._fv
    if r is not None:
        return r
    op = e.op
    if op == 'var':
        r = frozenset((e,))
    elif op == 'sum':
        r = (fv(e.args[2]) - {e.args[0]}) | fv(e.args[1])
    elif op == 'red':
        r = (fv(e.args[3]) - {e.args[1]}) | fv(e.args[2])
    elif op == 'lam':
        r = fv(e.args[1]) - set(e.args[0])
    else:
        s = frozenset()
        for a in _children(e):
            s = s | fv(a)
        r = s
    e._fv = r
    return r


def _children(e):
    for a in e.args:
        if isinstance(a, E):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, E):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, E):
                            yield c


def subst(e, m):
    if not m:
        return e
    cache = {}

    def go(e, m):
        f = fv(e)
        mm = None
        for v in f:
            if v in m:
                mm = True
                break
        if not mm:
            return e
        k = (e, id(m))
        r = cache.get(k)
        if r is not None:
            return r[0]
        op = e.op
        if op == 'var':
            r = m.get(e, e)
        elif op in ('sum', 'red', 'lam'):
            if op == 'sum':
                vs, sizes, body = (e.args[0],), (e.args[1],), e.args[2]
            elif op == 'red':
                vs, sizes, body = (e.args[1],), (e.args[2],), e.args[3]
            else:
                vs, sizes, body = e.args[0], None, e.args[1]
            m2 = {a: b for a, b in m.items() if a not in vs and a in f}
            used = frozenset().union(*[fv(b) for b in m2.values()]) if m2 else frozenset()
            nvs = []
            for v in vs:
                if v in used:
                    w = fresh(v.args[0].split('#')[0], VARSIZE[v.args[0]])
                    m2[v] = w
                    nvs.append(w)
                else:
                    nvs.append(v)
            keep.append(m2)
            nb = go(body, m2)
            if op == 'sum':
                r = mksum(nvs[0], go(sizes[0], m), nb)
            elif op == 'red':
                r = red(e.args[0], nvs[0], go(sizes[0], m), nb)
            else:
                r = lam(nvs, nb)
        else:
            r = rebuild(e, lambda a: go(a, m))
        cache[k] = (r, m)
        return r
    keep = []
    return go(e, m)


def rebuild(e, f):
    """Rebuild a non-binder node with f applied to its children."""
    op = e.op
    if op == 'add':
        return add(*[f(a) for a in e.args])
    if op == 'mul':
        return mul(*[f(a) for a in e.args])
    if op == 'pow':
        return power(f(e.args[0]), f(e.args[1]))
    if op == 'ite':
        return ite(*[f(a) for a in e.args])
    if op == 'lt':
        return lt(*[f(a) for a in e.args])
    if op == 'le':
        return le(*[f(a) for a in e.args])
    if op == 'eq':
        return eq(*[f(a) for a in e.args])
    if op in ('max', 'min'):
        return _mm(op, [f(a) for a in e.args])
    if op == 'op' and e.args[0] == 'floordiv':
        return floordiv(f(e.args[1][0]), f(e.args[1][1]))
    if op == 'op' and e.args[0] == 'mod':
        return mod(f(e.args[1][0]), f(e.args[1][1]))
    if op == 'app' and e.args[0] in TABLES:
        return table_app(e.args[0], [f(a) for a in e.args[1]])

    def g(a):
        if isinstance(a, E):
            return f(a)
        if isinstance(a, tuple):
            return tuple(g(b) for b in a)
        return a
    return mk(op, *[g(a) for a in e.args])


# concrete lookup tables (small constant arrays)
TABLES = {}


def table(values, shape):
    """values: dict idx tuple -> E ; returns table name"""
    k = (tuple(sorted(values.items(), key=lambda t: t[0])), tuple(shape))
    for n, (kk, _, _) in TABLES.items():
        if kk == k:
            return n
    name = 'tab%d' % len(TABLES)
    TABLES[name] = (k, values, shape)
    ints = [v.args[0] for v in values.values() if v.op == 'num']
    if len(ints) == len(values) and ints and all(i.denominator == 1 for i in ints):
        ARR[name] = dict(int=True, lo=num(min(ints)), hi=num(max(ints) + 1),
                         inj=len(set(ints)) == len(ints))
    return name


def table_app(name, idx):
    idx = tuple(num(i) for i in idx)
    if all(i.op == 'num' for i in idx):
        _, vals, shape = TABLES[name]
        key_ = tuple(int(i.args[0]) if i.args[0] >= 0 else int(i.args[0]) + shape[k] for k, i in enumerate(idx))
        return vals[key_]
    return mk('app', name, idx)


# ---------------------------------------------------------------- normal form
class Term:
    __slots__ = ('c', 'b', 'f')

    def __init__(self, c, b, f):
        self.c = c      # Fraction
        self.b = b      # tuple of (var, size)
        self.f = f      # tuple of (atom E, exponent Fraction)


INDICATORS = {'lt', 'le', 'eq'}


def is_ind(a):
    if a.op in INDICATORS:
        return True
    if a.op == 'red' and a.args[0] == 'all':
        return True
    if a.op == 'app' and ARR.get(a.args[0], {}).get('bool'):
        return True
    if a.op == 'sym' and SYM.get(a.args[0], {}).get('bool'):
        return True
    if a.op == 'uf' and ARR.get(a.args[0], {}).get('bool'):
        return True
    if a.op == 'op' and a.args[0] in ('isfinite', 'isnan', 'in'):
        return True
    return False


def norm(e):
    """Normalised equivalent of e (an E rebuilt from its normal form)."""
    r = e._norm
    if r is None:
        if e.op == 'lam':
            r = lam(e.args[0], norm(e.args[1]))
        elif e.op in ('num', 'sym', 'var'):
            r = e
        else:
            ts = nf(e)
            r = from_terms(ts)
            if r._nf is None:
                r._nf = ts
        e._norm = r
        if r._norm is None:
            r._norm = r
    return r


def from_terms(ts):
    out = []
    for t in ts:
        fs = [power(a, num(x)) for a, x in t.f]
        body = mul(num(t.c), *fs)
        for v, s in reversed(t.b):
            body = mk('sum', v, s, body)
        out.append(body)
    return add(*out)


def nf(e):
    r = e._nf
    if r is None:
        r = _combine(_nf(e))
        e._nf = r
    return r


def _atom(a):
    return [Term(F1, (), ((a, F1),))]


def _nf(e):
    op = e.op
    if op == 'num':
        return [Term(e.args[0], (), ())] if e.args[0] != 0 else []
    if op in ('var', 'sym', 'nan', 'inf', 'I'):
        return _atom(e)
    if op == 'add':
        out = []
        for a in e.args:
            out.extend(nf(a))
        return out
    if op == 'mul':
        return _nf_mul(e.args)
    if op == 'pow':
        return _nf_pow(e)
    if op == 'ite':
        c, a, b = e.args
        cn = norm(c)
        if cn.op == 'num':
            return nf(a) if cn.args[0] != 0 else nf(b)
        an, bn = norm(a), norm(b)
        if an is bn or key(an) == key(bn):
            return nf(an)
        if cn.op in ('lt', 'le'):
            r = ite(cn, an, bn)
            if r.op != 'ite':
                return nf(r)
        return _nf(add(mul(cn, an), mul(sub(1, cn), bn)))
    if op == 'sum':
        v, s, body = e.args
        s = norm(s)
        if s.op == 'num' and s.args[0] == 0:
            return []
        out = []
        for t in nf(body):
            out.extend(_simp(Term(t.c, ((v, s),) + t.b, t.f)))
        return out
    if op == 'red':
        o, v, s, body = e.args
        b = norm(body)
        if v not in fv(b):
            return nf(b)
        return _atom(mk('red', o, v, norm(s), b))
    if op == 'eq':
        return _nf_eq(e)
    if op in ('lt', 'le'):
        return _nf_cmp(e)
    if op in ('max', 'min'):
        items = []
        for a in e.args:
            a = norm(a)
            items.extend(a.args if a.op == op else (a,))
        seen = {}
        for a in items:
            seen.setdefault(key(a), a)
        items = [seen[k] for k in sorted(seen)]
        r = _mm(op, items)
        if r.op != op:
            return nf(r)
        # drop items dominated by another (provable by ranges)
        its = list(r.args)
        kept = []
        for i, a in enumerate(its):
            dom = False
            for j, b in enumerate(its):
                if i != j and (j not in [x[0] for x in kept] or True):
                    lo, hi = (a, b) if op == 'max' else (b, a)
                    if _below(lo, hi) and not (i < j and _below(hi, lo)):
                        dom = True
                        break
            if not dom:
                kept.append((i, a))
        its = [a for _, a in kept] or its[:1]
        if len(its) == 1:
            return nf(its[0])
        if op == 'max' and len(its) == 2:
            # max(min(a, U), L) with L <= U is min(max(a, L), U)
            for x, L in (its, its[::-1]):
                if x.op == 'min':
                    for U in x.args:
                        if nonneg(sub(U, L)):
                            return _nf(emin(emax(emin(*[z for z in x.args if z is not U]), L), U))
        return _atom(mk(op, *its))
    if op == 'app':
        a = mk('app', e.args[0], tuple(norm(i) for i in e.args[1]))
        if a.args[0] in TABLES:
            r = table_app(a.args[0], a.args[1])
            if r.op != 'app' or r.args[0] not in TABLES:
                return nf(r)
        return _atom(a)
    if op == 'op':
        args = tuple(norm(a) if isinstance(a, E) else a for a in e.args[1])
        return _nf_op(e.args[0], args)
    if op == 'lam':
        return _atom(norm(e))
    # generic (uf, duf, ...)
    return _atom(rebuild(e, norm))


def _below(a, b):
    """a <= b, looking through extrema on either side."""
    if nonneg(sub(b, a)):
        return True
    if a.op == 'max':
        return all(_below(x, b) for x in a.args)
    if b.op == 'min':
        return all(_below(a, x) for x in b.args)
    if b.op == 'max':
        return any(_below(a, x) for x in b.args)
    if a.op == 'min':
        return any(_below(x, b) for x in a.args)
    return False


def _nf_op(name, args):
    if name == 'det':
        m = args[0]
        szs = [norm(VARSIZE[v.args[0]]) for v in m.args[0]]
        if all(z.op == 'num' for z in szs) and szs[0] is szs[1] and szs[0].args[0] <= 2:
            i, j = m.args[0]
            g = lambda p, q: subst(m.args[1], {i: num(p), j: num(q)})
            if szs[0].args[0] == 1:
                return _nf(g(0, 0))
            return _nf(sub(mul(g(0, 0), g(1, 1)), mul(g(0, 1), g(1, 0))))
        t = lam((m.args[0][1], m.args[0][0]), m.args[1])
        if key(t) < key(m):
            m = t
        return _atom(mk('op', 'det', (m,)))
    if name == 'inv':
        m, i, j = args
        t = lam((m.args[0][1], m.args[0][0]), m.args[1])
        if key(t) < key(m):
            m, i, j = t, j, i
        return _atom(mk('op', 'inv', (m, i, j)))
    if name == 'abs':
        a = args[0]
        if a.op == 'num':
            return nf(num(abs(a.args[0])))
        if nonneg(a):
            return nf(a)
        b = norm(neg(a))
        if key(b) < key(a):
            a = b
        # |c*x| = |c| |x|
        ts = nf(a)
        if len(ts) == 1 and abs(ts[0].c) != 1 and not ts[0].b:
            t = ts[0]
            return _nf(mul(num(abs(t.c)), mk('op', 'abs', (from_terms([Term(F1, t.b, t.f)]),))))
        return _atom(mk('op', 'abs', (a,)))
    if name in ('floordiv', 'mod'):
        r = floordiv(*args) if name == 'floordiv' else mod(*args)
        if r.op != 'op' or r.args[0] != name or r.args[1] != tuple(args):
            return nf(r)
        return _atom(r)
    if name == 'exp' and args[0].op == 'num' and args[0].args[0] == 0:
        return nf(ONE)
    return _atom(mk('op', name, args))


def _rename_binders(t, avoid):
    m = {}
    nb = []
    for v, s in t.b:
        if v in avoid:
            w = fresh(v.args[0].split('#')[0], VARSIZE[v.args[0]])
            m[v] = w
            nb.append((w, s))
        else:
            nb.append((v, s))
    if not m:
        return t
    return Term(t.c, tuple((v, subst(s, m)) for v, s in nb),
                tuple((subst(a, m), x) for a, x in t.f))


def _mul_terms(t1, t2):
    if t2.b:
        avoid = set(v for v, _ in t1.b)
        for a, _ in t1.f:
            avoid |= fv(a)
        if any(v in avoid for v, _ in t2.b):
            t2 = _rename_binders(t2, avoid)
    if t1.b and t2.f:
        avoid = set()
        for a, _ in t2.f:
            avoid |= fv(a)
        if any(v in avoid for v, _ in t1.b):
            t1 = _rename_binders(t1, avoid | set(v for v, _ in t2.b))
    return Term(t1.c * t2.c, t1.b + t2.b, _merge(t1.f + t2.f))


def _merge(fs):
    d = {}
    order = []
    for a, x in fs:
        if a in d:
            d[a] += x
        else:
            d[a] = x
            order.append(a)
    out = []
    for a in order:
        x = d[a]
        if x == 0:
            continue
        if x > 1 and is_ind(a):
            x = F1
        out.append((a, x))
    return tuple(out)


def _nf_mul(args):
    # collect bases first so that x * x**-1 cancels before expansion
    bases = {}
    order = []
    coef = F1
    for a in args:
        stack = [(a, F1)]
        while stack:
            a, x = stack.pop()
            while a.op == 'pow' and a.args[1].op == 'num' and (a.args[1].args[0].denominator == 1 or x.denominator == 1):
                x = x * a.args[1].args[0]
                a = a.args[0]
            if a.op == 'mul' and x.denominator == 1:
                stack.extend((b, x) for b in a.args)
                continue
            if a.op == 'num' and x.denominator == 1 and (a.args[0] != 0 or x > 0):
                coef *= a.args[0] ** int(x)
                continue
            if a.op not in ('var', 'sym'):
                a = norm(a)
                if a.op in ('mul', 'num') and x.denominator == 1:
                    if a.op == 'num' and a.args[0] == 0:
                        if x > 0:
                            return []
                    else:
                        stack.append((a, x))
                        continue
                if a.op == 'pow' and a.args[1].op == 'num' and (a.args[1].args[0].denominator == 1 or x.denominator == 1):
                    stack.append((a, x))
                    continue
            k = key(a)
            if k in bases:
                bases[k][1] += x
            else:
                bases[k] = [a, x]
                order.append(k)
    if coef == 0:
        return []
    cur = [Term(coef, (), ())]
    for k in order:
        a, x = bases[k]
        if x == 0:
            continue
        ts = _nf_power(a, x)
        if not ts:
            return []
        new = []
        for t1 in cur:
            for t2 in ts:
                new.extend(_simp(_mul_terms(t1, t2)))
        cur = new if len(new) < 4 else _combine(new)
    return cur


def _nf_pow(e):
    b, n = e.args
    n = norm(n)
    if n.op != 'num':
        return _atom(mk('pow', norm(b), n))
    return _nf_power(norm(b), n.args[0])


def _nf_power(a, x):
    ts = nf(a)
    if x == 0:
        return nf(ONE)
    if not ts:
        if x > 0:
            return []
        return _atom(mk('pow', ZERO, num(x)))
    if x == 1:
        return ts
    if x.denominator == 1 and 1 < x <= 6 and (len(ts) > 1 or ts[0].b):
        if len(ts) == 1 and all(is_ind(f) for f, _ in ts[0].f) and ts[0].c == 1 and not ts[0].b:
            return ts
        cur = ts
        for _ in range(int(x) - 1):
            new = []
            for t1 in cur:
                for t2 in ts:
                    new.extend(_simp(_mul_terms(t1, _rename_binders(t2, set(v for v, _ in t2.b)))))
            cur = _combine(new)
        return cur
    if len(ts) == 1 and not ts[0].b:
        t = ts[0]
        if x.denominator == 1:
            return [Term(t.c ** int(x), (), _merge(tuple((f, y * x) for f, y in t.f)))]
        # fractional power of a single product: pull out provably nonnegative / even parts
        if t.c > 0:
            r = _frac_root(t.c, x)
            fs, rest = [], []
            for f, y in t.f:
                z = y * x
                if f.op == 'sym' and SYM.get(f.args[0], {}).get('pos'):
                    fs.append((f, z))
                elif y.denominator == 1 and y % 2 == 0:
                    fs.append((norm(opq('abs', f)), z))
                elif y.denominator != 1 or nonneg(f):
                    fs.append((f, z))
                else:
                    rest.append((f, y))
            if r is None and t.c != 1:
                rest.append(None)
            out = Term(r if r is not None else F1, (), tuple(fs))
            if rest:
                c2 = t.c if r is None else F1
                inner = from_terms([Term(c2, (), tuple(z for z in rest if z))])
                out = Term(out.c, (), _merge(out.f + ((inner, x),)))
            return [Term(out.c, (), _merge(out.f))]
    # opaque power of a sum: make leading coefficient one
    st = sorted(ts, key=lambda t: _tkey(t, {}))
    lead = st[0].c
    if lead != 1 and (x.denominator == 1 or lead > 0):
        if x.denominator == 1:
            pref = lead ** int(x)
            base = from_terms([Term(t.c / lead, t.b, t.f) for t in st])
            base._norm = base
            return [Term(pref, (), ((base, x),))]
        r = _frac_root(lead, x)
        if r is not None:
            base = from_terms([Term(t.c / lead, t.b, t.f) for t in st])
            return [Term(r, (), ((base, x),))]
    base = from_terms(st)
    base._norm = base
    return [Term(F1, (), ((base, x),))]


# -------------------------------------------------- comparisons and ranges
def rng(a):
    """(lo, hi) inclusive symbolic bounds of an atom or None"""
    if a.op == 'var':
        s = VARSIZE[a.args[0]]
        return ZERO, sub(s, 1)
    if a.op == 'app':
        i = ARR.get(a.args[0])
        if i and i.get('hi') is not None:
            h = i['hi']
            if callable(h):
                h = h(a.args[1])
            return i.get('lo', ZERO), sub(h, 1)
        if i and i.get('bool'):
            return ZERO, ONE
        if i and i.get('nonneg'):
            return ZERO, None
    if a.op == 'sym':
        i = SYM.get(a.args[0])
        if i and (i.get('lo') is not None or i.get('hi') is not None):
            return i.get('lo'), i.get('hi')
    if a.op == 'op' and a.args[0] == 'mod':
        return ZERO, sub(a.args[1][1], 1)
    if a.op == 'op' and a.args[0] in ('abs', 'exp', 'norm'):
        return ZERO, None
    if a.op == 'op' and a.args[0] == 'floordiv' and nonneg(a.args[1][0]):
        hi = bound(a.args[1][0], True)
        if hi is not None:
            hi = norm(floordiv(hi, a.args[1][1]))
        return ZERO, hi
    if is_ind(a):
        return ZERO, ONE
    if a.op in ('min', 'max'):
        los = [_numlo(x) for x in a.args]
        if a.op == 'max':
            los = [x for x in los if x is not None]
            return (num(max(los)), None) if los else None
        his = [x for x in a.args if x.op == 'num']
        hi = his[0] if his else a.args[0]
        return (None if None in los else num(min(los))), hi
    return None


def _numlo(e):
    e = norm(e)
    b = bound(e, False)
    return None if b is None else _min_pos(b)


def _possym(a):
    if a.op == 'sym':
        i = SYM.get(a.args[0], {})
        return bool(i.get('pos')) or (i.get('lo') is not None and i['lo'].op == 'num' and i['lo'].args[0] >= 0)
    return False


def bound(e, upper, depth=0):
    """Symbolic upper/lower bound of e with ranged atoms replaced; None if impossible."""
    ts = nf(e)
    parts = []
    for t in ts:
        if t.b:
            if all(_nn_atom(f) for f, _ in t.f) and ((t.c > 0) != upper):
                continue      # nonneg contribution bounded by 0 on this side
            return None
        up = upper if t.c > 0 else not upper
        fs = [num(t.c)]
        for f, x in t.f:
            if _possym(f) or (x.denominator == 1 and x % 2 == 0):
                if f.op == 'sym' and _possym(f):
                    fs.append(power(f, num(x)))
                    continue
                if up:
                    return None
                fs = [ZERO]
                break
            if x < 0:
                return None
            r = rng(f)
            if r is None:
                return None
            lo, hi = r
            if lo is None or not (lo.op == 'num' and lo.args[0] >= 0 or _allpos(lo)):
                return None
            v = hi if up else lo
            if v is None:
                return None
            fs.append(power(v, num(x)))
        parts.append(mul(*fs))
    return add(*parts)


def _allpos(e):
    return all(t.c > 0 and not t.b and all(_possym(f) for f, _ in t.f) for t in nf(e))


def _nn_atom(f):
    if _possym(f):
        return True
    r = rng(f)
    return bool(r and r[0] is not None and r[0].op == 'num' and r[0].args[0] >= 0)


def _min_pos(e):
    """lower bound (Fraction) of a polynomial in size symbols, each >= its lo; None if unknown"""
    tot = F0
    ts = nf(e)
    # shift sizes: s = lo + s', s' >= 0
    syms = {}
    for t in ts:
        if t.b:
            return None
        for f, x in t.f:
            if not _possym(f) or x < 0 or x.denominator != 1:
                return None
            lo = SYM[f.args[0]].get('lo')
            if lo is not None and lo.op == 'num' and lo.args[0] > 0:
                syms[f] = lo
    if syms:
        m = {}
        e2 = e
        for s, lo in syms.items():
            nm = s.args[0] + "'"
            m[s] = add(lo, sym(nm, lo=ZERO, int=True))
        e2 = replace_atoms(norm(e2), m)
        ts = nf(e2)
    for t in ts:
        if not t.f:
            tot += t.c
        elif t.c < 0:
            return None
    return tot


def nonneg(e):
    e = norm(num(e))
    ts = nf(e)
    ok = True
    for t in ts:
        if t.c < 0:
            ok = False
            break
        for f, x in t.f:
            if x.denominator == 1 and x % 2 == 0:
                continue
            if x.denominator != 1 and x.denominator % 2 == 0:
                continue
            if not _nn_atom(f) and f.op not in ('max',):
                ok = False
                break
            if f.op == 'max' and not any(nonneg(a) for a in f.args):
                ok = False
                break
        if not ok:
            break
    if ok:
        return True
    b = bound(e, False)
    if b is None:
        return False
    m = _min_pos(b)
    return m is not None and m >= 0


def nonneg_cases(e, limit=4):
    """e >= 0 in every combination of the conditions it depends on"""
    e = norm(num(e))
    if nonneg(e):
        return True
    for z in walk(e):
        if is_ind(z):
            if not limit:
                return False
            return all(nonneg_cases(replace_atoms(e, {z: v}), limit - 1) for v in (ZERO, ONE))
    return False


def is_int(e):
    if e.op == 'num':
        return e.args[0].denominator == 1
    if e.op == 'var':
        return True
    if e.op == 'sym':
        return bool(SYM.get(e.args[0], {}).get('int'))
    if e.op == 'app':
        i = ARR.get(e.args[0], {})
        return bool(i.get('int') or i.get('bool'))
    if e.op in ('add', 'mul', 'max', 'min'):
        return all(is_int(a) for a in e.args)
    if e.op == 'pow':
        return is_int(e.args[0]) and e.args[1].op == 'num' and e.args[1].args[0].denominator == 1 and e.args[1].args[0] > 0
    if e.op == 'op':
        return e.args[0] in ('floordiv', 'mod', 'len')
    if is_ind(e):
        return True
    if e.op == 'red' and e.args[0] in ('max', 'min'):
        return is_int(e.args[3])
    if e.op == 'sum':
        return is_int(e.args[2])
    if e.op == 'ite':
        return is_int(e.args[1]) and is_int(e.args[2])
    return False


def _bool_test(ts, test):
    """[test(d)] for d a polynomial in a few indicators only, None otherwise"""
    inds = []
    for t in ts:
        if t.b:
            return None
        for f, x in t.f:
            if not is_ind(f):
                return None
            if f not in inds:
                inds.append(f)
                if len(inds) > 4:
                    return None
    import itertools
    out = ZERO
    for vs in itertools.product((0, 1), repeat=len(inds)):
        m = dict(zip(inds, vs))
        v = sum((t.c for t in ts if all(m[f] for f, _ in t.f)), F0)
        if test(v):
            out = add(out, mul(*[f if x else sub(1, f) for f, x in zip(inds, vs)]))
    return _nf(out)


def _nf_eq(e):
    a, b = e.args
    d = norm(sub(a, b))
    if d.op == 'num':
        return nf(ONE) if d.args[0] == 0 else []
    ts = nf(d)
    r = _bool_test(ts, lambda v: v == 0)
    if r is not None:
        return r
    if any(f.op == 'nan' for t in ts for f, _ in t.f):
        return []
    # impossible by ranges
    lo = bound(d, False)
    if lo is not None:
        m = _min_pos(lo)
        if m is not None and m > 0:
            return []
    hi = bound(d, True)
    if hi is not None:
        m = _min_pos(neg(hi))
        if m is not None and m > 0:
            return []
    sp = _split_radix(ts)
    if sp is not None:
        p, q = sp
        return _nf_mul((eq(p, ZERO), eq(q, ZERO)))
    if len(ts) == 2 and ts[0].c == -ts[1].c and all(not t.b and len(t.f) == 1 and t.f[0][1] == 1 and t.f[0][0].op == 'app' for t in ts):
        # an injective array takes equal values at equal positions only
        f, g = ts[0].f[0][0], ts[1].f[0][0]
        if f.args[0] == g.args[0] and len(f.args[1]) == len(g.args[1]) == 1 and ARR.get(f.args[0], {}).get('inj'):
            return _nf(eq(f.args[1][0], g.args[1][0]))
    # canonical sign / scale
    st = sorted(ts, key=lambda t: _tkey(t, {}))
    lead = st[0].c
    d2 = from_terms([Term(t.c / lead, t.b, t.f) for t in st])
    return _atom(mk('eq', d2, ZERO))


def _split_radix(ts):
    """D = s*P + Q with |Q| < s  (P,Q integer): [D==0] = [P==0][Q==0]."""
    if len(ts) < 2 or any(t.b for t in ts):
        return None
    cands = []
    for t in ts:
        fs = [f for f, x in t.f if f.op == 'sym' and SYM.get(f.args[0], {}).get('pos') and x == 1]
        for f in fs:
            if f not in cands:
                cands.append(f)
    for s in cands:
        P, Q = [], []
        for t in ts:
            if any(f is s and x >= 1 for f, x in t.f):
                P.append(Term(t.c, t.b, tuple((f, x - 1) if f is s else (f, x) for f, x in t.f if not (f is s and x == 1))))
            else:
                Q.append(t)
        if not P or not Q:
            continue
        q = from_terms(Q)
        p = from_terms(P)
        if not (is_int(q) and is_int(p)):
            continue
        hi, lo = bound(q, True), bound(q, False)
        if hi is None or lo is None:
            continue
        m1 = _min_pos(sub(sub(s, 1), hi))
        m2 = _min_pos(add(sub(s, 1), lo))
        if m1 is not None and m1 >= 0 and m2 is not None and m2 >= 0:
            return p, q
    # common factor s of all terms (Q empty)
    return None


def _nf_cmp(e):
    a, b = e.args
    strict = e.op == 'lt'
    d = norm(sub(b, a))          # 0 < d  or 0 <= d
    if d.op == 'num':
        ok = d.args[0] > 0 if strict else d.args[0] >= 0
        return nf(ONE) if ok else []
    r = _bool_test(nf(d), (lambda v: v > 0) if strict else (lambda v: v >= 0))
    if r is not None:
        return r
    ints = is_int(d)
    if ints and not strict:
        return _nf(lt(ZERO, add(d, 1)))      # 0 <= d  <=>  0 < d+1
    lo = bound(d, False)
    if lo is not None:
        m = _min_pos(lo)
        if m is not None and (m > 0 or (m == 0 and not strict)):
            return nf(ONE)
    hi = bound(d, True)
    if hi is not None:
        m = _min_pos(neg(hi))
        if m is not None and (m > 0 or (m == 0 and strict)):
            return []
    if not strict:
        # a <= b  <=>  not (b < a)   (total order; NaN handled where it matters)
        return _nf(sub(1, lt(ZERO, neg(d))))
    st = sorted(nf(d), key=lambda t: _tkey(t, {}))
    lead = abs(st[0].c)
    d2 = from_terms([Term(t.c / lead, t.b, t.f) for t in st])
    return _atom(mk('lt', ZERO, d2))


def _split_div(a, b):
    """a = b*Q + R with Q an integer polynomial (R unrestricted)"""
    bt = nf(b)
    if len(bt) != 1 or bt[0].b or not is_int(b):
        return ZERO, a
    Q, R = [], []
    for t in nf(a):
        r = None if t.b else _term_div(t, bt[0])
        if r is not None and all(is_int(f) and x > 0 and x.denominator == 1 for f, x in r.f):
            Q.append(r)
        else:
            R.append(t)
    if not Q:
        return ZERO, a
    return from_terms(Q), from_terms(R)


def _divmod(a, b):
    """(a // b, a % b) when a = b*q + r with provable 0 <= r < b"""
    ts = nf(a)
    bt = nf(b)
    if len(bt) != 1 or bt[0].b:
        return None
    bt = bt[0]
    Q, R = [], []
    for t in ts:
        if t.b:
            R.append(t)
            continue
        c = t.c / bt.c
        fs = dict(t.f)
        ok = c.denominator == 1
        for f, x in bt.f:
            if fs.get(f, 0) >= x:
                fs[f] -= x
            else:
                ok = False
        if ok:
            Q.append(Term(c, (), tuple((f, x) for f, x in fs.items() if x != 0)))
        else:
            R.append(t)
    q, r = from_terms(Q), from_terms(R)
    if r.op == 'num' and r.args[0] == 0:
        return q, r
    if not is_int(r):
        return None
    if nonneg(r) and nonneg(sub(sub(b, 1), r)):
        return q, r
    hi = bound(r, True)
    if nonneg(r) and hi is not None and nonneg(sub(sub(b, 1), hi)):
        return q, r
    if nonneg(norm(sub(neg(r), 1))) and nonneg(norm(add(r, b))):
        return norm(sub(q, 1)), norm(add(r, b))
    return None


def injective_in(e, v):
    """e(v) = e(w) implies v = w, provably"""
    e = norm(e)
    if e is v:
        return True
    if e.op == 'app':
        info = ARR.get(e.args[0], {})
        return bool(info.get('inj')) and len(e.args[1]) == 1 and injective_in(e.args[1][0], v)
    ts = [t for t in nf(e) if v in fv(from_terms([t]))]
    if not ts or any(t.b for t in ts):
        return False
    if len(ts) == 1:
        t = ts[0]
        hit = [(f, x) for f, x in t.f if v in fv(f)]
        if len(hit) != 1 or hit[0][1] != 1:
            return False
        if not all(x > 0 and _possym(f) for f, x in t.f if f is not hit[0][0]):
            return False
        return injective_in(hit[0][0], v)
    rest = from_terms(ts)
    for t in ts:
        for f, x in t.f:
            if v not in fv(f) and _possym(f):
                dm = _divmod(rest, f) or _divmod(neg(rest), f)
                if dm is not None and is_int(dm[0]) and injective_in(dm[0], v):
                    return True
    return False


# -------------------------------------------------- term simplification
def replace_atoms(e, m):
    """replace atoms (exact normalised nodes) by expressions, everywhere (capture avoiding)"""
    fin = frozenset().union(*[fv(a) for a in m]) if m else frozenset()
    fout = frozenset().union(*[fv(a) for a in m.values()]) if m else frozenset()
    cache = {}

    def go(e):
        if e in m:
            return m[e]
        r = cache.get(e)
        if r is not None:
            return r
        op = e.op
        if op in ('sum', 'red', 'lam'):
            vs = e.args[0] if op == 'lam' else (e.args[0 if op == 'sum' else 1],)
            body = e.args[1 if op == 'lam' else 2 if op == 'sum' else 3]
            if any(v in fin for v in vs):
                nb = replace_atoms(body, {a: b for a, b in m.items() if not any(v in fv(a) for v in vs)})
            else:
                if any(v in fout for v in vs):
                    ws = [fresh(v.args[0].split('#')[0], VARSIZE[v.args[0]]) if v in fout else v for v in vs]
                    body = subst(body, dict(zip(vs, ws)))
                    vs = ws
                nb = go(body)
            if op == 'sum':
                r = mksum(vs[0], go(e.args[1]), nb)
            elif op == 'red':
                r = red(e.args[0], vs[0], go(e.args[2]), nb)
            else:
                r = lam(vs, nb)
        elif op in ('num', 'sym', 'var', 'nan', 'inf', 'I'):
            r = e
        else:
            r = rebuild(e, go)
        cache[e] = r
        return r
    return go(e)


def contains(e, pred):
    seen = set()

    def go(e):
        if e in seen:
            return False
        seen.add(e)
        if pred(e):
            return True
        for a in _children(e):
            if go(a):
                return True
        return False
    return go(e)


def walk(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(_children(x))


def in_range(e, size):
    return nonneg(e) and nonneg(norm(sub(sub(size, 1), e)))


def _elim(t, k, m, extra):
    """drop factor k of t, substitute m for binders, multiply by extra"""
    nb = tuple((w, subst(s, m)) for w, s in t.b if w not in m)
    fs = [power(subst(f, m), num(y)) for j, (f, y) in enumerate(t.f) if j != k] + list(extra)
    out = []
    for q in _nf_mul(tuple([num(t.c)] + fs)) if fs else [Term(t.c, (), ())]:
        out.extend(_simp(Term(q.c, nb + q.b, q.f)))
    return out


def _elim_radix(t, k, v, sol, binders):
    """[v == R - S*P], 0 <= v < S, R free of the other binders of P:
    v = R mod S and P = R div S"""
    S = norm(binders[v])
    if S.op == 'num' and S.args[0] == 1:
        return None
    st = nf(S)
    if len(st) != 1 or st[0].b:
        return None
    P, R = [], []
    for q in nf(sol):
        r = _term_div(q, st[0])
        if r is not None:
            P.append(Term(-r.c, r.b, r.f))
        else:
            R.append(q)
    if not P:
        return None
    p, r = from_terms(P), from_terms(R)
    if not (is_int(p) and is_int(r)) or not nonneg(r):
        return None
    return _elim(t, k, {v: mod(r, S)}, [eq(floordiv(r, S), p)])


def _divisible(a, b):
    """monomial-wise: b divides a (b a single term)"""
    bt = nf(b)
    if len(bt) != 1 or bt[0].b:
        ra = nf(a)
        return False
    return all(_term_div(q, bt[0]) is not None for q in nf(a))


def fv_term(q):
    out = set()
    for f, _ in q.f:
        out |= fv(f)
    for w, s in q.b:
        out |= fv(s)
    return out


def _term_div(q, s):
    fs = dict((f, x) for f, x in q.f)
    for f, x in s.f:
        if fs.get(f, 0) < x:
            return None
        fs[f] = fs[f] - x
    if (q.c / s.c).denominator != 1:
        return None
    return Term(q.c / s.c, q.b, tuple((f, fs[f]) for f, _ in q.f if fs[f] != 0))


def _simp(t):
    """Kronecker elimination etc.  Returns list of Terms."""
    lts = [a.args[1] for a, x in t.f if a.op == 'lt' and a.args[0] is ZERO]
    if len(lts) > 1:            # 0 < d and 0 < -d exclude each other
        for i, d in enumerate(lts):
            kd = key(neg(d))
            if any(key(d2) == kd for d2 in lts[i + 1:]):
                return []
    binders = dict(t.b)
    if not binders:
        if t.c == 0:
            return []
        if not any(a.op == 'eq' for a, _ in t.f):
            return [t]
    # 1. eliminate binder by equality (only where the solution provably lies in the binder's range)
    pending = None
    for k, (a, x) in enumerate(t.f):
        if a.op != 'eq':
            continue
        d = a.args[0] if a.args[1] is ZERO else norm(sub(a.args[0], a.args[1]))
        dts = nf(d)
        for v in fv(d):
            if v not in binders:
                continue
            lin = [q for q in dts if any(f is v for f, _ in q.f)]
            if len(lin) == 1 and len(lin[0].f) == 1 and lin[0].f[0][1] == 1 and abs(lin[0].c) == 1 and not lin[0].b:
                rest = from_terms([q for q in dts if q is not lin[0]])
                if v in fv(rest):
                    continue
                sol = norm(neg(rest) if lin[0].c == 1 else rest)
                if not is_int(sol):
                    continue
                if in_range(sol, binders[v]):
                    return _elim(t, k, {v: sol}, [])
                if pending is None:
                    pending = (k, v, sol)
    if pending is not None:
        k, v, sol = pending
        r = _elim_radix(t, k, v, sol, binders)
        if r is not None:
            return r
    # 2. equality app(k..) == X : injective merge and rewriting
    for k, (a, x) in enumerate(t.f):
        if a.op != 'eq':
            continue
        hit = _eq_sides(a, binders)
        if hit is None:
            continue
        ap, other = hit
        # injectivity merge with another equality on the same array and the same rhs
        info = ARR.get(ap.args[0], {})
        if info.get('inj') and len(ap.args[1]) == 1 and ap.args[1][0] in binders:
            for j, (a2, x2) in enumerate(t.f):
                if j == k or a2.op != 'eq':
                    continue
                h2 = _eq_sides(a2, binders)
                if h2 and h2[0].args[0] == ap.args[0] and h2[0] is not ap and h2[0].args[1][0] in binders \
                        and key(h2[1]) == key(other):
                    m = {h2[0].args[1][0]: ap.args[1][0]}
                    nb = tuple((w, s) for w, s in t.b if w not in m)
                    fs = [power(subst(f, m), num(y)) for f, y in t.f]
                    out = []
                    for q in _nf_mul(tuple([num(t.c)] + fs)):
                        out.extend(_simp(Term(q.c, nb + q.b, q.f)))
                    return out
        # rewrite occurrences of app(k) elsewhere by the free side, or the later name by the earlier one
        swap = any(v in binders for v in fv(other))
        if swap and other.op == 'app' and other.args[0] != ap.args[0]:
            if ap.args[0] < other.args[0]:
                ap, other = other, ap
            swap = contains(other, lambda y: y is ap)
        if not swap:
            changed = False
            fs = []
            for j, (f, y) in enumerate(t.f):
                if j != k and ap in _appset(f):
                    g = replace_atoms(f, {ap: other})
                    if g is not f:
                        f, changed = g, True
                fs.append((f, y))
            if changed:
                out = []
                for q in _nf_mul(tuple([num(t.c)] + [power(f, num(y)) for f, y in fs])):
                    out.extend(_simp(Term(q.c, t.b + q.b, q.f)))
                return out
    # 2b. two equalities: keep the simpler difference, and rewrite free symbols by equal ones
    r = _eq_pairs(t, binders)
    if r is not None:
        return r
    # 3. unused binders
    used = set()
    for a, _ in t.f:
        used |= fv(a)
    for v, s in t.b:
        used |= fv(s)
    nb = []
    extra = []
    for v, s in t.b:
        if v in used:
            nb.append((v, s))
        else:
            extra.append(s)
    if extra:
        out = []
        for q in _nf_mul(tuple([num(t.c)] + extra + [power(f, num(y)) for f, y in t.f])):
            out.append(Term(q.c, tuple(nb) + q.b, q.f))
        return out
    return [t]


def _eq_pairs(t, binders):
    eqs = [(k, a.args[0]) for k, (a, x) in enumerate(t.f) if a.op == 'eq' and a.args[1] is ZERO]
    if len(eqs) < 2:
        return None

    def redo(fs):
        out = []
        for q in _nf_mul(tuple([num(t.c)] + [power(f, num(y)) for f, y in fs])):
            out.extend(_simp(Term(q.c, t.b + q.b, q.f)))
        return out
    for k, d in eqs:
        ts = nf(d)
        if len(ts) == 2 and not any(q.b for q in ts) and all(len(q.f) == 1 and q.f[0][1] == 1 and q.f[0][0].op in ('sym', 'var')
                                                             and abs(q.c) == 1 for q in ts) and ts[0].c == -ts[1].c:
            a, b = sorted([q.f[0][0] for q in ts], key=lambda z: str(z.args))
            if a in binders or b in binders:
                continue
            fs, changed = [], False
            for j, (f, y) in enumerate(t.f):
                if j != k and b in fv(f):
                    f = subst(f, {b: a})
                    changed = True
                fs.append((f, y))
            if changed:
                return redo(fs)
    for i, (k, d) in enumerate(eqs):
        for k2, d2 in eqs[i + 1:]:
            n = max(len(nf(d)), len(nf(d2)))
            if n < 3:
                continue
            for c in (1, -1):
                s = norm(add(d, mul(c, d2)))
                if len(nf(s)) < n:
                    big, bd = (k, d) if len(nf(d)) >= len(nf(d2)) else (k2, d2)
                    if any(any(v in binders for v in fv(a)) for a in _appset(s) - _appset(bd)):
                        continue
                    fs = [(f, y) for j, (f, y) in enumerate(t.f) if j != big] + [(eq(s, ZERO), 1)]
                    return redo(fs)
    return None


_appcache = {}


def _appset(e):
    r = _appcache.get(e)
    if r is None:
        r = frozenset(x for x in walk(e) if x.op == 'app')
        _appcache[e] = r
    return r


def _eq_sides(a, binders):
    """eq atom  ->  (app with a binder index, other side) or None"""
    d = a.args[0] if a.args[1] is ZERO else norm(sub(a.args[0], a.args[1]))
    dts = nf(d)
    best = None
    for q in dts:
        if not q.b and len(q.f) == 1 and q.f[0][1] == 1 and abs(q.c) == 1 and q.f[0][0].op == 'app':
            ap = q.f[0][0]
            if not any(v in binders for v in fv(ap)):
                continue
            rest = from_terms([z for z in dts if z is not q])
            other = norm(neg(rest) if q.c == 1 else rest)
            if contains(other, lambda y: y is ap):
                continue
            fr = any(v in binders for v in fv(other))
            cand = (fr, ap, other)
            if best is None or (best[0] and not fr):
                best = cand
    return (best[1], best[2]) if best else None


def _combine(ts):
    if len(ts) < 2:
        return [t for t in ts if t.c != 0]
    d = {}
    for t in ts:
        k = _tkey(t, {})
        if k in d:
            d[k] = Term(d[k].c + t.c, d[k].b, d[k].f)
        else:
            d[k] = t
    return [d[k] for k in sorted(d) if d[k].c != 0]


# -------------------------------------------------- canonical printing
def key(e):
    """alpha-invariant value number of e (string)"""
    k = e._kc
    if k is None:
        k = pr(norm(e), {}, 0)
        e._kc = k
    return k


def same_values(a, b):
    """equal, also up to the identities of max, min and absolute value"""
    if equal(a, b):
        return True
    a, b = norm(num(a)), norm(num(b))
    if contains(a, _nested) or contains(b, _nested):
        memo = {}
        a, b = _merged(a, memo), _merged(b, memo)
        if equal(a, b):
            return True
    ops = lambda z: z.op in ('max', 'min') or z.op == 'op' and (z.args[0] == 'abs' or z.args[0] == 'det' and _det3(z))
    if not (contains(a, ops) or contains(b, ops)):
        return False
    memo = {}
    return equal(_posparts(a, memo), _posparts(b, memo))


def _nested(z):
    return z.op == 'sum' and z.args[2].op in ('sum', 'mul')


def _merged(e, memo):
    """a double sum over n and d < s of a function of n*s + d is one sum"""
    r = memo.get(e)
    if r is not None:
        return r
    go = lambda x: _merged(x, memo)
    op = e.op
    if op in ('num', 'sym', 'var', 'nan', 'inf', 'I'):
        r = e
    elif op == 'red':
        r = red(e.args[0], e.args[1], go(e.args[2]), go(e.args[3]))
    elif op == 'lam':
        r = lam(e.args[0], go(e.args[1]))
    elif op in ('add', 'mul', 'sum'):
        out = []
        for t in nf(e):
            b, f = list(t.b), from_terms([Term(t.c, (), t.f)])
            more = len(b) > 1
            while more:
                more = False
                for n_, (n, sn) in enumerate(b):
                    for d_, (d, sd) in enumerate(b):
                        if n_ == d_ or n in fv(sd) or d in fv(sn):
                            continue
                        p = fresh('p', norm(mul(sn, sd)))
                        g = norm(subst(f, {d: sub(p, mul(n, sd))}))
                        if n not in fv(g) and d not in fv(g) and not any(n in fv(z) or d in fv(z) for _, z in b):
                            f, b, more = g, [x for k, x in enumerate(b) if k not in (n_, d_)] + [(p, norm(mul(sn, sd)))], True
                            break
                    if more:
                        break
            f = rebuild(f, go) if f.op not in ('num', 'sym', 'var', 'nan', 'inf', 'I', 'sum', 'red', 'lam') else go(f) if f is not e else f
            for v, z in b:
                f = _blocks(v, z, f)
            out.append(f)
        r = add(*out)
    else:
        r = rebuild(e, go)
    memo[e] = r
    return r


def _blocks(v, size, f):
    """sum over p < A + B as the sum over p < A and the sum over A <= p < A + B"""
    ts = sorted(nf(size), key=lambda t: _tkey(t, {}))
    if len(ts) < 2 or any(t.b or t.c <= 0 or not t.f or not all(_possym(g) for g, _ in t.f) for t in ts):
        return mksum(v, size, f)
    at, out = ZERO, []
    for t in ts:
        z = norm(from_terms([t]))
        w = fresh('p', z)
        out.append(mksum(w, z, subst(f, {v: add(at, w)})))
        at = add(at, z)
    return add(*out)


def _det3(z):
    szs = [norm(VARSIZE[v.args[0]]) for v in z.args[1][0].args[0]]
    return all(x.op == 'num' and x.args[0] == 3 for x in szs)


def _pos(d):
    """positive part of d in a canonical form: pos(c d) = c pos(d) for c > 0, pos(-d) = pos(d) - d"""
    d = norm(d)
    if d.op == 'num':
        return num(max(d.args[0], F0))
    ts = sorted(nf(d), key=lambda t: _tkey(t, {}))
    c = ts[0].c
    p = from_terms([Term(t.c / c, t.b, t.f) for t in ts])
    r = opq('pos', norm(p))
    return mul(c, r) if c > 0 else add(mul(-c, r), d)


def _linext(e):
    """(d, c, m) with e.args[1] - e.args[0] = d + c m, m a maximum or minimum and c a number"""
    ts = nf(sub(e.args[1], e.args[0]))
    for t in ts:
        if not t.b and len(t.f) == 1 and t.f[0][1] == 1 and t.f[0][0].op in ('max', 'min') and t.c != 0:
            return norm(from_terms([u for u in ts if u is not t])), t.c, t.f[0][0]
    return None


def _posparts(e, memo):
    r = memo.get(e)
    if r is not None:
        return r
    go = lambda x: _posparts(x, memo)
    op = e.op
    if op in ('max', 'min'):
        xs = [go(x) for x in e.args]
        r = xs[0]
        for x in xs[1:]:
            r = add(x, _pos(sub(r, x))) if op == 'max' else sub(x, _pos(sub(x, r)))
    elif op in ('lt', 'le') and _linext(e) is not None:
        # 0 < d + c max(z...): a condition on every z, or on one of them
        f, (d, c, m) = lt if op == 'lt' else le, _linext(e)
        parts = [f(0, add(d, mul(c, z))) for z in m.args]
        if (m.op == 'max') == (c < 0):
            r = mul(*[go(norm(z)) for z in parts])
        else:
            r = sub(1, mul(*[sub(1, go(norm(z))) for z in parts]))
    elif op == 'op' and e.args[0] == 'abs':
        x = go(e.args[1][0])
        r = sub(mul(2, _pos(x)), x)
    elif op == 'op' and e.args[0] == 'det' and _det3(e):
        (i, j), body = e.args[1][0].args
        g = lambda p, q: go(norm(subst(body, {i: num(p), j: num(q)})))
        r = add(*[mul(s, g(0, p), g(1, q), g(2, t)) for (p, q, t), s in
                  (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1))])
    elif op == 'sum':
        r = mksum(e.args[0], go(e.args[1]), go(e.args[2]))
    elif op == 'red':
        r = red(e.args[0], e.args[1], go(e.args[2]), go(e.args[3]))
    elif op == 'lam':
        r = lam(e.args[0], go(e.args[1]))
    elif op in ('num', 'sym', 'var', 'nan', 'inf', 'I'):
        r = e
    else:
        r = rebuild(e, go)
    memo[e] = r
    return r


def equal(a, b):
    a, b = num(a), num(b)
    if a is b:
        return True
    if key(a) == key(b):
        return True
    return not nf(sub(norm(a), norm(b)))


_prmemo = {}


def pr(e, env, depth):
    f = fv(e)
    ek = tuple(sorted((v.args[0], env[v]) for v in f if v in env)) if env else ()
    mk_ = (e, ek, depth if _has_binder(e) else 0)
    r = _prmemo.get(mk_)
    if r is None:
        r = _pr(e, env, depth)
        if len(r) > 60000:   # a long name is its beginning and a digest of all of it
            r = r[:20000] + '#' + hashlib.blake2b(r.encode(), digest_size=20).hexdigest()
        _prmemo[mk_] = r
    return r


_hb = {}


def _has_binder(e):
    r = _hb.get(e)
    if r is None:
        r = e.op in ('sum', 'red', 'lam') or any(_has_binder(c) for c in _children(e))
        _hb[e] = r
    return r


def _pr(e, env, depth):
    op = e.op
    if op == 'num':
        return str(e.args[0])
    if op == 'var':
        return env.get(e, '$' + e.args[0])
    if op == 'sym':
        return e.args[0]
    if op in ('add', 'mul', 'sum', 'pow', 'ite'):
        n = norm(e)
        if n is not e:
            return pr(n, env, depth)
    if op in ('add', 'mul', 'sum', 'pow'):
        ts = nf(e)
        if len(ts) == 1 and not ts[0].b and len(ts[0].f) == 1 and ts[0].c == 1 and ts[0].f[0][1] == 1 and ts[0].f[0][0] is not e:
            return pr(ts[0].f[0][0], env, depth)
        if op == 'pow' and len(ts) == 1 and not ts[0].b and len(ts[0].f) == 1 and ts[0].f[0] == (e, 1):
            return 'pow(%s,%s)' % (pr(e.args[0], env, depth), pr(e.args[1], env, depth))
        return '(' + ' + '.join(sorted(('%s*' % t.c if t.c != 1 else '') + _tkey(t, env, depth) for t in ts)) + ')'
    if op == 'pow':
        return 'pow(%s,%s)' % (pr(e.args[0], env, depth), pr(e.args[1], env, depth))
    if op == 'app':
        return '%s[%s]' % (e.args[0], ','.join(pr(a, env, depth) for a in e.args[1]))
    if op == 'red':
        v = e.args[1]
        env2 = dict(env)
        env2[v] = '%%%d' % depth
        return '%s{%s<%s}(%s)' % (e.args[0], env2[v], pr(e.args[2], env, depth), pr(e.args[3], env2, depth + 1))
    if op == 'lam':
        env2 = dict(env)
        for i, v in enumerate(e.args[0]):
            env2[v] = '%%%d' % (depth + i)
        return '\\%s.%s' % (','.join(env2[v] for v in e.args[0]), pr(e.args[1], env2, depth + len(e.args[0])))
    if op in ('max', 'min', 'eq') and e.op != 'eq':
        return '%s(%s)' % (op, ', '.join(sorted(pr(a, env, depth) for a in e.args)))
    if op == 'op':
        return '%s(%s)' % (e.args[0], ', '.join(pr(a, env, depth) if isinstance(a, E) else str(a) for a in e.args[1]))
    if op == 'uf':
        n, ls, out = e.args
        return '%s(%s)[%s]' % (n, '; '.join(pr(a, env, depth) for a in ls), ','.join(pr(a, env, depth) for a in out))
    if op == 'duf':
        n, ls, out, an, ii = e.args
        return 'D%s.%s(%s)[%s|%s]' % (an, n, '; '.join(pr(a, env, depth) for a in ls),
                                      ','.join(pr(a, env, depth) for a in out), ','.join(pr(a, env, depth) for a in ii))
    return '%s(%s)' % (op, ', '.join(pr(a, env, depth) if isinstance(a, E) else str(a) for a in e.args))


def _fstr(f, x, env, depth):
    s = pr(f, env, depth)
    return s if x == 1 else '%s^%s' % (s, x)


def _tkey(t, env, depth=0):
    if not t.b:
        return '*'.join(sorted(_fstr(f, x, env, depth) for f, x in t.f)) or '1'
    bs = [v for v, _ in t.b]
    sizes = dict(t.b)
    n = len(bs)
    d2 = depth + n
    fvs = [(f, x, fv(f)) for f, x in t.f]
    if n == 1:
        env2 = dict(env)
        env2[bs[0]] = '%%%d' % depth
        return 'S{%s<%s}' % (env2[bs[0]], pr(sizes[bs[0]], env, depth)) + '*'.join(
            sorted(_fstr(f, x, env2, d2) for f, x, _ in fvs))
    color = {v: pr(sizes[v], {**env, **{w: '?' for w in bs}}, depth) for v in bs}
    ranks = {v: 0 for v in bs}

    def rank():
        order = sorted(set(color.values()))
        return {v: order.index(color[v]) for v in bs}
    ranks = rank()
    for _ in range(n + 1):
        newc = {}
        for v in bs:
            env2 = dict(env)
            for w in bs:
                env2[w] = '?%d' % ranks[w]
            env2[v] = '@'
            newc[v] = '%04d|' % ranks[v] + '*'.join(sorted(_fstr(f, x, env2, d2) for f, x, s in fvs if v in s))
        color = newc
        nr = rank()
        if nr == ranks or len(set(nr.values())) == n:
            ranks = nr
            break
        ranks = nr
    groups = {}
    for v in bs:
        groups.setdefault(ranks[v], []).append(v)
    glist = [groups[k] for k in sorted(groups)]
    best = None
    cnt = 0
    for perm in _iproduct(*[list(permutations(g)) if len(g) <= 5 else [tuple(g)] for g in glist]):
        cnt += 1
        if cnt > 5000:
            break
        order = [v for g in perm for v in g]
        env2 = dict(env)
        for i, v in enumerate(order):
            env2[v] = '%%%d' % (depth + i)
        s = ''.join('S{%s<%s}' % (env2[v], pr(sizes[v], env2, d2)) for v in order) + '*'.join(
            sorted(_fstr(f, x, env2, d2) for f, x, _ in fvs))
        if best is None or s < best:
            best = s
    return best


def show(e, limit=600):
    try:
        s = pr(norm(e), {}, 0)
    except Exception:
        s = '<%s>' % e.op
    return s if len(s) <= limit else s[:limit] + '...'


# -------------------------------------------------- differentiation
def uf(name, lams, out):
    return mk('uf', name, tuple(lams), tuple(num(o) for o in out))


class NotDifferentiable(Exception):
    pass


def diff(e, names, idx):
    """d e / d app(name, idx[name]) for the single array `names`=(name,) at index tuple idx."""
    name = names

    cache = {}

    def dep(e):
        r = cache.get(e)
        if r is None:
            r = (e.op == 'app' and e.args[0] == name) or (e.op == 'sym' and e.args[0] == name) or any(dep(c) for c in _children(e))
            cache[e] = r
        return r

    def d(e):
        if not dep(e):
            return ZERO
        op = e.op
        if op == 'app' and e.args[0] == name:
            return mul(*[eq(a, b) for a, b in zip(e.args[1], idx)])
        if op == 'sym':
            return ONE
        if op == 'add':
            return add(*[d(a) for a in e.args])
        if op == 'mul':
            out = []
            for i, a in enumerate(e.args):
                da = d(a)
                if da is not ZERO:
                    out.append(mul(*(list(e.args[:i]) + [da] + list(e.args[i + 1:]))))
            return add(*out)
        if op == 'pow':
            b, n = e.args
            if dep(n):
                return mul(e, add(mul(d(n), opq('log', b)), mul(n, div(d(b), b))))
            return mul(n, power(b, sub(n, 1)), d(b))
        if op == 'sum':
            v, s, body = e.args
            return mksum(v, s, d(body))
        if op == 'ite':
            return ite(e.args[0], d(e.args[1]), d(e.args[2]))
        if op in INDICATORS:
            return ZERO
        if op == 'uf':
            n, ls, out = e.args
            parts = []
            for k, l in enumerate(ls):
                if not dep(l):
                    continue
                if l.op == 'lam':
                    vs = [fresh(v.args[0].split('#')[0], VARSIZE[v.args[0]]) for v in l.args[0]]
                    body = subst(l.args[1], dict(zip(l.args[0], vs)))
                    term = mul(mk('duf', n, ls, out, k, tuple(vs)), d(body))
                    for v in reversed(vs):
                        term = mksum(v, VARSIZE[v.args[0]], term)
                else:
                    term = mul(mk('duf', n, ls, out, k, ()), d(l))
                parts.append(term)
            return add(*parts)
        if op in ('max', 'min') and len(e.args) == 2:
            a, b = e.args
            c = lt(b, a) if op == 'max' else lt(a, b)
            return ite(c, d(a), d(b))
        if op == 'op':
            n, args = e.args
            if n == 'exp':
                return mul(e, d(args[0]))
            if n == 'log':
                return div(d(args[0]), args[0])
            if n == 'sin':
                return mul(opq('cos', args[0]), d(args[0]))
            if n == 'cos':
                return mul(-1, opq('sin', args[0]), d(args[0]))
            if n == 'tanh':
                return mul(sub(1, power(e, 2)), d(args[0]))
            if n == 'abs':
                return mul(opq('sign', args[0]), d(args[0]))
            if n == 'stop_gradient':
                return ZERO
            if n == 'det':
                # d det(M) = det(M) * sum_ij inv(M)_ji dM_ij
                m = args[0]
                (i, j) = m.args[0]
                a, b = fresh('i', VARSIZE[i.args[0]]), fresh('j', VARSIZE[j.args[0]])
                body = subst(m.args[1], {i: a, j: b})
                t = mul(e, opq('inv', m, b, a), d(body))
                return mksum(a, VARSIZE[a.args[0]], mksum(b, VARSIZE[b.args[0]], t))
            if n == 'inv':
                m, p, q = args
                (i, j) = m.args[0]
                a, b = fresh('i', VARSIZE[i.args[0]]), fresh('j', VARSIZE[j.args[0]])
                body = subst(m.args[1], {i: a, j: b})
                t = mul(-1, opq('inv', m, p, a), d(body), opq('inv', m, b, q))
                return mksum(a, VARSIZE[a.args[0]], mksum(b, VARSIZE[b.args[0]], t))
        # generic opaque derivative
        return mk('op', 'd[%s]' % name, (e,) + tuple(idx))
    return d(e)


def replace_apps(e, fns):
    """replace app(name, args...) / sym(name) by fns[name](args), args already rewritten"""
    cache = {}

    def go(e):
        r = cache.get(e)
        if r is not None:
            return r
        op = e.op
        if op == 'app' and e.args[0] in fns:
            r = fns[e.args[0]]([go(a) for a in e.args[1]])
        elif op == 'sym' and e.args[0] in fns:
            r = fns[e.args[0]]([])
        elif op == 'sum':
            r = mksum(e.args[0], go(e.args[1]), go(e.args[2]))
        elif op == 'red':
            r = red(e.args[0], e.args[1], go(e.args[2]), go(e.args[3]))
        elif op == 'lam':
            r = lam(e.args[0], go(e.args[1]))
        elif op in ('num', 'sym', 'var', 'nan', 'inf', 'I'):
            r = e
        else:
            r = rebuild(e, go)
        cache[e] = r
        return r
    return go(e)


def mentions(e, names):
    """does e contain an app/sym whose name is in names"""
    return contains(e, lambda z: z.op in ('app', 'sym') and z.args[0] in names)


def difftext(a, b, limit=500):
    """the two terms, from shortly before their first difference"""
    try:
        s, t = pr(norm(a), {}, 0), pr(norm(b), {}, 0)
    except Exception as ex:
        return 'terms differ'
    k = 0
    while k < min(len(s), len(t)) and s[k] == t[k]:
        k += 1
    k0 = max(0, k - 80)
    pre = '...' if k0 else ''
    return 'analysed: %s%s\n    required: %s%s' % (pre, s[k0:k0 + limit], pre, t[k0:k0 + limit])
