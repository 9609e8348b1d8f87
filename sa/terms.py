"""Value terms: the abstract values of the value-flow analysis.

Numeric and boolean values are Laurent polynomials (with exact rational
coefficients) over *atoms*.  Booleans are the polynomials which only take the
values 0 and 1: every comparison is written over indicator atoms (``neg`` and
``zero`` of a sign-normalised polynomial, ``eq``, ``isnone``, ``truthy``,
``pred``), conjunction is multiplication and negation is ``1 - b``.  A value
which differs between branches is therefore the multilinear polynomial
``c*a + (1-c)*b``; two expressions which compute the same thing in different
ways get the same normal form.
"""

from fractions import Fraction
from functools import lru_cache
import itertools

_table = {}
_counter = itertools.count()


class T(object):
    """Interned immutable term."""

    __slots__ = ('op', 'args', 'id', '_syms', '_hash')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        raise TypeError("term used as python bool: %r" % (self,))


def mk(op, *args):
    key = (op,) + tuple((type(a), a) if isinstance(a, (bool, int, float)) else a for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_counter)
        t._hash = hash((op, t.id))
        t._syms = None
        _table[key] = t
    return t


# ---------------------------------------------------------------- symbols

class Facts(object):
    def __init__(self):
        self.info = {}

    def get(self, t):
        return self.info.get(t, {})


FACTS = Facts()


def sym(name, **facts):
    """A named unknown. Facts: kind, int, pos, nonneg, nullable, hi, lo."""
    t = mk('sym', name)
    if facts:
        FACTS.info.setdefault(t, {}).update(facts)
    return t


_fresh = itertools.count()


def fresh(prefix, **facts):
    return sym('%s~%d' % (prefix, next(_fresh)), **facts)


def fact(t, key, default=False):
    return FACTS.info.get(t, {}).get(key, default)


# ------------------------------------------------------------ polynomials
# A Num term: op 'num', args = (items,) with items a sorted tuple of
# (mono, coef); mono is a tuple of (atom, exponent) sorted by atom id.

INDICATORS = ('neg', 'zero', 'eq', 'isnone', 'truthy', 'pred')


def _num(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=_mono_key))
    return mk('num', items)


def _mono_key(mc):
    return tuple((a.id, e) for a, e in mc[0])


def num(value):
    """Numeric constant."""
    if isinstance(value, T):
        return value
    if isinstance(value, bool):
        value = int(value)
    if isinstance(value, float):
        if value != value:
            return atom(mk('sym', 'NAN'))
        if value in (float('inf'), float('-inf')):
            r = atom(mk('sym', 'INF'))
            return r if value > 0 else neg(r)
        value = Fraction(repr(value))
    value = Fraction(value)
    return _num({(): value}) if value != 0 else ZERO


ZERO = mk('num', ())
ONE = mk('num', (((), Fraction(1)),))
INF = None  # set below


def atom(t):
    """Numeric term of a single atom."""
    if t.op == 'num':
        return t
    return mk('num', ((((t, 1),), Fraction(1)),))


INF = atom(mk('sym', 'INF'))
NAN = atom(mk('sym', 'NAN'))
PI = atom(sym('PI', pos=True, kind='num'))


def is_num(t):
    return isinstance(t, T) and t.op == 'num'


def const_value(t):
    """Fraction if the term is constant, else None."""
    if isinstance(t, T) and t.op == 'num':
        if not t.args[0]:
            return Fraction(0)
        if len(t.args[0]) == 1 and t.args[0][0][0] == ():
            return t.args[0][0][1]
    return None


def single_atom(t):
    """The atom if the term is exactly one atom, else None."""
    if t.op != 'num':
        return t
    if len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def _mono_mul(m1, m2):
    """Product of two monomials: (mono or None for zero, extra num or None)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    extra = None
    for a, e in m2:
        if a in d:
            if a.op in INDICATORS:
                continue
            ne = d[a] + e
            if ne == 0:
                del d[a]
            else:
                d[a] = ne
        else:
            d[a] = e
    inds = [a for a in d if a.op in INDICATORS]
    if len(inds) > 1:
        if _conflict(inds):
            return None, None
        drop = _implied(inds)
        if drop is None:
            return None, None
        for a in drop:
            del d[a]
        # drop literals implied by others: eq(t,c) implies truthy(t) etc. is
        # not normalised, only contradictions are
    for a in list(d):
        e = d[a]
        if a.op == 'app' and a.args[0] == 'sqrt' and (e >= 2 or e <= -2):
            q, r = divmod(e, 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            if r == 0:
                del d[a]
            else:
                d[a] = r
            extra = (extra if extra is not None else ONE)
            extra = mul(extra, power(a.args[1], q))
        elif a.op == 'app' and a.args[0] == 'abs' and (e >= 2 or e <= -2):
            q, r = divmod(e, 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            if r == 0:
                del d[a]
            else:
                d[a] = r
            extra = (extra if extra is not None else ONE)
            extra = mul(extra, power(a.args[1], 2 * q))
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), extra


_order_cache = {}


def _ordered(p, q):
    """Pairs (s, t) of signs for which s*p <= t*q as the difference is a square."""
    k = (p, q)
    r = _order_cache.get(k)
    if r is None:
        r = []
        if _has_square(p) and _has_square(q):
            d, e = sub(q, p), add(q, p)
            for s, t, x in ((1, 1, d), (-1, -1, neg(d)), (-1, 1, e), (1, -1, neg(e))):
                if is_square(x):
                    r.append((s, t))
        _order_cache[k] = r
    return r


def _implied(inds):
    """Literals q < 0 which follow from a literal p < 0 as p - q is a square;
    None when the literals exclude each other."""
    ls = [a for a in inds if a.op in ('neg', 'zero') and _has_square(a.args[0])]
    if len(ls) < 2:
        return ()
    out = []
    for a in ls:
        for b in ls:
            if a is b or a.args[0] is b.args[0]:
                continue
            for s, t in _ordered(a.args[0], b.args[0]):
                x = -1 if a.op == 'neg' else 0
                y = -1 if b.op == 'neg' else 0
                if s * x > t * y:
                    return None
                if (s, t) == (1, 1) and x == y == -1 and a not in out and b not in out:
                    out.append(a)
    return out


def _has_square(p):
    return len(p.args[0]) > 1 and any(m and all(e % 2 == 0 for a, e in m) for m, c in p.args[0])


def is_square(p):
    """p is a positive number times the square of a polynomial."""
    ms = p.args[0]
    n = len(ms)
    roots = [(m, c) for m, c in ms if all(e % 2 == 0 for a, e in m)]
    k = len(roots)
    if not k or n > k * (k + 1) // 2 or k > 5:
        return False
    c0 = roots[0][1]
    if c0 <= 0:
        return False
    parts = []
    for m, c in roots:
        q = _frac_sqrt(c / c0)
        if q is None:
            return False
        parts.append(_num({tuple((a, e // 2) for a, e in m): q}))
    for signs in itertools.product((1, -1), repeat=k - 1):
        r = add(parts[0], *[scale(t, s) for t, s in zip(parts[1:], signs)])
        if scale(mul(r, r), c0) is p:
            return True
    return False


def _frac_sqrt(c):
    if c < 0:
        return None
    import math
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


_split_cache = {}


def _split_const(p):
    r = _split_cache.get(p)
    if r is None:
        c = ([c for m, c in p.args[0] if not m] or [0])[0]
        q = sub(p, num(c)) if c else p
        lead = q.args[0][0][1] if q.args[0] else 1
        r = _split_cache[p] = (scale(q, 1 / Fraction(lead)), Fraction(c) / lead)
    return r


def _conflict(inds):
    seen = {}
    for a in inds:
        if a.op in ('neg', 'zero'):
            p = a.args[0]
            other = seen.get(('sign', p))
            if other is not None and other != a.op:
                return True
            seen[('sign', p)] = a.op
            if a.op == 'zero' and len(p.args[0]) > 0:
                k, c = _split_const(p)
                other = seen.get(('at', k))
                if other is not None and other != c:
                    return True
                seen[('at', k)] = c
            sa = single_atom(p)
            if sa is not None and ('none', sa) in seen:
                return True
            if sa is not None:
                seen[('val', sa)] = True
        elif a.op == 'eq':
            t, c = a.args
            other = seen.get(('eq', t))
            if other is not None and other != (type(c), c) and not isinstance(c, T) and not isinstance(other[1], T):
                return True
            seen[('eq', t)] = (type(c), c)
            if ('none', t) in seen:
                return True
            seen[('val', t)] = True
        elif a.op == 'isnone':
            t = a.args[0]
            if ('val', t) in seen:
                return True
            seen[('none', t)] = True
        elif a.op == 'truthy':
            t = a.args[0]
            if ('none', t) in seen:
                return True
            seen[('val', t)] = True
    return False


def add(*ts):
    d = {}
    for t in ts:
        t = as_num(t)
        for m, c in t.args[0]:
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
    return _num(d)


def neg(t):
    t = as_num(t)
    return mk('num', tuple((m, -c) for m, c in t.args[0]))


def sub(a, b):
    return add(a, neg(b))


def scale(t, c):
    t = as_num(t)
    if c == 0:
        return ZERO
    return mk('num', tuple((m, k * c) for m, k in t.args[0]))


_mul_cache = {}


def mul(a, b):
    a = as_num(a)
    b = as_num(b)
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    key = (a, b) if a.id <= b.id else (b, a)
    r = _mul_cache.get(key)
    if r is not None:
        return r
    d = {}
    extras = []
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m, extra = _mono_mul(m1, m2)
            if m is None:
                continue
            c = c1 * c2
            if extra is not None:
                extras.append(mul(_num({m: c}), extra))
                continue
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
    r = _num(d)
    if extras:
        r = add(r, *extras)
    _mul_cache[key] = r
    return r


def inverse(t):
    t = as_num(t)
    if not t.args[0]:
        return atom(app_raw('?div0'))
    lits = _liftable(t)
    if lits:
        return lift(t, inverse)
    if len(t.args[0]) == 1:
        m, c = t.args[0][0]
        return _num({tuple((a, -e) for a, e in m): 1 / c})
    # factor: common monomial and leading coefficient
    items = t.args[0]
    lead = items[0][1]
    common = None
    for m, c in items:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            for a in list(common):
                if a in dm and (dm[a] > 0) == (common[a] > 0):
                    common[a] = min(common[a], dm[a]) if common[a] > 0 else max(common[a], dm[a])
                else:
                    del common[a]
    # positive denominators of some of the terms
    for m, c in items:
        for a, e in m:
            if e < common.get(a, 0) and a.op not in INDICATORS and atom_sign(a) == {'+'}:
                common[a] = e
    cm = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda ae: ae[0].id))
    cnum = _num({cm: 1 / lead})
    rest = mul(t, cnum)
    if len(rest.args[0]) == 1:
        return mul(inverse(rest), cnum)
    p = mk('poly', rest)
    return mul(_num({((p, -1),): Fraction(1)}), cnum)


def div(a, b):
    return mul(a, inverse(b))


def power(t, n):
    t = as_num(t)
    if isinstance(n, T):
        c = const_value(n)
        if c is None:
            return lift2(t, n, lambda x, y: atom(app_raw('pow', x, y)))
        n = c
    n = Fraction(n)
    if n.denominator == 1:
        n = int(n)
        if n == 0:
            return ONE
        if n < 0:
            return power(inverse(t), -n)
        r = ONE
        for _ in range(n):
            r = mul(r, t)
        return r
    if n == Fraction(1, 2):
        return sqrt(t)
    return lift2(t, num(n), lambda x, y: atom(app_raw('pow', x, y)))


def exact_div(p, d, steps=60):
    """p / d when the polynomial d divides p exactly, else None."""
    p, d = as_num(p), as_num(d)
    if not d.args[0]:
        return None
    if not p.args[0]:
        return ZERO
    ats = sorted({a for t in (p, d) for m, c in t.args[0] for a, e in m}, key=lambda a: a.id)
    if any(e < 0 for m, c in d.args[0] for a, e in m) or any(a.op in INDICATORS for m, c in d.args[0] for a, e in m):
        return None

    def expo(m):
        dm = dict(m)
        return tuple(dm.get(a, 0) for a in ats)

    dl, dc = max(d.args[0], key=lambda mc: expo(mc[0]))
    q = ZERO
    for _ in range(steps):
        if not p.args[0]:
            return q
        pl, pc = max(p.args[0], key=lambda mc: expo(mc[0]))
        dm = dict(pl)
        for a, e in dl:
            n = dm.get(a, 0) - e
            if n < 0:
                return None
            if n:
                dm[a] = n
            else:
                dm.pop(a, None)
        t = _num({tuple(sorted(dm.items(), key=lambda ae: ae[0].id)): pc / dc})
        q = add(q, t)
        p = sub(p, mul(t, d))
    return None


def expand_inverses(t):
    """Multiply away the inverse polynomials of a term which should be zero."""
    t = as_num(t)
    for _ in range(20):
        best = {}
        for m, c in t.args[0]:
            for a, e in m:
                if a.op == 'poly' and e < 0:
                    best[a] = max(best.get(a, 0), -e)
        if not best:
            return t
        p, e = sorted(best.items(), key=lambda x: x[0].id)[0]
        d = []
        for m, c in t.args[0]:
            dm = dict(m)
            pe = dm.pop(p, 0) + e
            base = _num({tuple(sorted(dm.items(), key=lambda ae: ae[0].id)): c})
            d.append(mul(base, power(p.args[0], pe)))
        t = add(*d) if d else ZERO
    return t


def as_num(v):
    if isinstance(v, T):
        if v.op == 'num':
            return v
        if v.op == 'ite':
            return add(mul(v.args[0], as_num(v.args[1])), mul(not_(v.args[0]), as_num(v.args[2])))
        return atom(v)
    if v is None:
        return atom(mk('none'))
    if isinstance(v, (bool, int, float, Fraction)):
        return num(v)
    return atom(mk('py', v))


# ------------------------------------------------------------- traversal

def children(t):
    """Sub-terms of a term (flattened)."""
    if t.op == 'num':
        for m, c in t.args[0]:
            for a, e in m:
                yield a
    else:
        for a in _flat(t.args):
            yield a


def _flat(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in _flat(a):
                yield x


def syms(t):
    """frozenset of all sym terms in a term or value."""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= syms(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    if t._syms is None:
        if t.op == 'sym':
            t._syms = frozenset([t])
        else:
            r = frozenset()
            for c in children(t):
                r |= syms(c)
            t._syms = r
    return t._syms


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            for y in subterms(x, seen):
                yield y
        return
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for c in children(t):
        for y in subterms(c, seen):
            yield y


def subst(t, mapping, cache=None):
    """Substitute syms (or any atoms) and renormalise."""
    if not mapping:
        return t
    if cache is None:
        cache = {}
        known = []
        for v in mapping.values():
            a = single_atom(v) if isinstance(v, T) and v.op == 'num' else None
            if a is not None and a.op == 'app' and a.args[0] == 'first':
                known.append(_first_cond(a))
        if known:
            cache['#known'] = known
    return _subst(t, mapping, cache)


_first_conds = {}


def _first_cond(a):
    """The condition which holds at a 'first index' atom."""
    c = _first_conds.get(a)
    if c is None:
        _, b, size, cb = a.args
        c = _first_conds[a] = _subst(cb, {b: atom(a)}, {})
    return c


def _known(r, known):
    if isinstance(r, T) and r.op == 'num' and single_atom(r) is not None and single_atom(r).op in INDICATORS:
        for c in known:
            m = mul(c, r)
            if m is c:
                return ONE
            if m is ZERO:
                return ZERO
    return r


def _subst(t, mapping, cache):
    if isinstance(t, tuple):
        return tuple(_subst(x, mapping, cache) for x in t)
    if not isinstance(t, T):
        return t
    if t in cache:
        return cache[t]
    if t in mapping:
        r = mapping[t]
    elif t.op == 'sym':
        r = t
    elif t.op == 'num':
        parts = []
        changed = False
        for m, c in t.args[0]:
            sub_m = []
            ch = False
            for a, e in m:
                na = _subst(a, mapping, cache)
                if na is not a:
                    ch = True
                sub_m.append((na, e))
            if not ch:
                parts.append((None, m, c))
            else:
                changed = True
                parts.append((sub_m, m, c))
        if not changed:
            r = t
        else:
            d = {}
            out = []
            for sub_m, m, c in parts:
                if sub_m is None:
                    d[m] = d.get(m, 0) + c
                else:
                    p = num(c)
                    for na, e in sub_m:
                        p = mul(p, power(as_num(na), e))
                        if p is ZERO:
                            break
                    out.append(p)
            r = add(_num(d), *out)
    else:
        nargs = tuple(_subst(a, mapping, cache) if isinstance(a, (T, tuple)) else a for a in t.args)
        r = t if nargs == t.args else rebuild(t.op, nargs)
        if r is not t and '#known' in cache and t.op in INDICATORS:
            r = _known(as_num(r), cache['#known'])
    cache[t] = r
    return r


def rebuild(op, args):
    if op == 'neg':
        return cmp_lt(args[0])
    if op == 'zero':
        return cmp_eq0(args[0])
    if op == 'eq':
        return eq_lit(args[0], args[1])
    if op == 'isnone':
        return isnone(args[0])
    if op == 'truthy':
        return truthy(args[0])
    if op == 'poly':
        return args[0]
    if op == 'app':
        return app(args[0], *args[1:])
    if op == 'sum':
        return rsum(args[0], args[1], args[2])
    if op == 'ite':
        return ite(*args)
    if op == 'pred':
        return _pred(*args)
    if op == 'str':
        return _str(args[0])
    if op == 'fmt' and isinstance(args[1], T) and args[1].op == 'num' and args[0][-1:] in 'dsfeEgG':
        c = const_value(args[1])
        if c is not None:
            try:
                return args[0] % (int(c) if c.denominator == 1 else float(c))
            except (TypeError, ValueError, OverflowError):
                pass
    return mk(op, *args)


def _str(parts):
    if len(parts) == 1 and isinstance(parts[0], T) and (is_num(parts[0]) or parts[0].op == 'ite' or stringlike(parts[0])):
        return parts[0]
    if not any(isinstance(p, T) and (p.op in ('py', 'str', 'ite') or is_num(p)) for p in parts) and \
            not any(isinstance(p, str) and (not p or k and isinstance(parts[k - 1], str)) for k, p in enumerate(parts)):
        return mk('str', tuple(parts))
    out = []
    for i, p in enumerate(parts):
        if isinstance(p, T) and is_num(p):
            if single_atom(p) is not None:
                p = single_atom(p)
            elif literals(p):
                l = literals(p)[0]
                rest = tuple(parts[i + 1:])
                return ite(atom(l), _str(tuple(out) + (restrict(p, l, 1),) + rest), _str(tuple(out) + (restrict(p, l, 0),) + rest))
        if isinstance(p, T) and p.op == 'ite':
            rest = tuple(parts[i + 1:])
            return ite(p.args[0], _str(tuple(out) + (p.args[1],) + rest), _str(tuple(out) + (p.args[2],) + rest))
        ps = p.args[0] if isinstance(p, T) and p.op == 'str' else (p.args[0],) if isinstance(p, T) and p.op == 'py' and isinstance(p.args[0], str) else (p,)
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '' or isinstance(q, T):
                out.append(q)
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    if not out:
        return ''
    return mk('str', tuple(out))


# --------------------------------------------------------------- indicators

def literals(t):
    """Indicator atoms occurring at polynomial level of a numeric term."""
    r = []
    if isinstance(t, T) and t.op == 'num':
        s = set()
        for m, c in t.args[0]:
            for a, e in m:
                if a.op in INDICATORS and a not in s:
                    s.add(a)
                    r.append(a)
    return sorted(r, key=lambda a: a.id)


def restrict(t, lit, value):
    """Set an indicator to 0/1 at the polynomial level."""
    if not (isinstance(t, T) and t.op == 'num'):
        return t
    d = {}
    for m, c in t.args[0]:
        has = False
        dead = False
        for a, e in m:
            if a is lit:
                has = True
            elif value and a.op in INDICATORS and _conflict([a, lit]):
                dead = True
        if dead:
            continue
        if has:
            if not value:
                continue
            m = tuple((a, e) for a, e in m if a is not lit)
        n = d.get(m, 0) + c
        d[m] = n
    return _num(d)


def _liftable(t):
    return literals(t)


def lift(t, f, limit=7):
    """f applied per case of the indicators of t: sum of cases."""
    ls = literals(t)
    if not ls:
        return f(t)
    if len(ls) > limit:
        return atom(mk('app', '?lift', t))
    l = ls[0]
    a = lift(restrict(t, l, 1), f, limit)
    b = lift(restrict(t, l, 0), f, limit)
    return ite(atom(l), a, b)


def lift2(a, b, f, limit=7):
    ls = literals(a) + literals(b)
    if not ls:
        return f(a, b)
    l = ls[0]
    if len(set(ls)) > limit:
        return atom(mk('app', '?lift', a, b))
    x = lift2(restrict(a, l, 1), restrict(b, l, 1), f, limit)
    y = lift2(restrict(a, l, 0), restrict(b, l, 0), f, limit)
    return ite(atom(l), x, y)


def ite(c, a, b):
    """Conditional value."""
    c = as_num(c)
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b or (type(a) == type(b) and not isinstance(a, T) and a == b):
        return a
    if _numeric(a) and _numeric(b):
        return add(mul(c, a), mul(not_(c), b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    # simplify nested with the same condition
    if isinstance(a, T) and a.op == 'ite':
        if a.args[0] is c:
            a = a.args[1]
        elif implies(c, a.args[0]):
            a = a.args[1]
        elif mul(c, a.args[0]) is ZERO:
            a = a.args[2]
    if isinstance(b, T) and b.op == 'ite':
        nc = not_(c)
        if b.args[0] is c:
            b = b.args[2]
        elif implies(nc, b.args[0]):
            b = b.args[1]
        elif mul(nc, b.args[0]) is ZERO:
            b = b.args[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


NONNUM_KINDS = ('str', 'path', 'any', 'list', 'dict', 'obj', 'tuple', 'seq', 'choice')


def _numeric(v):
    if isinstance(v, T):
        if v.op == 'num':
            return True
        return False
    return isinstance(v, (bool, int, float, Fraction))


def to_value(v):
    """Promote a non-num atom of numeric kind."""
    return v


def not_(c):
    return sub(ONE, c)


def and_(*cs):
    r = ONE
    for c in cs:
        r = mul(r, c)
    return r


def or_(*cs):
    r = ZERO
    for c in cs:
        r = sub(add(r, c), mul(r, c))
    return r


def implies(g, h):
    """g => h in the normal form (sound, not complete)."""
    if h is ONE or g is ZERO:
        return True
    return mul(g, h) is g


# ------------------------------------------------------------ comparisons

def sign_set(p, depth=0):
    """Possible signs of a numeric term, subset of {'-', '0', '+'}."""
    c = const_value(p)
    if c is not None:
        return {'-'} if c < 0 else ({'+'} if c > 0 else {'0'})
    r = None
    for m, c in p.args[0]:
        s = _mono_sign(m, c)
        r = s if r is None else _sign_add(r, s)
    if len(r) == 3 and depth < 4:
        for b in _bounded(p, lower=True):
            s = sign_set(b, depth + 1)
            if s == {'+'}:
                return {'+'}
            if s <= {'0', '+'}:
                return {'0', '+'}
        for b in _bounded(p, lower=False):
            s = sign_set(b, depth + 1)
            if s == {'-'}:
                return {'-'}
            if s <= {'0', '-'}:
                return {'0', '-'}
    return r


def _atom_bounds(a):
    """(lower, upper) bounds (terms or None) of an atom; inclusive."""
    if a.op == 'sym':
        hi = fact(a, 'hi', None)
        lo = fact(a, 'lo', None)
        if hi is None:
            if lo is None and fact(a, 'int') and fact(a, 'pos'):
                lo = 1
            return None if lo is None else (as_num(lo), None)
        return as_num(lo or 0), hi
    if a.op == 'app':
        f = a.args[0]
        if f == 'first':
            return ZERO, (a.args[2] if a.args[2] is not INF else None)
        if f == 'lastindex':
            return ZERO, sub(a.args[2], ONE)
        if f == 'floor':
            return sub(a.args[1], ONE), a.args[1]
        if f == 'ceil':
            return a.args[1], add(a.args[1], ONE)
        if f in ('max', 'min'):
            xs = [x for x in a.args[1:] if is_num(x)]
            if len(xs) == len(a.args) - 1:
                b = max(xs, key=lambda x: (const_value(x) is None, x.id))
                return (b, None) if f == 'max' else (None, b)
    return None


def _bounded(p, lower):
    """Bounds of p: bounded atoms occurring linearly replaced by their bounds."""
    mapping = {}
    one = None
    for s in sorted(set(a for m, c in p.args[0] for a, e in m), key=lambda a: -a.id):
        bd = _atom_bounds(s)
        if bd is None:
            continue
        coef = None
        ok = True
        for m, c in p.args[0]:
            dm = dict(m)
            if s in dm:
                if dm[s] != 1:
                    ok = False
                    break
                rest = tuple((a, e) for a, e in m if a is not s)
                sg = _mono_sign(rest, c)
                coef = set(sg) | (coef or set())
                if len(coef & {'+', '-'}) != 1:
                    ok = False
                    break
            else:
                for a, e in m:
                    if s in subterm_atoms(a):
                        ok = False
        if not ok or coef is None or len(coef & {'+', '-'}) != 1:
            continue
        up = ('+' in coef) != lower
        b = bd[1] if up else bd[0]
        if b is None:
            continue
        mapping[s] = b
        if one is None:
            one = s
    if not mapping:
        return
    if len(mapping) > 1:
        for x in list(mapping)[:4]:
            yield subst(p, {x: mapping[x]})
    yield subst(p, mapping)


_sub_atoms = {}


def subterm_atoms(a):
    r = _sub_atoms.get(a)
    if r is None:
        r = _sub_atoms[a] = frozenset(subterms(a))
    return r


_occurrences = {}


def occurrences(t, a):
    """How often a term occurrences an atom."""
    if t is a:
        return 1
    if isinstance(t, tuple):
        return sum(occurrences(x, a) for x in t)
    if not isinstance(t, T):
        return 0
    key = t, a
    r = _occurrences.get(key)
    if r is None:
        r = _occurrences[key] = sum(occurrences(x, a) for x in t.args)
    return r


def _mono_sign(m, c):
    s = {'+'} if c > 0 else {'-'}
    for a, e in m:
        sa = atom_sign(a)
        if e % 2 == 0:
            sa = {'+'} if '0' not in sa else {'+', '0'}
        if e < 0:
            sa = sa - {'0'} or {'+'}
        s = {_SMUL[x, y] for x in s for y in sa}
    return s


_SMUL = {}
for _x in '-0+':
    for _y in '-0+':
        v = {'-': -1, '0': 0, '+': 1}[_x] * {'-': -1, '0': 0, '+': 1}[_y]
        _SMUL[_x, _y] = {-1: '-', 0: '0', 1: '+'}[v]


def _sign_add(a, b):
    r = set()
    for x in a:
        for y in b:
            if x == '0':
                r.add(y)
            elif y == '0' or x == y:
                r.add(x)
            else:
                r |= {'-', '0', '+'}
    return r


NATS = ('len', 'count', 'argmin', 'argmax', 'nunique', 'mulen', 'first', 'lastindex', 'nlines', 'nrows', 'ncols')


def atom_sign(a):
    if a.op == 'sym':
        if a.args[0] == 'INF':
            return {'+'}
        if fact(a, 'pos'):
            return {'+'}
        if fact(a, 'nonneg'):
            return {'0', '+'}
        return {'-', '0', '+'}
    if a.op in INDICATORS:
        return {'0', '+'}
    if a.op == 'app':
        f = a.args[0]
        if f in ('abs', 'sqrt', 'len', 'count', 'std'):
            return {'0', '+'}
        if f in ('exp',):
            return {'+'}
        if f in ('floor', 'round', 'trunc'):
            s = sign_set(a.args[1])
            if s == {'+'}:
                return {'0', '+'}
            if s <= {'0', '+'}:
                return {'0', '+'}
            if f == 'floor' and s == {'-'}:
                return {'-'}
            return {'-', '0', '+'}
        if f in ('min', 'max'):
            ss = [sign_set(x) if is_num(x) else {'-', '0', '+'} for x in a.args[1:]]
            q = any if f == 'max' else all
            if ss and q(s == {'+'} for s in ss):
                return {'+'}
            if ss and q(s <= {'0', '+'} for s in ss):
                return {'0', '+'}
        if f in NATS:
            return {'0', '+'}
    if a.op == 'sum':
        s = sign_set(a.args[2])
        if s <= {'0', '+'}:
            return {'0', '+'}
    if a.op == 'elem':
        if fact(a.args[0], 'nonneg'):
            return {'0', '+'}
    if a.op == 'poly':
        return sign_set(a.args[0])
    return {'-', '0', '+'}


def is_int(t):
    if t.op != 'num':
        return _atom_int(t)
    for m, c in t.args[0]:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not _atom_int(a):
                return False
    return True


def _atom_int(a):
    if a.op == 'sym':
        return bool(fact(a, 'int'))
    if a.op in INDICATORS:
        return True
    if a.op == 'app':
        if a.args[0] in ('floor', 'ceil', 'round', 'trunc', 'sign') or a.args[0] in NATS:
            return True
        if a.args[0] in ('min', 'max', 'abs'):
            return all(is_int(x) for x in a.args[1:] if isinstance(x, T))
    if a.op == 'elem':
        return bool(fact(a.args[0], 'int'))
    if a.op == 'sum':
        return is_int(a.args[2])
    return False


def _normalise_cmp(p):
    """Sign-normalise: (q, flip) where p has the sign of q (or -q if flip)."""
    # clear inverse polynomials which are known positive, and negative powers
    # of atoms which are known positive; divide out common positive atoms
    for _ in range(6):
        changed = False
        for m, c in p.args[0]:
            for a, e in m:
                if e < 0 and a.op not in INDICATORS:
                    s = atom_sign(a)
                    if s == {'+'} or e % 2 == 0:
                        f = power(a.args[0], -e) if a.op == 'poly' else _num({((a, -e),): Fraction(1)})
                        p = expand_inverses(mul(p, f)) if a.op == 'poly' else mul(p, f)
                        changed = True
                        break
            if changed:
                break
        if not changed:
            break
    if not p.args[0]:
        return p, False
    common = None
    for m, c in p.args[0]:
        dm = {a: e for a, e in m if e > 0 and atom_sign(a) == {'+'}}
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
    if common:
        cm = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda ae: ae[0].id))
        p = mul(p, _num({cm: Fraction(1)}))
    # leading coefficient: last item of the sorted order (non-constant)
    lead = p.args[0][-1][1]
    p = scale(p, 1 / abs(lead))
    if lead < 0:
        return neg(p), True
    return p, False


def _cmp_case(p):
    """(neg, zero, pos) indicator polynomials of the sign of p."""
    s = sign_set(p)
    if s == {'+'}:
        return ZERO, ZERO, ONE
    if s == {'-'}:
        return ONE, ZERO, ZERO
    if s == {'0'}:
        return ZERO, ONE, ZERO
    r = _inf_case(p) or _step_case(p)
    if r is not None:
        return r
    q, flip = _normalise_cmp(p)
    s2 = sign_set(q)
    e = _extreme_case(q)
    if e:
        s2 = s2 & e
    n = atom(mk('neg', q))
    z = atom(mk('zero', q))
    if '-' not in s2:
        n = ZERO
    if '0' not in s2:
        z = ZERO
    ps = sub(sub(ONE, n), z)
    if '+' not in s2:
        ps = ZERO
        if n is ZERO:
            z = ONE
        elif z is ZERO:
            n = ONE
        else:
            z = sub(ONE, n)
    return (ps, z, n) if flip else (n, z, ps)


def _inf_case(p):
    """Comparisons with an infinite bound (other atoms are finite)."""
    inf = single_atom(INF)
    coef = None
    for m, c in p.args[0]:
        dm = dict(m)
        if inf in dm:
            if dm[inf] < 1:
                return None
            rest = tuple((a, e) for a, e in m if a is not inf)
            s = _mono_sign(rest, c)
            if coef is None:
                coef = s
            elif coef != s:
                return None
    if coef == {'+'}:
        return ZERO, ZERO, ONE
    if coef == {'-'}:
        return ONE, ZERO, ZERO
    return None


def _step_case(p):
    """c1*s*F + c0 where the step s has a known least value beyond |c0/c1|
    and F >= 0 is integer: negative (c1 > 0 > c0) only when F is zero."""
    items = p.args[0]
    if len(items) != 2:
        return None
    c0 = [c for m, c in items if not m]
    ms = [(m, c) for m, c in items if m]
    if len(c0) != 1 or len(ms) != 1 or len(ms[0][0]) != 2:
        return None
    (m, c1), c0 = ms[0], c0[0]
    if c0*c1 >= 0 or any(e != 1 for a, e in m):
        return None
    for (s, _), (f, _) in (m, m[::-1]):
        lo = fact(s, 'lo', None)
        lo = const_value(lo) if lo is not None and not isinstance(lo, int) else lo
        if s.op == 'sym' and lo is not None and lo > abs(c0/c1) and _atom_int(f) and f.op not in INDICATORS and '-' not in atom_sign(f):
            if f.op == 'app' and f.args[0] == 'floor':
                z = cmp_lt(sub(f.args[1], ONE))
            else:
                z = cmp_eq0(atom(f))
            return (z, ZERO, sub(ONE, z)) if c1 > 0 else (sub(ONE, z), ZERO, z)
    return None


def _extreme_case(p):
    """Signs of c*(max over all elements - one of these elements) and the same of min."""
    items = p.args[0]
    if len(items) != 2:
        return None
    for (m, c), (n, d) in (items, items[::-1]):
        if c != -d or len(m) != 1 or len(n) != 1 or m[0][1] != 1 or n[0][1] != 1:
            continue
        a, t = m[0][0], n[0][0]
        if a.op != 'app' or a.args[0] not in ('rmax', 'rmin') or len(a.args) != 5 or a.args[4] is not ONE:
            continue
        b = single_atom(a.args[3])
        if b is None or b.op != t.op:
            continue
        bound = dict(zip(a.args[1], a.args[2]))
        got = {}
        if _instance(b, t, bound, got) and all(_within(got[v], s) for v, s in bound.items() if v in got):
            return {'+', '0'} if (a.args[0] == 'rmax') == (c > 0) else {'-', '0'}
    return None


def _instance(b, t, bound, got):
    """t is b with the bound variables replaced."""
    if b is t and not any(v in syms(b) for v in bound):
        return True
    if isinstance(b, T) and b.op == 'num':
        v = single_atom(b)
        if v in bound:
            if v in got:
                return got[v] is t
            got[v] = t
            return isinstance(t, T) and t.op == 'num'
        if v is None or not isinstance(t, T) or t.op != 'num' or single_atom(t) is None:
            return False
        return _instance(v, single_atom(t), bound, got)
    if not isinstance(b, T) or not isinstance(t, T) or b.op != t.op or len(b.args) != len(t.args):
        return False
    return all(x is y or isinstance(x, T) and _instance(x, y, bound, got) for x, y in zip(b.args, t.args))


def _within(t, size):
    """0 <= t < size"""
    return '-' not in sign_set(t) and '-' not in sign_set(sub(sub(size, ONE), t))


def _cmp(p, pick):
    p = as_num(p)
    return lift(p, lambda q: pick(_cmp_case(q)))


def cmp_lt(p):
    """[p < 0]"""
    return _cmp(p, lambda s: s[0])


def cmp_le(p):
    return _cmp(p, lambda s: add(s[0], s[1]))


def cmp_eq0(p):
    f = single_atom(p) if isinstance(p, T) else None
    if f is not None and f.op == 'app' and f.args[0] == 'first' and isinstance(f.args[1], T) and f.args[1].op == 'sym':
        # the first index is zero when the condition holds at once
        at0 = subst(f.args[3], {f.args[1]: ZERO})
        if not has_unknown(at0):
            return at0 if f.args[2] is INF else or_(cmp_eq0(f.args[2]), at0)
    return _cmp(p, lambda s: s[1])


def lt(a, b):
    a, b = as_num(a), as_num(b)
    p = sub(a, b)
    if is_int(p):
        # integers: a < b  <=>  a - b + 1 <= 0; keep one canonical form
        return _cmp(p, lambda s: s[0])
    return _cmp(p, lambda s: s[0])


def le(a, b):
    return cmp_le(sub(as_num(a), as_num(b)))


def eq_num(a, b):
    return cmp_eq0(sub(as_num(a), as_num(b)))


def differ_by_name(a, b):
    """Paths with provably different last components."""
    a, b = [single_atom(x) if is_num(x) else x for x in (a, b)]
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and x.op == 'app' and x.args[0] == 'join' and isinstance(y, T):
            s = x.args[-1]
            if isinstance(s, T) and s.op == 'str':
                parts = s.args[0]
                base = [p for p in parts if isinstance(p, T) and p.op == 'app' and p.args[0] == 'basename' and p.args[1] is y]
                lits = [p for p in parts if isinstance(p, str)]
                if base and lits and not any('/' in p for p in lits):
                    return True
    return False


def eq_lit(t, c):
    """[t == c] for non-numeric values."""
    if isinstance(t, T) and t.op == 'ite':
        return ite(t.args[0], eq_lit(t.args[1], c), eq_lit(t.args[2], c))
    if isinstance(c, T) and c.op == 'ite':
        return ite(c.args[0], eq_lit(t, c.args[1]), eq_lit(t, c.args[2]))
    if t is c:
        return ONE
    if is_num(t) and is_num(c):
        return eq_num(t, c)
    if not isinstance(t, T) and isinstance(c, T):
        t, c = c, t
    if not isinstance(t, T) and not isinstance(c, T):
        return ONE if (type(t) == type(c) and t == c) else ZERO
    for x, y in ((t, c), (c, t)):
        if is_num(x) and single_atom(x) is None and const_value(x) is None and _liftable(x) and \
                all(_numeric(q) is False for m, k in x.args[0] for q, e in m if q.op not in INDICATORS):
            return lift(x, lambda z: eq_lit(z, y))
    if differ_by_name(t, c):
        return ZERO
    if isinstance(t, T) and isinstance(c, T) and t.op == c.op == 'ext' and \
            all(isinstance(x.args[0], str) and (x.args[0].startswith('builtins.') or x.args[0] == 'numpy.ndarray') for x in (t, c)):
        return ONE if t.args == c.args else ZERO
    if is_num(t):
        sa = single_atom(t)
        if sa is not None:
            t = sa
        else:
            return ZERO if isinstance(c, str) else atom(mk('pred', '?eq', t, c))
    if is_num(c):
        sa = single_atom(c)
        if sa is not None:
            c = sa
    if c is None:
        return isnone(t)
    if isinstance(t, T) and isinstance(c, T) and t.id > c.id:
        t, c = c, t
    k = fact(t, 'choices', None) if isinstance(t, T) else None
    if k is not None and isinstance(c, str) and c not in k:
        return ZERO
    return atom(mk('eq', t, c))


def isnone(t):
    if t is None:
        return ONE
    if not isinstance(t, T):
        return ZERO
    if t.op == 'ite':
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if t.op == 'num':
        ls = literals(t)
        if ls:
            l = ls[0]
            return ite(atom(l), isnone(restrict(t, l, 1)), isnone(restrict(t, l, 0)))
        sa = single_atom(t)
        if sa is None:
            return ZERO
        t = sa
    if t.op == 'none':
        return ONE
    if t.op == 'sym':
        n = fact(t, 'nullable', None)
        if not n:
            return ZERO
        return atom(mk('isnone', t))
    if t.op == 'app' and (t.args[0].startswith('?') or t.args[0] == 'mu'):
        return atom(mk('isnone', t))
    if t.op == 'elem' and fact(t.args[0], 'nullable'):
        return atom(mk('isnone', t))
    return ZERO


def truthy(t):
    """[bool(t)]"""
    if t is None or t is False:
        return ZERO
    if t is True:
        return ONE
    if isinstance(t, str):
        return ONE if t else ZERO
    if isinstance(t, tuple):
        return ONE if t else ZERO
    if not isinstance(t, T):
        return ONE
    if t.op == 'ite':
        return ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if t.op == 'num':
        if is_bool(t):
            return t
        ls = literals(t)
        if ls:
            l = ls[0]
            return ite(atom(l), truthy(restrict(t, l, 1)), truthy(restrict(t, l, 0)))
        sa = single_atom(t)
        if sa is not None and sa.op == 'none':
            return ZERO
        if sa is not None and sa.op == 'app' and sa.args[0].startswith('?'):
            return atom(mk('truthy', sa))
        if sa is not None and stringlike(sa):
            return not_(eq_lit(sa, '')) if not fact(sa, 'nullable', None) else mul(not_(isnone(sa)), not_(eq_lit(sa, '')))
        if sa is not None and sa.op == 'sym' and fact(sa, 'kind') in NONNUM_KINDS:
            return atom(mk('truthy', sa))
        return mul(not_(isnone(t)), not_(eq_num(t, ZERO)))
    if t.op == 'bytes':
        return truthy(t.args[0])
    if t.op == 'str' and any(isinstance(p, str) and p or isinstance(p, T) and p.op == 'fmt' and isinstance(p.args[1], T) and p.args[1].op == 'num' for p in t.args[0]):
        return ONE
    if stringlike(t):
        return not_(eq_lit(t, '')) if not fact(t, 'nullable', None) else mul(not_(isnone(t)), not_(eq_lit(t, '')))
    return atom(mk('truthy', t))


STR_APPS = ('dirname', 'basename', 'join', 'strip', 'lower', 'upper', 'line', 'replace', 'realpath', 'abspath',
            'splitext0', 'splitext1', 'decode', 'format', 'strjoin', 'rstrip', 'lstrip', 'strftime', 'cat')


def stringlike(t):
    return t.op == 'str' or t.op == 'sym' and fact(t, 'kind') in ('str', 'path') or t.op == 'app' and t.args[0] in STR_APPS or \
        t.op == 'elem' and fact(t.args[0], 'elemkind') in ('str', 'path')


def is_bool(t):
    """Whether a num term is built from indicators only."""
    if not is_num(t):
        return False
    for m, c in t.args[0]:
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.op not in INDICATORS:
                return False
    if t is ZERO or t is ONE:
        return True
    if not literals(t):
        return False
    return True


def pred(name, *args):
    return atom(_pred(name, *args))


def _pred(name, *args):
    if name == 'path_exists' and is_num(args[0]):
        a = single_atom(args[0])
        if a is not None:
            args = (a,) + args[1:]
    return mk('pred', name, *args)


# -------------------------------------------------------------- functions

def app_raw(f, *args):
    return mk('app', f, *args)


def app(f, *args):
    """Application of a pure function with normalisation, as an atom/num."""
    fn = _APP.get(f)
    if fn is not None:
        return fn(*args)
    if f in STR_APPS and f != 'cat':
        # a text, never a number
        args = tuple(single_atom(a) if isinstance(a, T) and a.op == 'num' and single_atom(a) is not None else a for a in args)
        for k, a in enumerate(args):
            if isinstance(a, T) and a.op == 'ite':
                return ite(a.args[0], app(f, *(args[:k] + (a.args[1],) + args[k + 1:])), app(f, *(args[:k] + (a.args[2],) + args[k + 1:])))
        return mk('app', f, *args)
    return lift_app(f, args)


def lift_app(f, args):
    vs = set()
    for x in (args[0] if args and isinstance(args[0], tuple) else args[:1]):
        x = x[0] if isinstance(x, tuple) and x else x
        if isinstance(x, T) and x.op == 'sym' and str(x.args[0]).startswith('#'):
            vs.add(x)
    for k, a in enumerate(args):
        if isinstance(a, T) and a.op == 'num':
            ls = literals(a)
            if vs:
                # binders: only conditions which do not mention the variables
                ls = [l for l in ls if not vs & subterm_atoms(l)]
            if ls and not f.startswith('mu') and len(ls) <= 6:
                l = ls[0]
                x = lift_app(f, tuple(restrict(b, l, 1) if isinstance(b, T) else b for b in args))
                y = lift_app(f, tuple(restrict(b, l, 0) if isinstance(b, T) else b for b in args))
                return ite(atom(l), x, y)
    return atom(mk('app', f, *args))


def _split_int(t):
    """t = n + r with n the integer-valued part."""
    di, dr = {}, {}
    for m, c in t.args[0]:
        intm = all(e > 0 and _atom_int(a) for a, e in m)
        if intm and c.denominator == 1:
            di[m] = c
        elif intm and m == ():
            fl = c.numerator // c.denominator
            di[m] = Fraction(fl)
            dr[m] = c - fl
        else:
            dr[m] = c
    return _num(di), _num(dr)


def collapse(x):
    """q + r/p in place of the expanded (q*p + r)/p, for inverses of sums p."""
    for p in sorted({a for m, c in x.args[0] for a, e in m if a.op == 'poly' and e < 0}, key=lambda a: a.id):
        d = p.args[0]
        inner = {a for m, c in d.args[0] for a, e in m}
        if any(e < 0 for m, c in d.args[0] for a, e in m):
            continue
        groups, rest = {}, {}
        for m, c in x.args[0]:
            if (p, -1) not in m:
                rest[m] = c
                continue
            k = tuple((a, e) for a, e in m if a is not p and (a not in inner or e < 0))
            g = groups.setdefault(k, {})
            g[tuple((a, e) for a, e in m if a in inner and e > 0)] = c
        out = [_num(rest)]
        hit = False
        for k, g in groups.items():
            n = _num(g)
            q = exact_div(n, d) if len(g) > 1 else None
            if q is not None:
                hit = True
                out.append(mul(_num({k: Fraction(1)}), q))
            else:
                out.append(mul(mul(_num({k: Fraction(1)}), n), _num({((p, -1),): Fraction(1)})))
        if hit:
            x = add(*out)
    return x


def floor(t):
    t = as_num(t)

    def one(x):
        if any(a.op == 'poly' and e < 0 for m, c in x.args[0] for a, e in m):
            x = collapse(x)
        n, r = _split_int(x)
        if r is ZERO:
            return n
        c = const_value(r)
        if c is not None:
            return add(n, num(c.numerator // c.denominator))
        # 0 <= r < 1 for r = i/n with 0 <= i < n
        if sign_set(r) <= {'0', '+'}:
            s = sign_set(expand_inverses(sub(r, ONE)))
            if s == {'-'} or _lt_one(r):
                return n
        return add(n, atom(mk('app', 'floor', r)))
    return lift(t, one)


def _lt_one(r):
    """r < 1 for r = p / d with integer 0 <= p < d."""
    d = None
    for m, c in r.args[0]:
        for a, e in m:
            if e < 0:
                q = a.args[0] if a.op == 'poly' else atom(a)
                if d is None:
                    d = (a, -e, q)
                elif d[0] is not a:
                    return False
    if d is None:
        return False
    dd = power(d[2], d[1])
    p = expand_inverses(mul(r, dd)) if d[0].op == 'poly' else mul(r, dd)
    return sign_set(sub(p, dd)) == {'-'}


def ceil(t):
    return neg(floor(neg(t)))


def round_(t):
    t = as_num(t)

    def one(x):
        n, r = _split_int(x)
        if r is ZERO:
            return n
        c = const_value(x)
        if c is not None:
            return num(round(c))
        return lift_app_raw('round', x)
    return lift(t, one)


def has_decimals(t, n):
    """t is a multiple of 10**-n: sums of integer multiples of values with
    the fact decimals <= n."""
    t = as_num(t)
    if t.op != 'num':
        return False
    for m, c in t.args[0]:
        if c.denominator != 1:
            return False
        free = 0
        for a, e in m:
            if e >= 1 and (_atom_int(a) or a.op in ('neg', 'zero', 'eq', 'isnone', 'truthy', 'pred')):
                continue
            d = fact(a, 'decimals', None)
            if d is None and a.op == 'elem':
                d = fact(a.args[0], 'decimals', None)
            if d is None or d > n or e != 1:
                return False
            free += 1
        if free > 1:
            return False
    return True


def roundn(x, dec):
    x = as_num(x)
    c = const_value(as_num(dec))
    if c is not None and has_decimals(x, int(c)):
        return x
    return atom(mk('app', 'roundn', x, as_num(dec)))


def lift_app_raw(f, *args):
    return atom(mk('app', f, *args))


def trunc(t):
    t = as_num(t)

    def one(x):
        if is_int(x):
            return x
        c = const_value(x)
        if c is not None:
            return num(int(c))
        if sign_set(x) <= {'0', '+'}:
            return floor(x)
        return lift_app_raw('trunc', x)
    return lift(t, one)


def _canon_sign(x):
    """(x or -x with positive leading coefficient, sign)."""
    if not x.args[0]:
        return x, 1
    if x.args[0][-1][1] < 0:
        return neg(x), -1
    return x, 1


def absval(t):
    t = as_num(t)

    def one(x):
        s = sign_set(x)
        if s <= {'0', '+'}:
            return x
        if s <= {'0', '-'}:
            return neg(x)
        q, _ = _canon_sign(x)
        c = abs(q.args[0][-1][1])
        return scale(atom(mk('app', 'abs', scale(q, 1 / c))), c)
    return lift(t, one)


def sign(t):
    t = as_num(t)

    def one(x):
        n, z, p = _cmp_case(x)
        return sub(p, n)
    return lift(t, one)


def sqrt(t):
    t = as_num(t)

    def one(x):
        c = const_value(x)
        if c is not None and c >= 0:
            import math
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return num(Fraction(rn, rd))
        if len(x.args[0]) == 1:
            m, k = x.args[0][0]
            if k == 1 and m and all(e % 2 == 0 for a, e in m):
                return absval(_num({tuple((a, e // 2) for a, e in m): Fraction(1)}))
        return atom(mk('app', 'sqrt', x))
    return lift(t, one)


def minmax(kind, *args):
    args = [as_num(a) for a in args]
    for k, a in enumerate(args):
        ls = literals(a)
        if ls:
            l = ls[0]
            return ite(atom(l), minmax(kind, *[restrict(b, l, 1) for b in args]),
                       minmax(kind, *[restrict(b, l, 0) for b in args]))
    flat = []
    for a in args:
        sa = single_atom(a)
        if sa is not None and sa.op == 'app' and sa.args[0] == kind:
            flat.extend(sa.args[1:])
        else:
            flat.append(a)
    uniq = []
    for a in flat:
        if a in uniq:
            continue
        uniq.append(a)
    keep = []
    for i, a in enumerate(uniq):
        dominated = False
        for j, b in enumerate(uniq):
            if i == j:
                continue
            s = sign_set(sub(a, b)) if _inf_case(sub(a, b)) is None else (
                {'+'} if _inf_case(sub(a, b))[2] is ONE else {'-'})
            if kind == 'min' and s <= {'0', '+'} and not (s == {'0'} and j > i):
                dominated = True
            if kind == 'max' and s <= {'0', '-'} and not (s == {'0'} and j > i):
                dominated = True
        if not dominated:
            keep.append(a)
    uniq = keep or uniq[:1]
    if len(uniq) == 1:
        return uniq[0]
    consts = [a for a in uniq if const_value(a) is not None]
    if len(consts) > 1:
        best = (min if kind == 'min' else max)(const_value(a) for a in consts)
        uniq = [a for a in uniq if const_value(a) is None] + [num(best)]
        if len(uniq) == 1:
            return uniq[0]
    uniq.sort(key=lambda t: t.id)
    return atom(mk('app', kind, *uniq))


def nan_to_num(t):
    """Zero where a divisor is zero."""
    t = as_num(t)

    def one(x):
        dens = set()
        for m, c in x.args[0]:
            for a, e in m:
                if e < 0:
                    dens.add(a)
        if x is NAN:
            return ZERO
        r = x
        for a in sorted(dens, key=lambda a: a.id):
            d = a.args[0] if a.op == 'poly' else atom(a)
            z = cmp_eq0(d)
            r = ite(z, ZERO, r)
        if any(_unknown_atom(a) for a in subterms(x)) and not dens:
            return atom(mk('app', 'nan_to_num', x))
        return r
    return lift(t, one)


def mod(a, b):
    a, b = as_num(a), as_num(b)
    return lift2(a, b, lambda x, y: sub(x, mul(y, floor(div(x, y)))))


_APP = {
    'floor': floor, 'ceil': ceil, 'round': round_, 'trunc': trunc, 'abs': absval,
    'sign': sign, 'sqrt': sqrt, 'min': lambda *a: minmax('min', *a),
    'max': lambda *a: minmax('max', *a), 'nan_to_num': nan_to_num,
}


def _unknown_atom(a):
    return a.op in ('app', 'sym') and isinstance(a.args[0], str) and a.args[0].startswith('?')


# -------------------------------------------------------------------- sums
# sum(vars, sizes, body): vars bound syms '#1', '#2'...

def _depth(t):
    d = 0
    for s in syms(t):
        n = s.args[0]
        if n.startswith('#'):
            d = max(d, int(n[1:]))
    return d


def has_bound(t):
    return any(s.args[0].startswith('#') for s in syms(t))


SMALL = 6


def rsum(vars_, sizes, body):
    """Sum of body over index vars. vars_: tuple of syms."""
    body = as_num(body)
    for n, s in enumerate(sizes):
        c = const_value(s)
        if c is not None and 0 <= c <= SMALL and c.denominator == 1 and vars_[n] in syms(body):
            v = vars_[n]
            rest = tuple(x for x in vars_ if x is not v)
            rs = sizes[:n] + sizes[n + 1:]
            parts = []
            for i in range(int(c)):
                m = {v: num(i)}
                parts.append(rsum(rest, tuple(subst(x, m) for x in rs), subst(body, m)) if rest else subst(body, m))
            return add(*parts) if parts else ZERO
    terms = []
    for m, c in body.args[0]:
        outer, inner = [], []
        vs = set()
        for a, e in m:
            used = [v for v in vars_ if v in syms(a)]
            if used:
                inner.append((a, e))
                vs.update(used)
            else:
                outer.append((a, e))
        o = _num({tuple(outer): c})
        rest_vars = [(v, s) for v, s in zip(vars_, sizes) if v in vs]
        for v, s in zip(vars_, sizes):
            if v not in vs:
                if any(v in syms(s2) for _, s2 in rest_vars):
                    rest_vars.append((v, s))
                else:
                    o = mul(o, s)
        if not rest_vars:
            terms.append(o)
            continue
        terms.append(mul(o, _sum_atom(rest_vars, inner)))
    return add(*terms) if terms else ZERO


def _sum_atom(var_sizes, inner, again=False):
    body = _num({tuple(sorted(inner, key=lambda ae: ae[0].id)): Fraction(1)})
    # single nested sum: merge binders
    sa = single_atom(body)
    if sa is not None and sa.op == 'sum':
        vs2 = list(zip(sa.args[0], sa.args[1]))
        ren = {}
        out = []
        for v, s in vs2:
            nv = fresh('b', int=True, nonneg=True, hi=sub(s, ONE), kind='num')
            ren[v] = nv
            out.append((nv, s))
        inner_body = subst(sa.args[2], ren)
        return _sum_atom(var_sizes + out, list(inner_body.args[0][0][0])) if len(
            inner_body.args[0]) == 1 and inner_body.args[0][0][1] == 1 else rsum(
            tuple(v for v, s in var_sizes + out), tuple(s for v, s in var_sizes + out), inner_body)
    # point sums: indicator [v == e]
    for a, e in inner:
        if a.op == 'zero':
            r = _solve_point(var_sizes, inner, a)
            if r is not None:
                return r
    # order binders canonically by size then occurrence
    var_sizes = sorted(var_sizes, key=lambda vs: (vs[1].id,))
    best = None
    groups = var_sizes
    perms = [groups]
    if len(groups) == 2 and groups[0][1] is groups[1][1]:
        perms.append([groups[1], groups[0]])
    for perm in perms:
        mapping = {}
        base = 0
        # temporarily go through fresh names to avoid clashes and names with a history
        tmp = {v: fresh('t', int=True, nonneg=True, kind='num') for v, _ in perm}
        b0 = subst(body, tmp)
        # avoid capture with free bound variables of the body
        free = [s for s in syms(b0) if s.args[0].startswith('#')]
        base = max([int(s.args[0][1:]) for s in free] or [0])
        base = max(base, _inner_depth(b0))
        nvs, sizes = [], []
        for k, (v, s) in enumerate(perm):
            nv = sym('#%d' % (base + k + 1), int=True, nonneg=True, kind='num')
            mapping[v] = nv
            nvs.append(nv)
            sizes.append(s)
        b = subst(b0, {tmp[v]: mapping[v] for v, _ in perm})
        sizes = [subst(subst(s, tmp), {tmp[v]: mapping[v] for v, _ in perm}) for s in sizes]
        if len(b.args[0]) != 1 or b.args[0][0][1] != 1:
            # the renaming changed the normal form of an indicator
            if not again:
                parts = []
                for m, c in b.args[0]:
                    parts.append(mul(_num({(): c}), _resum(nvs, sizes, m)))
                return add(*parts) if parts else ZERO
        cand = mk('sum', tuple(nvs), tuple(sizes), b)
        if best is None or cand.id < best.id:
            best = cand
    return atom(best)


def _resum(nvs, sizes, m):
    """Sum of one monomial over bound variables which are named already."""
    vs = set()
    outer, inner = [], []
    for a, e in m:
        used = [v for v in nvs if v in syms(a)]
        (inner if used else outer).append((a, e))
        vs.update(used)
    o = _num({tuple(outer): Fraction(1)})
    rest = [(v, s) for v, s in zip(nvs, sizes) if v in vs]
    for v, s in zip(nvs, sizes):
        if v not in vs:
            if any(v in syms(s2) for _, s2 in rest):
                rest.append((v, s))
            else:
                o = mul(o, s)
    return mul(o, _sum_atom(rest, inner, True)) if rest else o


def _inner_depth(t):
    d = 0
    for s in subterms(t):
        if s.op == 'sum':
            for v in s.args[0]:
                d = max(d, int(v.args[0][1:]))
    return d


def _solve_point(var_sizes, inner, lit):
    p = lit.args[0]
    for v, s in var_sizes:
        if v not in syms(p):
            continue
        coef = None
        rest = []
        ok = True
        for m, c in p.args[0]:
            dm = dict(m)
            if v in dm:
                if dm[v] == 1 and len(m) == 1 and abs(c) == 1 and coef is None:
                    coef = c
                else:
                    ok = False
            elif any(v in syms(a) for a, e in m):
                ok = False
            else:
                rest.append((m, c))
        if not ok or coef is None:
            continue
        sol = scale(_num(dict(rest)), -1 / coef)
        if any(w in syms(sol) for w, _ in var_sizes):
            continue
        others = [(a, e) for a, e in inner if a is not lit]
        body = _num({tuple(others): Fraction(1)})
        cond = and_(le(ZERO, sol), lt(sol, s), cmp_eq0(sub(sol, floor(sol))))
        body = mul(subst(body, {v: sol}), cond)
        rest_vs = [(w, z) for w, z in var_sizes if w is not v]
        if not rest_vs:
            return body
        return rsum(tuple(w for w, _ in rest_vs), tuple(z for _, z in rest_vs), body)
    return None


# ------------------------------------------------------------- comparison

class Verdict(object):
    EQUAL = 'equal'
    DIFFERENT = 'different'
    UNKNOWN = 'unknown'


def has_unknown(t):
    for s in subterms(t):
        if s.op == 'app' and isinstance(s.args[0], str) and s.args[0].startswith('?'):
            return True
        if s.op == 'unknown':
            return True
        if s.op == 'sym' and isinstance(s.args[0], str) and s.args[0].startswith('?'):
            return True
    return False


def _linear(p):
    """{atom: coef}, const for a linear polynomial, or None."""
    d = {}
    k = Fraction(0)
    for m, c in p.args[0]:
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1:
            d[m[0][0]] = d.get(m[0][0], 0) + c
        else:
            # treat the whole monomial as a variable
            d[m] = d.get(m, 0) + c
    return d, k


def feasible(constraints, limit=200):
    """Emptiness test of a polyhedron (Fourier-Motzkin, exact).

    constraints: list of (poly, rel) with rel in '<', '<=', '=='; None-able
    result: True/False.
    """
    rows = []
    seen_atoms = set()
    for p, rel in constraints:
        d, k = _linear(p)
        seen_atoms.update(d)
        if rel == '<' and is_int(p):        # integers: p <= -1
            k, rel = k + 1, '<='
        rows.append((d, k, rel))
    for a in list(seen_atoms):
        s = atom_sign(a) if isinstance(a, T) else _mono_sign(a, 1)
        if s == {'+'}:
            whole = _atom_int(a) if isinstance(a, T) else all(e > 0 and _atom_int(x) for x, e in a)
            rows.append(({a: Fraction(-1)}, Fraction(1 if whole else 0), '<=' if whole else '<'))
        elif s == {'0', '+'}:
            rows.append(({a: Fraction(-1)}, Fraction(0), '<='))
        if isinstance(a, T) and a.op == 'sym':
            hi = fact(a, 'hi', None)
            if hi is not None:
                d, k = _linear(sub(atom(a), hi))
                rows.append((d, k, '<='))
        if isinstance(a, T) and a.op == 'app' and a.args[0] in ('min', 'max'):
            for x in a.args[1:]:
                p = sub(atom(a), x) if a.args[0] == 'min' else sub(x, atom(a))
                d, k = _linear(p)
                rows.append((d, k, '<='))
        if isinstance(a, T) and a.op == 'app' and a.args[0] == 'floor':
            d, k = _linear(sub(atom(a), a.args[1]))
            rows.append((d, k, '<='))
            d, k = _linear(sub(sub(a.args[1], atom(a)), ONE))
            rows.append((d, k, '<'))
        if isinstance(a, T) and a.op == 'app' and a.args[0] == 'abs':
            for x in (a.args[1], neg(a.args[1])):
                d, k = _linear(sub(x, atom(a)))
                rows.append((d, k, '<='))
    # equalities by substitution
    while True:
        eqrow = None
        for r in rows:
            if r[2] == '==' and r[0]:
                eqrow = r
                break
        if eqrow is None:
            break
        rows.remove(eqrow)
        v = next(iter(eqrow[0]))
        cv = eqrow[0][v]
        out = []
        for d, k, rel in rows:
            if v in d:
                f = d[v] / cv
                nd = dict(d)
                for a, c in eqrow[0].items():
                    nd[a] = nd.get(a, 0) - f * c
                nd = {a: c for a, c in nd.items() if c != 0}
                out.append((nd, k - f * eqrow[1], rel))
            else:
                out.append((d, k, rel))
        rows = out
    while True:
        for d, k, rel in rows:
            if not d:
                if rel == '<' and not k < 0:
                    return False
                if rel == '<=' and not k <= 0:
                    return False
                if rel == '==' and k != 0:
                    return False
        rows = [r for r in rows if r[0]]
        if not rows:
            return True
        counts = {}
        for d, k, rel in rows:
            for a, c in d.items():
                u, l = counts.get(a, (0, 0))
                counts[a] = (u + (c > 0), l + (c < 0))
        v = min(counts, key=lambda a: counts[a][0] * counts[a][1])
        ups = [r for r in rows if r[0].get(v, 0) > 0]
        los = [r for r in rows if r[0].get(v, 0) < 0]
        rest = [r for r in rows if v not in r[0]]
        if len(ups) * len(los) + len(rest) > limit:
            return True
        for du, ku, ru in ups:
            for dl, kl, rl in los:
                cu, cl = du[v], -dl[v]
                nd = {}
                for a, c in du.items():
                    nd[a] = nd.get(a, 0) + c * cl
                for a, c in dl.items():
                    nd[a] = nd.get(a, 0) + c * cu
                nd = {a: c for a, c in nd.items() if c != 0 and a != v}
                rest.append((nd, ku * cl + kl * cu, '<' if '<' in (ru, rl) else '<='))
        rows = rest


def assignments(ls, max_lits=12):
    """Consistent truth assignments of indicator literals: list of dicts."""
    groups = {}
    for l in ls:
        if l.op in ('neg', 'zero'):
            groups.setdefault(('sign', l.args[0]), []).append(l)
        elif l.op == 'eq' and not isinstance(l.args[1], T):
            groups.setdefault(('eq', l.args[0]), []).append(l)
        else:
            groups.setdefault(('lit', l), []).append(l)
    keys = list(groups)
    if len(keys) > max_lits:
        return None
    options = []
    for k in keys:
        g = groups[k]
        opts = []
        if k[0] == 'sign':
            p = k[1]
            ss = sign_set(p)
            for s in '-0+':
                if s in ss:
                    opts.append(({l: (l.op == 'neg') == (s == '-') and (l.op == 'zero') == (s == '0') or
                                  (l.op == 'neg' and s == '-') or (l.op == 'zero' and s == '0') for l in g},
                                 (p, s)))
            opts = [({l: (l.op == 'neg' and s[1] == '-') or (l.op == 'zero' and s[1] == '0') for l in g}, s)
                    for _, s in opts]
        elif k[0] == 'eq':
            ch = fact(k[1], 'choices', None)
            for l in g:
                opts.append(({m: m is l for m in g}, None))
            if ch is None or set(ch) - {l.args[1] for l in g}:
                opts.append(({m: False for m in g}, None))
        else:
            opts = [({g[0]: True}, None), ({g[0]: False}, None)]
        options.append(opts)
    res = []
    total = 1
    for o in options:
        total *= len(o)
    if total > 6000:
        return None
    squares = sum(1 for k in keys if k[0] == 'sign' and _has_square(k[1])) > 1
    for combo in itertools.product(*options):
        asg = {}
        cons = []
        for d, s in combo:
            asg.update(d)
            if s is not None:
                p, sg = s
                if sg == '-':
                    cons.append((p, '<'))
                elif sg == '+':
                    cons.append((neg(p), '<'))
                else:
                    cons.append((p, '=='))
        true = [l for l, v in asg.items() if v]
        if _conflict(true):
            continue
        if squares and not _order_holds(combo):
            continue
        if len(cons) > 1 and not feasible(cons):
            continue
        res.append((asg, cons))
    return res


def _order_holds(combo):
    val = {'-': -1, '0': 0, '+': 1}
    signs = [(x[0], val[x[1]]) for d, x in combo if x is not None and _has_square(x[0])]
    for n, (p, x) in enumerate(signs):
        for q, y in signs[:n]:
            for s, t in _ordered(p, q):
                if s * x > t * y or (s * x == 0 and t * y < 0):
                    return False
    return True


def eval_lits(t, asg):
    for l, v in asg.items():
        t = restrict(t, l, 1 if v else 0)
    return t


def assume(g, t):
    """t where the indicators decided by the condition g are replaced."""
    if g is ONE or not isinstance(t, (T, tuple)):
        return t
    m = {}
    for l in literals(g):
        p = mul(g, atom(l))
        if p is g:
            m[l] = ONE
        elif p is ZERO:
            m[l] = ZERO
    return subst(t, m) if m else t


def compare(a, b, guard=ONE):
    """Compare two values under a guard, see ``_compare``.

    A difference of normal forms is dropped when the interpretations of the
    case do not separate the two values.
    """
    return _compare(a, b, guard)


def _compare(a, b, guard=ONE):
    """Compare two values under a guard: (verdict, witness text).

    EQUAL is exact.  DIFFERENT is only returned when the normal forms differ
    in a feasible case and neither side contains an unmodelled operation.
    """
    if a is b:
        return Verdict.EQUAL, ''
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            if isinstance(a, T) or isinstance(b, T):
                return Verdict.UNKNOWN, ''
            return Verdict.DIFFERENT, '%s vs %s' % (show(a), show(b))
        if len(a) != len(b):
            return Verdict.DIFFERENT, 'lengths %d and %d' % (len(a), len(b))
        res = Verdict.EQUAL
        for x, y in zip(a, b):
            v, w = _compare(x, y, guard)
            if v == Verdict.DIFFERENT:
                return v, w
            if v == Verdict.UNKNOWN:
                res = v
        return res, ''
    na = isinstance(a, T) and a.op == 'num' or isinstance(a, (bool, int, float, Fraction))
    nb = isinstance(b, T) and b.op == 'num' or isinstance(b, (bool, int, float, Fraction))
    if na != nb:
        # an atom on its own is the same value as the atom in a sum
        if na and isinstance(a, T) and single_atom(a) is not None and isinstance(b, T):
            if single_atom(a) is b:
                return Verdict.EQUAL, ''
            if b.op == single_atom(a).op:
                a, na = single_atom(a), False
        elif nb and isinstance(b, T) and single_atom(b) is not None and isinstance(a, T):
            if single_atom(b) is a:
                return Verdict.EQUAL, ''
            if a.op == single_atom(b).op:
                b, nb = single_atom(b), False
    if na and nb:
        return _compare_num(num(a), num(b), guard)
    # generic values
    ca = [c for c in _ite_conds(a)] + [c for c in _ite_conds(b)]
    if ca:
        c = ca[0]
        ga, gb = mul(guard, c), mul(guard, not_(c))
        res = Verdict.EQUAL
        for g, v in ((ga, 1), (gb, 0)):
            if g is ZERO or not sat(g):
                continue
            vd, w = _compare(_pick(a, c, v), _pick(b, c, v), g)
            if vd == Verdict.DIFFERENT:
                return vd, w + ' when ' + show(g)
            if vd == Verdict.UNKNOWN:
                res = vd
        return res, ''
    if not isinstance(a, T) and not isinstance(b, T):
        if a == b and type(a) == type(b):
            return Verdict.EQUAL, ''
        return Verdict.DIFFERENT, '%s vs %s' % (show(a), show(b))
    if has_unknown(a) or has_unknown(b) or has_unknown(guard):
        return Verdict.UNKNOWN, '%s vs %s' % (show(a), show(b))
    from .model import distinguish
    if distinguish(a, b, guard) is False:
        return Verdict.UNKNOWN, '%s vs %s' % (show(a), show(b))
    return Verdict.DIFFERENT, '%s vs %s' % (show(a), show(b))


def _ite_conds(t):
    if isinstance(t, T) and t.op == 'ite':
        yield t.args[0]


def _pick(t, c, v):
    if isinstance(t, T) and t.op == 'ite' and t.args[0] is c:
        return t.args[1] if v else t.args[2]
    return t


def sat(g):
    """Whether a guard is satisfiable (conservatively True)."""
    g = as_num(g)
    if g is ZERO:
        return False
    if g is ONE:
        return True
    ls = literals(g)
    asgs = assignments(ls)
    if asgs is None:
        return True
    for asg, cons in asgs:
        if eval_lits(g, asg) is not ZERO:
            return True
    return False


def _compare_num(a, b, guard):
    d = expand_inverses(mul(sub(a, b), guard))
    if d is ZERO:
        return Verdict.EQUAL, ''
    ls = literals(d)
    asgs = assignments(ls)
    if asgs is None:
        return Verdict.UNKNOWN, 'too many cases'
    unknown = False
    known = [l for l in ls if not has_unknown(l)]
    if len(known) < len(ls):
        # cases in which the unknown ones do not matter come first
        asgs = [x for x in assignments(known) or [] if not has_unknown(eval_lits(d, x[0]))] + asgs
    for asg, cons in asgs:
        da = eval_lits(d, asg)
        if da is ZERO:
            continue
        eqs = [p for p, rel in cons if rel == '==']
        da2 = _apply_eqs(da, eqs)
        if da2 is ZERO:
            continue
        pins = _pinned(da2, cons)
        if pins and expand_inverses(as_num(subst(da2, pins))) is ZERO:
            continue
        va, vb = eval_lits(a, asg), eval_lits(b, asg)
        bad = has_unknown(va) or has_unknown(vb) or any(
            isinstance(k, T) and has_unknown(k) for k, _ in asg.items())
        if bad:
            unknown = True
            continue
        if eqs and not _generic_eq(da2):
            unknown = True
            continue
        from .model import distinguish
        if distinguish(va, vb, guard, asg) is False:
            unknown = True
            continue
        w = 'the value is %s where %s is required' % (show(va), show(vb))
        cond = ' and '.join(show_lit(l, v) for l, v in asg.items())
        if cond:
            w += ' when ' + cond
        return Verdict.DIFFERENT, w
    if unknown:
        return Verdict.UNKNOWN, ''
    return Verdict.EQUAL, ''


def _pinned(d, cons):
    """Integer variables of d which can only have their least value."""
    m = {}
    for a in sorted(syms(d), key=lambda a: a.id):
        if a.op == 'sym' and fact(a, 'int') and (fact(a, 'nonneg') or fact(a, 'pos')) and not has_unknown(a):
            lo = ONE if fact(a, 'pos') else ZERO
            if not feasible(list(cons) + [(sub(add(lo, ONE), atom(a)), '<=')]):
                m[a] = lo
                if len(m) > 4:
                    break
    return m


def _generic_eq(d):
    return True


def _apply_eqs(d, eqs):
    for p in eqs:
        p = subst(p, {})
        # solve for one atom occurring linearly
        done = False
        for m, c in p.args[0]:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if sum(1 for mm, _ in p.args[0] if any(a is x or a in list(subterms(x)) for x, _ in mm)) == 1:
                    sol = scale(sub(p, _num({m: c})), -1 / c)
                    d = subst(d, {a: sol})
                    done = True
                    break
        if not done:
            pass
    return expand_inverses(as_num(d))


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t)
    if depth > 9:
        return '...'
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'num':
        if not t.args[0]:
            return '0'
        parts = []
        for m, c in t.args[0][:12]:
            fs = []
            for a, e in m:
                s = show(a, depth + 1)
                if e != 1:
                    s += '^%s' % e
                fs.append(s)
            body = '*'.join(fs)
            if not body:
                body = str(c)
            elif c == -1:
                body = '-' + body
            elif c != 1:
                body = '%s*%s' % (c, body)
            parts.append(body)
        if len(t.args[0]) > 12:
            parts.append('...')
        s = parts[0] + ''.join((' - ' + p[1:]) if p.startswith('-') else (' + ' + p) for p in parts[1:])
        return s if len(parts) == 1 or depth == 0 else '(' + s + ')'
    if t.op == 'neg':
        return '[%s < 0]' % show(t.args[0], depth + 1)
    if t.op == 'zero':
        return '[%s == 0]' % show(t.args[0], depth + 1)
    if t.op == 'eq':
        return '[%s == %s]' % (show(t.args[0], depth + 1), show(t.args[1], depth + 1))
    if t.op == 'isnone':
        return '[%s is None]' % show(t.args[0], depth + 1)
    if t.op == 'truthy':
        return '[%s]' % show(t.args[0], depth + 1)
    if t.op == 'poly':
        return show(t.args[0], depth + 1)
    if t.op == 'elem':
        return '%s[%s]' % (show(t.args[0], depth + 1), ', '.join(show(x, depth + 1) for x in t.args[1:]))
    if t.op in ('app', 'pred'):
        return '%s(%s)' % (t.args[0], ', '.join(show(x, depth + 1) for x in t.args[1:]))
    if t.op == 'sum':
        return 'Sum{%s}(%s)' % (', '.join('%s<%s' % (show(v), show(s, depth + 1)) for v, s in zip(t.args[0], t.args[1])),
                                show(t.args[2], depth + 1))
    if t.op == 'ite':
        return '(%s if %s else %s)' % (show(t.args[1], depth + 1), show(t.args[0], depth + 1), show(t.args[2], depth + 1))
    if t.op == 'str':
        return 'str(' + ' . '.join(show(x, depth + 1) for x in t.args) + ')'
    return '%s(%s)' % (t.op, ', '.join(show(x, depth + 1) for x in t.args))


def show_lit(l, v):
    if l.op == 'neg':
        return '%s %s 0' % (show(l.args[0]), '<' if v else '>=')
    if l.op == 'zero':
        return '%s %s 0' % (show(l.args[0]), '==' if v else '!=')
    s = show(l)
    return s if v else 'not ' + s


# ---------------------------------------------------------------- rewriting

def rewrite(t, f, cache=None):
    """Bottom-up rewriting of non-polynomial nodes: f(node) -> value or None."""
    if cache is None:
        cache = {}
    return _rewrite(t, f, cache)


def _rewrite(t, f, cache):
    if isinstance(t, tuple):
        return tuple(_rewrite(x, f, cache) for x in t)
    if not isinstance(t, T):
        return t
    r = cache.get(t)
    if r is not None:
        return r[0]
    if t.op == 'num':
        m = {}
        for a in children(t):
            n = _rewrite(a, f, cache)
            if n is not a:
                m[a] = n
        if not m:
            r = t
        elif single_atom(t) is not None:
            r = m[single_atom(t)]
            if isinstance(r, T) and r.op not in ('num', 'ref', 'ite'):
                r = as_num(r)
        else:
            parts = []
            for mono, c in t.args[0]:
                p = num(c)
                for a, e in mono:
                    p = mul(p, power(as_num(m.get(a, a)), e))
                    if p is ZERO:
                        break
                parts.append(p)
            r = add(*parts)
        h = getattr(f, 'num', None)
        if h is not None and isinstance(r, T) and r.op == 'num':
            n = h(r)
            if n is not None:
                r = n
    elif t.op == 'sym':
        r = f(t)
        if r is None:
            r = t
    else:
        nargs = tuple(_rewrite(a, f, cache) if isinstance(a, (T, tuple)) else a for a in t.args)
        n = t if nargs == t.args else rebuild(t.op, nargs)
        r = f(n) if isinstance(n, T) and n.op != 'num' else None
        if r is None:
            r = n
    cache[t] = (r,)
    return r


def canon_bind(v, t):
    """(binder, t) with the bound variable v renamed canonically."""
    d = _depth(t) + 1
    b = sym('#%d' % d, int=True, nonneg=True, kind='num')
    return b, subst(t, {v: atom(b)})


def mentions(t, pred_):
    if isinstance(t, tuple):
        return any(mentions(x, pred_) for x in t)
    if not isinstance(t, T):
        return False
    for s in subterms(t):
        if pred_(s):
            return True
    return False
