"""Symbolic ndarray algebra on ArrVal (layout-typed arrays)."""

from .terms import *
from .values import *
from .terms import SMALL


class Misaligned(Exception):
    """Arrays which are not known to have the same shape; unequal: a condition
    under which they certainly have not."""

    def __init__(self, msg, unequal=ZERO):
        Exception.__init__(self, msg)
        self.unequal = unequal


def masked_size(dims, filt):
    """The condition that a selection neither is the whole array nor has one element."""
    vs = [v for d in dims for v, s in d]
    ns = [s for d in dims for v, s in d]
    if not vs:
        return ZERO
    n = rsum(tuple(vs), tuple(ns), filt)
    total = ONE
    for s in ns:
        total = mul(total, s)
    return mul(not_(eq_num(n, total)), not_(eq_num(n, ONE)))


def rename(arr, mapping):
    """Rename axis variables."""
    m = {a: atom(b) for a, b in mapping.items() if a is not b}
    if not m:
        return arr
    dims = [tuple((mapping.get(v, v), s) for v, s in d) for d in arr.dims]
    return ArrVal(dims, {l: subst(b, m) for l, b in arr.fields.items()}, subst(arr.filt, m),
                  arr.dtypes, arr.order)


def freshen(arr):
    return rename(arr, {v: axis_like(v, s)[0] for v, s in arr.axes})


def drop_unit(arr):
    """Substitute 0 for axes of size one."""
    m = {v: ZERO for v, s in arr.axes if s is ONE}
    if not m:
        return arr
    return ArrVal(arr.dims, {l: subst(b, m) for l, b in arr.fields.items()}, subst(arr.filt, m),
                  arr.dtypes, arr.order)


def same_size(a, b):
    if a is b:
        return True
    d = expand_inverses(sub(a, b))
    return d is ZERO


def align_dim(da, db):
    """Axis mapping of db onto da: (new da axes, mapping for a, mapping for b).

    mapping values are terms over the new axes.
    """
    if len(da) == len(db) and all(same_size(x[1], y[1]) for x, y in zip(da, db)):
        return da, {}, {y[0]: atom(x[0]) for x, y in zip(da, db) if x[0] is not y[0]}
    ua = [x for x in da if x[1] is not ONE]
    ub = [x for x in db if x[1] is not ONE]
    if (len(ua) < len(da) or len(ub) < len(db)) and (ua or ub):
        d, ma, mb = align_dim(tuple(ua), tuple(ub)) if ua and ub else (da if ua else db, {}, {})
        if ua and ub:
            ma = dict(ma)
            mb = dict(mb)
            ma.update({v: ZERO for v, s in da if s is ONE})
            mb.update({v: ZERO for v, s in db if s is ONE})
            return d, ma, mb
    na, nb = dim_size(da), dim_size(db)
    if nb is ONE:
        return da, {}, {v: ZERO for v, s in db}
    if na is ONE:
        return db, {v: ZERO for v, s in da}, {}
    if len(da) == 1 and len(db) > 1:
        if same_size(na, nb):
            return db, {da[0][0]: linear_index(db)}, {}
        raise Misaligned('sizes %s and %s' % (show(na), show(nb)))
    if len(db) == 1 and len(da) > 1:
        if same_size(na, nb):
            return da, {}, {db[0][0]: linear_index(da)}
        raise Misaligned('sizes %s and %s' % (show(na), show(nb)))
    if same_size(na, nb) and len(da) == len(db) and sorted(
            s.id for v, s in da) == sorted(s.id for v, s in db) and len(da) > 1:
        raise Misaligned('layout: element order over axes of sizes (%s) against (%s)' % (
            ', '.join(show(s) for v, s in da), ', '.join(show(s) for v, s in db)))
    # unknown relation: combine anyway as if equal when single
    if len(da) == 1 and len(db) == 1:
        if const_value(na) is not None and const_value(nb) is not None:
            raise Misaligned('sizes %s and %s' % (show(na), show(nb)), ONE)
        if always_differ(na, nb):
            raise Misaligned('sizes %s and %s' % (show(na), show(nb)), ONE)
        return da, {}, {db[0][0]: atom(da[0][0])}
    raise Misaligned('shape (%s) against (%s)' % (show(na), show(nb)))


_differ = {}


def always_differ(a, b):
    """Sizes which depend on the same quantities and are never equal (one element aside)."""
    k = (a, b)
    if k not in _differ:
        _differ[k] = _always_differ(a, b)
    return _differ[k]


def _always_differ(a, b):
    x, y = [frozenset(t for t in subterms(v) if t.op == 'sym' or t.op == 'app' and not (set(syms(t)) - set(syms(v)))) for v in (a, b)]
    if frozenset(syms(a)) != frozenset(syms(b)) or not (syms(a) or x & y) or has_unknown(a) or has_unknown(b):
        return False
    from .model import Interpretation, Abort

    class Large(Interpretation):
        naturals = tuple(range(2, 14))

        def choose(self, f, r):
            if f.get('int') and (f.get('pos') or f.get('nonneg')):
                return Fraction(r.randrange(2, 14))
            return Interpretation.choose(self, f, r)
    hits = 0
    for seed in range(120):
        it = Large(seed)
        try:
            u, v = it.num(a, {}), it.num(b, {})
        except (Abort, OverflowError, RecursionError, ZeroDivisionError):
            continue
        if min(u, v) < 2:
            continue
        if u == v:
            return False
        hits += 1
        if hits > 9:
            return True
    return False


def linear_index(dim):
    r = ZERO
    for v, s in dim:
        r = add(mul(r, s), atom(v))
    return r


def decode_index(dim, t):
    """Axis values of a linear index into a composite dimension."""
    if len(dim) == 1:
        return {dim[0][0]: t}
    m = {}
    rest = t
    for k, (v, s) in enumerate(dim):
        inner = ONE
        for _, s2 in dim[k + 1:]:
            inner = mul(inner, s2)
        if inner is ONE:
            m[v] = rest
        else:
            q = floor(div(rest, inner))
            m[v] = q
            rest = sub(rest, mul(q, inner))
    return m


def substitute(arr, mapping, dims=None):
    if not mapping and dims is None:
        return arr
    return ArrVal(dims if dims is not None else arr.dims,
                  {l: subst(b, mapping) for l, b in arr.fields.items()},
                  subst(arr.filt, mapping), arr.dtypes, arr.order)


def broadcast(*arrs):
    """Align arrays on common dims. Returns (dims, filt, [fields...])."""
    arrs = list(arrs)
    n = max(len(a.dims) for a in arrs)
    # avoid accidental sharing of variables between different positions
    for k, a in enumerate(arrs):
        if len(a.dims) < n:
            pad = [((new_axis(ONE, 'u')),) for _ in range(n - len(a.dims))]
            arrs[k] = ArrVal(pad + list(a.dims), a.fields, a.filt, a.dtypes, a.order)
    base = arrs[0]
    for k in range(1, len(arrs)):
        other = arrs[k]
        used = {v for v, s in base.axes}
        # if the other array uses one of our variables at another position, rename it
        pos = {v: (i, j) for i, d in enumerate(base.dims) for j, (v, s) in enumerate(d)}
        opos = {v: (i, j) for i, d in enumerate(other.dims) for j, (v, s) in enumerate(d)}
        if any(v in pos and pos[v] != opos[v] for v in opos):
            other = freshen(other)
        dims = []
        ma, mb = {}, {}
        for da, db in zip(base.dims, other.dims):
            try:
                d, x, y = align_dim(da, db)
            except Misaligned as err:
                if base.filt is not ONE or other.filt is not ONE:
                    err.unequal = ZERO
                raise
            dims.append(d)
            ma.update(x)
            mb.update(y)
        nb = substitute(base, ma, dims)
        no = substitute(other, mb, dims)
        for i in range(k):
            arrs[i] = substitute(arrs[i], ma, dims)
        arrs[0] = nb
        arrs[k] = no
        base = ArrVal(dims, nb.fields, nb.filt, nb.dtypes, nb.order)
        fa, fb = nb.filt, no.filt
        if fa is not fb:
            if fa is ONE:
                base.filt = fb if _unit(other) is False else fa
                if fb is not ONE and not _unit(other):
                    raise Misaligned('a masked selection against an unmasked array', masked_size(dims, fb))
            elif fb is ONE:
                if not _unit(other) and not _unit_arr(no, dims):
                    raise Misaligned('a masked selection against an unmasked array', masked_size(dims, fa))
            else:
                if len(subterm_atoms(fa)) + len(subterm_atoms(fb)) > 100:
                    raise Misaligned('two masked selections not known to be the same')
                v, w = compare(fa, fb)
                if v == Verdict.DIFFERENT:
                    raise Misaligned('two different masked selections: ' + w)
    orders = [a.order for a in arrs if a.order is not None]
    if orders and any(o != orders[0] for o in orders):
        raise Misaligned('elements in different order: %s' % (orders,))
    if orders and any(a.order is None and not _constant(a) for a in arrs):
        raise Misaligned('elements in different order: %s and original' % (orders[0],))
    return base.dims, base.filt, arrs, (orders[0] if orders else None)


def _unit(a):
    return all(dim_size(d) is ONE for d in a.dims)


def _unit_arr(a, dims):
    vs = set(v for d in dims for v, s in d)
    return not any(vs & syms(b) for b in a.fields.values())


def _constant(a):
    vs = set(a.vars())
    return not any(vs & syms(b) for b in a.fields.values())


def elementwise(f, *args):
    """Apply f on bodies; args are ArrVal or scalar terms."""
    arrs = [a for a in args if isinstance(a, ArrVal)]
    dims, filt, al, order = broadcast(*[ArrVal(a.dims, a.fields, a.filt, a.dtypes, a.order) for a in arrs])
    it = iter(al)
    vals = []
    for a in args:
        if isinstance(a, ArrVal):
            b = next(it)
            vals.append(b.fields[None] if None in b.fields else mk('rec', *b.fields.values()))
        else:
            vals.append(as_num(a) if not isinstance(a, (str, tuple)) and a is not None else a)
    return ArrVal(dims, {None: f(*vals)}, filt, {}, order)


def total_size(arr):
    if arr.filt is ONE:
        r = ONE
        for d in arr.dims:
            r = mul(r, dim_size(d))
        return r
    ax = arr.axes
    return rsum(tuple(v for v, s in ax), tuple(s for v, s in ax), arr.filt)


def reduce_sum(arr, axis=None):
    body = arr.body
    if axis is None:
        ax = arr.axes
        return rsum(tuple(v for v, s in ax), tuple(s for v, s in ax), mul(body, arr.filt))
    d = arr.dims[axis]
    rest = [x for k, x in enumerate(arr.dims) if k != axis % len(arr.dims)]
    if not any(v in syms(arr.filt) for v, s in d):
        # the selection is along the axes which remain
        r = rsum(tuple(v for v, s in d), tuple(s for v, s in d), body)
        return ArrVal(rest, {None: r}, arr.filt)
    r = rsum(tuple(v for v, s in d), tuple(s for v, s in d), mul(body, arr.filt))
    return ArrVal(rest, {None: r})


def _canon_reduce(name, axes, body, filt):
    axes = [(v, s) for v, s in axes]
    if name in ('rmin', 'rmax'):
        for n, (v, s) in enumerate(axes):
            c = const_value(s)
            if c is not None and 1 <= c <= SMALL and c.denominator == 1 and v in syms(body) and v not in syms(filt):
                rest = axes[:n] + axes[n + 1:]
                parts = []
                for i in range(int(c)):
                    m = {v: num(i)}
                    parts.append(_canon_reduce(name, rest, subst(body, m), filt))
                return minmax(name[1:], *parts)
    used = [(v, s) for v, s in axes if v in syms(body) or v in syms(filt)]
    if not used:
        return body if filt is ONE else ite_or(filt, body)
    body_free = max([_depth(body), _depth(filt)])
    best = None
    m = {}
    names = []
    for k, (v, s) in enumerate(sorted(used, key=lambda x: x[1].id)):
        nv = sym('#%d' % (body_free + k + 1), int=True, nonneg=True, kind='num')
        m[v] = nv
        names.append((nv, s))
    b = subst(body, m)
    f = subst(filt, m)
    return atom(mk('app', name, tuple(n for n, s in names), tuple(s for n, s in names), b, f))


from .terms import _depth  # noqa


def ite_or(filt, body):
    return body


def reduce_minmax(kind, arr, axis=None):
    """min/max over (part of) the axes."""
    body = arr.body
    if axis is None:
        axes, rest = arr.axes, []
    else:
        axes = list(arr.dims[axis])
        rest = [x for k, x in enumerate(arr.dims) if k != axis % len(arr.dims)]
    if arr.filt is ONE:
        # linear in the axis variables: the bound is at an end point
        m = {}
        left = []
        for v, s in axes:
            if v not in syms(body):
                continue
            coef = _lin_sign(body, v)
            if coef == {'+'} or coef == {'0', '+'}:
                m[v] = ZERO if kind == 'min' else sub(s, ONE)
            elif coef == {'-'} or coef == {'0', '-'}:
                m[v] = sub(s, ONE) if kind == 'min' else ZERO
            else:
                left.append((v, s))
        body = subst(body, m)
        axes = left
    if axis is not None and arr.filt is not ONE and not any(v in syms(arr.filt) for v, s in arr.dims[axis]):
        return ArrVal(rest, {None: _canon_reduce('r' + kind, axes, body, ONE)}, arr.filt)
    r = _canon_reduce('r' + kind, axes, body, arr.filt)
    if axis is None:
        return r
    return ArrVal(rest, {None: r})


def _lin_sign(p, v):
    """Sign of the coefficient of v when p is linear in v, else None."""
    terms = {}
    for m, c in p.args[0]:
        dm = dict(m)
        if v in dm:
            if dm[v] != 1:
                return None
            rest = tuple((a, e) for a, e in m if a is not v)
            if any(v in syms(a) for a, e in rest):
                return None
            terms[rest] = c
        elif any(v in syms(a) for a, e in m):
            return None
    q = mk('num', tuple(sorted(terms.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))))
    return sign_set(q)


def depends_on(body, v):
    return v in syms(body)


def monotone_axis(arr):
    """(axis index in arr.axes, sign) if the body is increasing along one axis only."""
    deps = [(k, v, s) for k, (v, s) in enumerate(arr.axes) if v in syms(arr.body)]
    if len(deps) != 1:
        return None
    k, v, s = deps[0]
    sg = _lin_sign(arr.body, v)
    if sg == {'+'}:
        return k
    return None
