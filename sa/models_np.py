"""Models of numpy arrays."""

import ast
import itertools

from .terms import *
from .terms import mod as mod_num, _depth
from .values import *
from . import arrays as A
from .arrays import Misaligned
from .interp import Dead, ABSENT, show_val
from .models import (model, EXT, Args, numeric_like, opaque_call, is_str, iter_segs, exists, seg_slice, BUILTINS, oscatch, exact)


def ext_constant(name):
    return {'numpy.pi': PI, 'numpy.inf': INF, 'numpy.Inf': INF, 'numpy.Infinity': INF, 'numpy.nan': NAN,
            'numpy.NaN': NAN, 'math.pi': PI, 'math.inf': INF, 'numpy.newaxis': mk('newaxis'),
            'sys.maxsize': atom(sym('maxsize', pos=True, int=True, kind='num'))}.get(name)


# ------------------------------------------------------------ construction

def arr1(size, f, name='i'):
    v, s = new_axis(size, name)
    return ArrVal((((v, s),),), {None: f(atom(v))})


def as_arr(I, v):
    """ArrVal of any array-like value (None when not array-like)."""
    v = I.unwrap(I.simp(v))
    if isinstance(v, ArrVal):
        return v
    if I.is_ref(v, ViewV):
        return I.arr(v)
    if isinstance(v, T) and v.op == 'nt':
        v = v.args[1]
    if isinstance(v, tuple) or I.is_ref(v, (ListV, GenV)):
        if I.is_ref(v, GenV):
            segs = I.get(v).segs
        else:
            segs = iter_segs(I, v)
        return segs_arr(I, segs)
    if isinstance(v, T) and v.op == 'sym' and fact(v, 'kind') in ('seq', 'list', 'tuple'):
        return segs_arr(I, iter_segs(I, v))
    if isinstance(v, T) and v.op == 'ite':
        a, b = as_arr(I, v.args[1]), as_arr(I, v.args[2])
        if a is None or b is None:
            return None
        try:
            return A.elementwise(lambda x, y: ite(v.args[0], x, y), a, b)
        except Misaligned:
            return None
    if numeric_like(v):
        return ArrVal((), {None: as_num(v)})
    return None


def segs_arr(I, segs):
    flat = I.flat_lits(segs)
    if flat is not None:
        items = [as_arr(I, x) if not is_str(x) else None for x in flat]
        if any(x is None for x in items) or any(x.is_rec() for x in items):
            return None
        n = len(items)
        if n == 0:
            return arr1(ZERO, lambda i: ZERO)
        nd = len(items[0].dims)
        if any(len(x.dims) != nd for x in items):
            return None
        v, s = new_axis(num(n), 'c')
        if nd == 0:
            body = pick(atom(v), [x.body for x in items])
            return ArrVal((((v, s),),), {None: body})
        try:
            dims, filt, al, order = A.broadcast(*items)
        except Misaligned:
            return None
        body = pick(atom(v), [x.fields[None] for x in al])
        kinds = {x.dtypes.get(None) for x in items}
        return ArrVal([((v, s),)] + list(dims), {None: body}, filt, {None: kinds.pop()} if len(kinds) == 1 and None not in kinds else {}, order)
    if len(segs) == 1 and segs[0][0] == 'each':
        _, k, size, inner = segs[0]
        if len(inner) == 1 and inner[0][0] == 'lit':
            x = as_arr(I, inner[0][1])
            if x is None or x.is_rec():
                return None
            v, s = new_axis(size, 'r')
            m = {k: atom(v)}
            return ArrVal([((v, s),)] + [tuple((a, subst(b, m)) for a, b in d) for d in x.dims],
                          {None: subst(x.body, m)}, subst(x.filt, m), {}, x.order)
        if len(inner) == 1 and inner[0][0] == 'if' and len(inner[0][2]) == 1 and inner[0][2][0][0] == 'lit':
            x = as_arr(I, inner[0][2][0][1])
            if x is None or x.dims:
                return None
            v, s = new_axis(size, 'r')
            m = {k: atom(v)}
            return ArrVal([((v, s),)], {None: subst(x.body, m)}, subst(inner[0][1], m))
        if len(inner) == 1 and inner[0][0] == 'each':
            # flattened nested comprehension: composite dimension
            x = segs_arr(I, inner)
            if x is None or len(x.dims) != 1:
                return None
            v, s = new_axis(size, 'r')
            m = {k: atom(v)}
            return ArrVal([((v, s),) + tuple((a, subst(b, m)) for a, b in x.dims[0])],
                          {None: subst(x.body, m)}, subst(x.filt, m), {}, x.order)
        # several literal items per iteration
        lits = I.flat_lits(inner)
        if lits is not None:
            x = segs_arr(I, tuple(('lit', y) for y in lits))
            if x is not None and len(x.dims) == 1:
                v, s = new_axis(size, 'r')
                m = {k: atom(v)}
                return ArrVal([((v, s),) + x.dims[0]], {None: subst(x.body, m)}, subst(x.filt, m))
    # concatenation of parts
    parts = []
    for s in segs:
        if s[0] == 'lit':
            x = as_arr(I, s[1])
            if x is None or x.dims:
                return None
            parts.append(ArrVal((((new_axis(ONE, 'c')),),), {None: x.body}))
        elif s[0] == 'each':
            x = segs_arr(I, (s,))
            if x is None or len(x.dims) != 1:
                return None
            parts.append(x)
        else:
            return None
    if parts:
        return concat(parts)
    return None


def concat(parts):
    """1-D concatenation."""
    if any(p.filt is not ONE or p.order is not None for p in parts):
        return None
    total = ZERO
    for p in parts:
        total = add(total, dim_size(p.dims[0]))
    v, s = new_axis(total, 'c')
    pos = ZERO
    body = None
    starts = []
    for p in parts:
        starts.append(pos)
        pos = add(pos, dim_size(p.dims[0]))
    for p, st in reversed(list(zip(parts, starts))):
        m = A.decode_index(p.dims[0], sub(atom(v), st))
        b = subst(p.body, m)
        body = b if body is None else ite(le(st_next(p, st), atom(v)), body, b)
    return ArrVal((((v, s),),), {None: body})


def concat_selections(parts):
    """Concatenation of selections of the same index ranges: a leading axis
    numbers the parts."""
    def split(a):
        d = a.dims[0]
        n = const_value(d[0][1]) if len(d) > 1 and d[0][0].args[0].startswith('part~') else None
        if n is None:
            return [(d, {}, )]
        return [(d[1:], {d[0][0]: num(i)}) for i in range(int(n))]
    if any(len(p.dims) != 1 or p.order is not None or list(p.fields) != list(parts[0].fields) for p in parts):
        return None
    flat = []
    for p in parts:
        flat += [(p, d, m) for d, m in split(p)]
    base = flat[0][1]
    if any(len(d) != len(base) or not all(A.same_size(x[1], y[1]) for x, y in zip(d, base)) for p, d, m in flat):
        return None
    v, s = new_axis(num(len(flat)), 'part')
    axes = tuple(axis_like(x, n) for x, n in base)

    def joined(get):
        r = None
        for n, (p, d, m) in reversed(list(enumerate(flat))):
            t = subst(get(p), dict(m, **{}) if not d else {**m, **{x: atom(y) for (x, _), (y, _) in zip(d, axes)}})
            r = t if r is None else ite(cmp_eq0(sub(atom(v), num(n))), t, r)
        return r
    return ArrVal((((v, s),) + axes,), {l: joined(lambda p: p.fields[l]) for l in parts[0].fields}, as_num(joined(lambda p: p.filt)), parts[0].dtypes)


def st_next(p, st):
    return add(st, dim_size(p.dims[0]))


def pick(i, vals):
    """vals[i] as gated value."""
    if all(v is vals[0] for v in vals):
        return vals[0]
    r = vals[-1]
    for n in range(len(vals) - 2, -1, -1):
        r = ite(eq_num(i, num(n)), vals[n], r)
    return r


def scalar(I, v):
    a = I.arr(v) if I.is_ref(v, ViewV) else v
    if a.is_rec():
        return None
    if all(dim_size(d) is ONE for d in a.dims) and a.filt is ONE:
        return subst(a.body, {x: ZERO for x in a.vars()})
    return None


def wrap(I, a):
    """Value of an ArrVal: scalars become terms."""
    if not a.dims and not a.is_rec():
        return a.body
    return I.new_arr(a)


def misaligned(I, err, node, cond=ONE):
    I.emit('misaligned', node, msg=str(err))
    I.note('misaligned arrays: %s' % err)
    if err.unequal is not ZERO:
        I.raise_('ValueError', err.unequal, node, 'arrays of different shape')


def ew(I, f, *vals):
    """Elementwise application."""
    args = []
    for v in vals:
        v = I.unwrap(I.simp(v))
        if isinstance(v, T) and v.op == 'ite':
            return I.cases(v, lambda x: ew(I, f, *[x if y is v else y for y in vals]))
        if isinstance(v, T) and v.op == 'ref' or isinstance(v, tuple) or (isinstance(v, T) and v.op == 'nt'):
            a = as_arr(I, v)
            if a is None:
                return I.unknown('elementwise', *vals)
            if a.is_rec():
                I.raise_('TypeError', ONE, None, 'arithmetic on a record array', internal=True)
            args.append(a)
        elif v is None or isinstance(v, str):
            return I.unknown('elementwise', *vals)
        else:
            args.append(as_num(v))
    arrs = [a for a in args if isinstance(a, ArrVal)]
    if not arrs:
        return f(*args)
    try:
        r = A.elementwise(f, *args)
    except Misaligned as err:
        misaligned(I, err, I.node)
        return I.unknown('misaligned', *[I.freeze(v) for v in vals])
    return wrap(I, r)


def as_bool(I, r):
    """Mark an array as boolean."""
    if isinstance(r, T) and r.op == 'ite':
        return ite(r.args[0], as_bool(I, r.args[1]), as_bool(I, r.args[2]))
    if I.is_ref(r, ViewV):
        v = I.get(r)
        if v.field is None and None in I.get(v.buf).fields:
            I.w(v.buf).dtypes = {None: 'bool'}
    return r


def bool_operand(I, v):
    if I.is_ref(v, ViewV):
        a = I.arr(v)
        return not a.is_rec() and is_bool_arr(a)
    return isinstance(v, bool) or isinstance(v, T) and v.op == 'num' and is_bool(v)


# ------------------------------------------------------------- iteration

def iter_array(I, r):
    a = I.arr(r)
    view = I.get(r)
    if not a.dims:
        I.raise_('TypeError', ONE, None, 'iteration over a 0-d array', internal=True)
    d = a.dims[0]
    if len(d) == 1:
        v, size = d[0]
        k, size = new_axis(size, 'k')
        idx = atom(k)
        e = index_first(I, r, idx)
        if I.is_ref(e):
            I.born[e.args[0]] = I.born.get(e.args[0], ()) + (k,)
        seg = ('lit', e)
        f = subst(a.filt, {v: idx})
        if f is not ONE:
            seg = ('if', f, (seg,))
        return (('each', k, size, (seg,)),)
    # composite dimension: nested loops
    ks = [new_axis(s, 'k') for v, s in d]
    m = {v: atom(k) for (v, s), (k, s2) in zip(d, ks)}
    e = view_sub(I, r, m, list(a.dims[1:]))
    if I.is_ref(e):
        I.born[e.args[0]] = I.born.get(e.args[0], ()) + tuple(k for k, s in ks)
    seg = ('lit', e)
    f = subst(a.filt, m)
    if f is not ONE:
        seg = ('if', f, (seg,))
    for k, s in reversed(ks):
        seg = ('each', k, s, (seg,))
    return (seg,)


def view_sub(I, r, m, dims, field=ABSENT):
    """View of a view with axis variables substituted by m."""
    v = I.get(r)
    mapping = tuple((bv, subst(t, m)) for bv, t in v.mapping)
    field = v.field if field is ABSENT else field
    nr = I.alloc(ViewV(v.buf, field, tuple(tuple(d) for d in dims), mapping))
    a = I.arr(nr)
    if not dims and not a.is_rec() and a.filt is ONE:
        return a.body
    if not dims and not a.is_rec():
        return a.body
    return nr


def index_first(I, r, i):
    """r[i] for a scalar index on the first dimension."""
    v = I.get(r)
    d = v.dims[0]
    m = A.decode_index(d, i)
    return view_sub(I, r, m, list(v.dims[1:]))


# ---------------------------------------------------------------- getitem

def norm_index(size, i):
    if sign_set(i) == {'-'}:
        return add(size, i)
    if sign_set(i) <= {'-', '0'} and sign_set(i) != {'0'}:
        return i
    return i


def getitem(I, r, i, node):
    a = I.arr(r)
    v = I.get(r)
    if isinstance(i, str):
        if a.is_rec():
            if i not in a.fields:
                I.raise_('KeyError', ONE, node, 'no field of name %s' % i, internal=True)
            return view_sub(I, r, {}, v.dims, i)
        I.raise_('IndexError', ONE, node, 'field access on an array without fields', internal=True)
    if is_str(i):
        if a.is_rec():
            res = None
            for l in a.fields:
                x = view_sub(I, r, {}, v.dims, l)
                c = eq_lit(i, l)
                res = x if res is None else I.join(I.truth(c), x, res)
            return res
    if I.is_ref(i, (ListV, )) or isinstance(i, tuple):
        fl = list(i) if isinstance(i, tuple) else I.flat_lits(iter_segs(I, i))
        if fl is not None and fl and all(isinstance(x, str) for x in fl):
            miss = [x for x in fl if x not in a.fields]
            if miss:
                I.raise_('KeyError', ONE, node, 'no field of name %s' % miss[0], internal=True)
            return I.new_arr(ArrVal(a.dims, {l: a.fields[l] for l in fl}, a.filt, a.dtypes, a.order))
    idx = i if isinstance(i, tuple) else (i,)
    idx = [I.unwrap(I.simp(x)) for x in idx]
    for x in idx:
        if isinstance(x, T) and x.op == 'ite':
            n = idx.index(x)
            return I.cases(x, lambda y: getitem(I, r, tuple(idx[:n] + [y] + idx[n + 1:]) if len(idx) > 1 else y, node))
    # boolean mask
    if len(idx) == 1:
        m = as_mask(I, idx[0])
        if m is not None:
            return mask_select(I, a, m, node)
    # np.where result: a tuple of index arrays
    if len(idx) == 1 and I.is_ref(idx[0], ListV) or any(I.is_ref(x, ViewV) or I.is_ref(x, ListV) or isinstance(x, tuple) for x in idx):
        return fancy(I, r, a, idx, node)
    return basic(I, r, a, v, idx, node)


def as_mask(I, x):
    if I.is_ref(x, ViewV):
        m = I.arr(x)
        if not m.is_rec() and is_bool_arr(m):
            return m
    return None


def is_bool_arr(m):
    if m.dtypes.get(None) == 'bool':
        return True
    return is_bool(m.body) and m.body is not ONE and m.body is not ZERO and not more_than_bool(m.body)


def more_than_bool(t):
    """A combination of indicators with other values than 0 and 1."""
    ls = literals(t)
    if len(ls) > 6:
        return False
    for bits in itertools.product((0, 1), repeat=len(ls)):
        x = t
        for l, b in zip(ls, bits):
            x = as_num(restrict(x, l, b)) if not isinstance(x, Fraction) else x
        c = const_value(x)
        if c is not None and c not in (0, 1) and (len(ls) == 1 or _possible(ls, bits)):
            return True
    return False


def _possible(ls, bits):
    g = ONE
    for l, b in zip(ls, bits):
        g = mul(g, atom(l) if b else not_(atom(l)))
    return sat(g)


def mask_select(I, a, m, node):
    base = ArrVal(a.dims, a.fields, ONE, a.dtypes, a.order)
    try:
        if len(m.dims) > len(a.dims):
            raise Misaligned('mask with more dimensions than the array')
        if len(m.dims) < len(a.dims):
            # mask on the leading dimensions
            lead = ArrVal(a.dims[:len(m.dims)], {None: ONE}, ONE)
            dims, filt, al, order = A.broadcast(lead, m)
            if tuple(tuple(d) for d in dims) != tuple(tuple(d) for d in a.dims[:len(m.dims)]):
                raise Misaligned('mask of another layout')
            return I.new_arr(ArrVal(a.dims, a.fields, mul(a.filt, al[1].fields[None]), a.dtypes, a.order))
        if a.filt is not ONE and m.filt is not a.filt:
            raise Misaligned('mask of another selection')
        dims, filt, al, order = A.broadcast(ArrVal(a.dims, a.fields, ONE, a.dtypes, a.order),
                                            ArrVal(m.dims, m.fields, ONE, m.dtypes, m.order))
    except Misaligned as err:
        misaligned(I, err, node)
        return I.unknown('mask', node and 0)
    ren = al[0]
    fa = a.filt
    if a.filt is not ONE:
        # filter expressed over the original variables
        mp = {}
        for d1, d2 in zip(a.dims, dims):
            for (v1, s1), (v2, s2) in zip(d1, d2):
                if v1 is not v2:
                    mp[v1] = atom(v2)
        fa = subst(a.filt, mp)
    dims = list(dims)
    if len(dims) > 1:
        dims = [tuple(x for d in dims for x in d)]
    return I.new_arr(reduced(ArrVal(dims, ren.fields, mul(fa, al[1].fields[None]), a.dtypes, order)))


def reduced(a):
    """A selection of one index of an axis: the axis is dropped."""
    if a.filt is ONE or len(a.dims) != 1 or a.order is not None:
        return a

    def fixed(v, e):
        m = {v: e}
        d = tuple(x for x in a.dims[0] if x[0] is not v) or (new_axis(ONE, 'u'),)
        return reduced(ArrVal((d,), {k: subst(b, m) for k, b in a.fields.items()}, subst(a.filt, m), a.dtypes))
    for v, s in a.dims[0]:
        e = only_value(a.filt, v, s)
        if e is not None:
            return fixed(v, e)
    for l in literals(a.filt):
        if l.op != 'zero' or restrict(a.filt, l, 0) is not ZERO:
            continue
        for v, s in a.dims[0]:
            cs = [(mm, c) for mm, c in l.args[0].args[0] if any(x is v for x, e in mm)]
            if len(cs) != 1 or len(cs[0][0]) != 1 or cs[0][0][0][1] != 1:
                continue
            e = scale(sub(l.args[0], scale(atom(v), cs[0][1])), -1 / cs[0][1])
            if v in syms(e) or any(w in syms(e) for w, _ in a.axes) or not is_int(e):
                continue
            if not sign_set(e) <= {'0', '+'} or sign_set(sub(e, s)) != {'-'}:
                continue
            return fixed(v, e)
    return a


def fancy(I, r, a, idx, node):
    """Integer array indexing."""
    if len(idx) == 1:
        x = idx[0]
        xs = None
        if isinstance(x, tuple):
            return fancy(I, r, a, list(x), node) if len(x) > 1 or I.is_ref(x[0], ViewV) else getitem(I, r, x[0], node)
        ia = as_arr(I, x)
        if ia is None:
            return I.unknown('fancy index', r, x)
        if is_bool_arr(ia):
            return mask_select(I, a, ia, node)
        return take(I, a, ia, 0, node)
    # tuple of index arrays (one per dimension), e.g. from np.where
    arrs = [as_arr(I, x) if I.is_ref(x) or numeric_like(x) else None for x in idx]
    if any(x is None for x in arrs) or len(arrs) > len(a.dims):
        # mix of slices and arrays: apply the array on its dimension
        if sum(1 for x in idx if I.is_ref(x)) == 1:
            n = [k for k, x in enumerate(idx) if I.is_ref(x)][0]
            rest = list(idx)
            rest[n] = mk('slice', None, None, None)
            t = basic(I, r, a, I.get(r), rest, node)
            if I.is_ref(t, ViewV):
                ta = I.arr(t)
                drop = sum(1 for x in idx[:n] if not (isinstance(x, T) and x.op == 'slice'))
                return take(I, ta, as_arr(I, idx[n]), n - drop, node)
        return I.unknown('fancy', r)
    try:
        dims, filt, al, order = A.broadcast(*arrs)
    except Misaligned as err:
        misaligned(I, err, node)
        return I.unknown('fancy')
    m = {}
    for d, x in zip(a.dims, al):
        m.update(A.decode_index(d, x.fields[None]))
    nd = list(dims) + list(a.dims[len(al):])
    return I.new_arr(ArrVal(nd, {l: subst(b, m) for l, b in a.fields.items()}, mul(filt, subst(a.filt, m)), a.dtypes, order)) \
        if nd else next(subst(b, m) for b in a.fields.values())


def take(I, a, ia, axis, node):
    if not ia.dims:
        raise Dead() if False else None or Misaligned('scalar')
    d = a.dims[axis]
    if a.filt is not ONE:
        m = unrank(a, ia.body)
        if m is None:
            if len(a.dims) == 1 and a.order is None:
                return I.new_arr(ArrVal(ia.dims, {l: selected_body(a, b, ia.body) for l, b in a.fields.items()}, ia.filt, a.dtypes, ia.order))
            return I.unknown('take of selection')
        return I.new_arr(ArrVal(ia.dims, {l: subst(b, m) for l, b in a.fields.items()}, ia.filt, a.dtypes, ia.order))
    m = A.decode_index(d, ia.body)
    dims = list(a.dims[:axis]) + list(ia.dims) + list(a.dims[axis + 1:])
    filt = subst(a.filt, m)
    return I.new_arr(ArrVal(dims, {l: subst(b, m) for l, b in a.fields.items()}, mul(ia.filt, filt), a.dtypes, ia.order))


def basic(I, r, a, v, idx, node):
    """Scalar and slice indices: a view."""
    dims = list(v.dims)
    nidx = []
    real = [x for x in idx if not (isinstance(x, T) and x.op in ('newaxis', 'ellipsis')) and x is not None]
    for x in idx:
        if isinstance(x, T) and x.op == 'ellipsis':
            nidx += [mk('slice', None, None, None)] * (len(dims) - len(real))
        else:
            nidx.append(x)
    m = {}
    out = []
    pos = 0
    for x in nidx:
        if x is None or (isinstance(x, T) and x.op == 'newaxis'):
            out.append((new_axis(ONE, 'u'),))
            continue
        if pos >= len(dims):
            I.raise_('IndexError', ONE, node, 'too many indices for array', internal=True)
        d = dims[pos]
        pos += 1
        if isinstance(x, T) and x.op == 'slice':
            lo, hi, st = x.args
            n = dim_size(d)
            if lo is None and hi is None and st is None:
                out.append(d)
                continue
            st = as_num(st) if st is not None else ONE
            cs = const_value(st)

            def nrm(y, default):
                if y is None:
                    return default
                y = as_num(y)
                if sign_set(y) == {'-'}:
                    return add(n, y)
                return y
            c0 = const_value(as_num(lo)) if lo is not None else 0
            if cs is not None and cs > 1 and hi is None and c0 is not None and 0 <= c0 < cs and a.filt is ONE:
                # one position of every row of cs values
                k, width = len(d), 1
                while k and width < cs and const_value(d[k - 1][1]) is not None:
                    k -= 1
                    width *= const_value(d[k][1])
                if width == cs and k:
                    m.update(A.decode_index(d[k:], num(c0)))
                    out.append(d[:k])
                    continue
            if cs is not None and cs < 0:
                lo2 = nrm(lo, sub(n, ONE))
                size = ceil(div(add(lo2, ONE), neg(st))) if hi is None else ceil(div(sub(lo2, nrm(hi, ZERO)), neg(st)))
            else:
                lo2 = nrm(lo, ZERO)
                hi2 = nrm(hi, n)
                # clip to the size
                if hi is not None and sign_set(sub(n, hi2)) - {'0', '+'}:
                    hi2 = minmax('min', n, hi2)
                size = sub(hi2, lo2) if cs == 1 else ceil(div(sub(hi2, lo2), st))
                if sign_set(size) - {'0', '+'}:
                    size = minmax('max', ZERO, size)
            if a.filt is not ONE:
                return I.unknown('slice of selection', r)
            ax = new_axis(size, 'i')
            m.update(A.decode_index(d, add(lo2, mul(st, atom(ax[0])))))
            out.append((ax,))
            continue
        if isinstance(x, T) and (x.op == 'num' or numeric_like(x)):
            i = norm_index(dim_size(d), as_num(x))
            c = const_value(i)
            n = const_value(dim_size(d))
            if c is not None and n is not None and not (0 <= c < n):
                I.raise_('IndexError', ONE, node, 'index %s is out of bounds for axis of size %s' % (c, n), internal=True)
            elif (c is None or n is None) and any(q in ('IndexError', 'LookupError') for ns in I.try_names for q in ns):
                I.raise_('IndexError', not_(lt(i, dim_size(d))), node)
            if a.filt is not ONE:
                return selected(I, a, i, node)
            m.update(A.decode_index(d, i))
            continue
        if isinstance(x, tuple) or isinstance(x, str):
            I.raise_('IndexError', ONE, node, 'invalid index', internal=True)
        return I.unknown('array index', r, x)
    out += dims[pos:]
    return view_sub(I, r, m, out)


def only_value(f, v, s):
    """The only value of a variable with a small range for which a condition
    may hold, or None."""
    n = const_value(s)
    if n is None or not 1 < n <= 8:
        return None
    got = [i for i in range(int(n)) if subst(f, {v: num(i)}) is not ZERO]
    return num(got[0]) if len(got) == 1 else None


def pinned_axes(a):
    """Axis values of the only element which a selection can have, or None."""
    m = {}
    for v, s in a.axes:
        sol = ZERO if s is ONE else only_value(a.filt, v, s)
        for l in literals(a.filt) if sol is None else ():
            if l.op != 'zero' or restrict(a.filt, l, 0) is not ZERO:
                continue
            p = l.args[0]
            cs = [(mm, c) for mm, c in p.args[0] if any(x is v for x, e in mm)]
            if len(cs) == 1 and len(cs[0][0]) == 1 and cs[0][0][0][1] == 1:
                r = scale(sub(p, scale(atom(v), cs[0][1])), -1 / cs[0][1])
                if not any(w in syms(r) for w, _ in a.axes):
                    sol = r
                    break
        if sol is None:
            return None
        m[v] = sol
    return m


def selected(I, a, i, node):
    """Element i of a masked selection (opaque, canonical)."""
    m = unrank(a, i)
    if m is None and i is ZERO:
        m = pinned_axes(a)
        if m is not None:
            I.raise_('IndexError', not_(subst(a.filt, m)), node, 'no element is selected', internal=True)

    def one(body):
        if m is not None:
            return subst(body, m)
        f = mk('pair', body, a.filt)
        names = []
        for v, s in a.axes:
            b, f = canon_bind(v, f)
            names.append((b, s))
        return atom(mk('app', 'selitem', tuple(names), f.args[0], f.args[1], i))
    if a.is_rec():
        return I.new_arr(ArrVal((), {l: one(b) for l, b in a.fields.items()}, ONE, a.dtypes))
    return one(a.body)


# ------------------------------------------------------------------ store

def store(I, r, i, val, node):
    """view[i] = val (i None: whole array)."""
    if i is not None:
        i = I.unwrap(I.simp(i)) if not isinstance(i, tuple) else i
        idx = i if isinstance(i, tuple) else (i,)
        masks = [x for x in idx if I.is_ref(x, ViewV) or I.is_ref(x, ListV)]
        if masks and not (isinstance(i, tuple) and all(isinstance(x, str) for x in idx)):
            if len(idx) == 1:
                m = as_mask(I, idx[0])
                if m is not None:
                    return masked_store(I, r, m, val, node)
            elif len(idx) == 1 or all(I.is_ref(x, ViewV) for x in idx):
                pass
            return fancy_store(I, r, idx, val, node)
        t = getitem_view(I, r, i, node)
        if t is None:
            I.note('store through unknown view')
            return
        target = t
    else:
        target = r
    v = I.get(target)
    b = I.get(v.buf)
    tgt = I.arr(target)
    fields = [v.field] if v.field is not None else list(b.fields)
    val = I.unwrap(I.simp(val))
    if isinstance(val, T) and val.op == 'ite':
        return I.cases(val, lambda x: store(I, r, i, x, node))
    if I.is_ref(val, (ViewV, ListV, GenV)) or isinstance(val, tuple) or (isinstance(val, T) and val.op == 'nt'):
        items = None
        if tgt.is_rec() and (isinstance(val, tuple)):
            items = val
        if items is not None and not tgt.dims:
            if len(items) != len(fields):
                I.raise_('ValueError', ONE, node, 'wrong number of values for record', internal=True)
            for l, x in zip(fields, items):
                write_field(I, v, l, {}, as_num(x), node)
            return
        x = as_arr(I, val)
        if x is None:
            for l in fields:
                write_field(I, v, l, {}, atom(app_raw('?store', l or '', I.freeze(val))), node)
            return
        if tgt.is_rec() and x.is_rec():
            if len(x.fields) != len(tgt.fields):
                I.raise_('ValueError', ONE, node, 'cannot assign structures with different fields', internal=True)
            for l, lx in zip(fields, x.fields):
                v = I.get(target)
                tgt = I.arr(target)
                store_arr(I, v, tgt, l, ArrVal(x.dims, {None: x.fields[lx]}, x.filt, {}, x.order), node)
            return
        for l in fields:
            v = I.get(target)
            tgt = I.arr(target)
            store_arr(I, v, tgt, l, x, node)
        return
    for l in fields:
        write_field(I, v, l, {}, as_num(val) if not isinstance(val, str) else mk('py', val), node)


def getitem_view(I, r, i, node):
    a = I.arr(r)
    v = I.get(r)
    if isinstance(i, str):
        if i not in a.fields:
            if a.is_rec():
                I.raise_('ValueError', ONE, node, 'no field of name %s' % i, internal=True)
            I.raise_('IndexError', ONE, node, 'field access on an array without fields', internal=True)
        return I.alloc(ViewV(v.buf, i, v.dims, v.mapping))
    idx = i if isinstance(i, tuple) else (i,)
    idx = [I.unwrap(I.simp(x)) for x in idx]
    dims = list(v.dims)
    m = {}
    out = []
    pos = 0
    for x in idx:
        if isinstance(x, T) and x.op == 'ellipsis':
            while len(dims) - pos > len(idx) - idx.index(x) - 1:
                out.append(dims[pos])
                pos += 1
            continue
        if pos >= len(dims):
            if isinstance(x, str):
                return None
            I.raise_('IndexError', ONE, node, 'too many indices for array', internal=True)
        d = dims[pos]
        pos += 1
        if isinstance(x, T) and x.op == 'slice':
            lo, hi, st = x.args
            if lo is None and hi is None and st is None:
                out.append(d)
                continue
            n = dim_size(d)
            if st is not None and const_value(as_num(st)) != 1:
                return None
            lo2 = ZERO if lo is None else as_num(lo)
            hi2 = n if hi is None else as_num(hi)
            if sign_set(lo2) == {'-'}:
                lo2 = add(n, lo2)
            if sign_set(hi2) == {'-'}:
                hi2 = add(n, hi2)
            elif hi is not None and sign_set(sub(n, hi2)) - {'0', '+'}:
                hi2 = minmax('min', n, hi2)
            ax = new_axis(sub(hi2, lo2), 'i')
            m.update(A.decode_index(d, add(lo2, atom(ax[0]))))
            out.append((ax,))
        elif numeric_like(x):
            i2 = as_num(x)
            if sign_set(i2) == {'-'}:
                i2 = add(dim_size(d), i2)
            m.update(A.decode_index(d, i2))
        else:
            return None
    out += dims[pos:]
    mapping = tuple((bv, subst(t, m)) for bv, t in v.mapping)
    return I.alloc(ViewV(v.buf, v.field, tuple(tuple(d) for d in out), mapping))


def whole_axis(dim):
    """The one axis of size above one in a dimension, or None."""
    ax = [a for a in dim if a[1] is not ONE]
    return ax[0] if len(ax) == 1 else None


def adopt(I, v, x):
    """Give a buffer written as a whole the axes of the array stored in it.

    The elements of the (flat) buffer axis are numbered by the axes of the
    stored array, so the contents stay a function of these axes.
    """
    b = I.get(v.buf)
    if len(x.dims) != 1 or len(v.dims) != 1:
        return v
    xd = [a for a in x.dims[0] if a[1] is not ONE]
    if b.filt is not ONE:
        return v
    if len(xd) < 2 and x.filt is ONE:
        return v
    ax = whole_axis(v.dims[0])
    if ax is None:
        return v
    w, n = ax
    if not A.same_size(n, A.total_size(x)):
        return v
    bv = [q for q, t in v.mapping if t is atom(w)]
    if len(bv) != 1:
        return v
    bv = bv[0]
    axd = dict(b.axes)
    if axd.get(bv) is None or not A.same_size(axd[bv], n) or any(s is not ONE for q, s in b.axes if q is not bv):
        return v
    const = not any(q in syms(f) for f in b.fields.values() for q in axd)
    if x.filt is not ONE and not const:
        return v
    views = []
    for oid, rec in I.st.heap.items():
        if isinstance(rec, ViewV) and rec.buf is v.buf:
            views.append((oid, rec))
    new = [axis_like(q, s) for q, s in xd]
    ren = {q: atom(p) for (q, s), (p, s2) in zip(xd, new)}
    new = [(p, subst(s, ren)) for p, s in new]
    lin = A.linear_index(tuple(new))
    out = []
    for oid, rec in views:
        tm = dict(rec.mapping)[bv]
        place = None
        for dn, d in enumerate(rec.dims):
            for an, a in enumerate(d):
                if tm is atom(a[0]) and A.same_size(a[1], n):
                    place = dn, an
        if place is not None:
            dn, an = place
            axs = [axis_like(q, s) for q, s in new]
            r2 = {q: atom(p) for (q, s), (p, s2) in zip(new, axs)}
            axs = [(p, subst(s, r2)) for p, s in axs]
            d = rec.dims[dn]
            nd = tuple(a for a in d[:an] if a[1] is not ONE) + tuple(axs) + tuple(a for a in d[an + 1:] if a[1] is not ONE)
            dims = rec.dims[:dn] + (nd,) + rec.dims[dn + 1:]
            mp = tuple((q, t if t is not ONE else t) for q, t in rec.mapping if q is not bv)
            mp = tuple((q, ZERO if axd[q] is ONE else t) for q, t in mp) + tuple(
                (q, atom(p)) for (q, s), (p, s2) in zip(new, axs))
            out.append((oid, ViewV(rec.buf, rec.field, dims, mp, rec.extra)))
        else:
            if x.filt is not ONE:
                return v
            dec = A.decode_index(tuple(new), tm)
            mp = tuple((q, t) for q, t in rec.mapping if q is not bv) + tuple((q, dec[q]) for q, s in new)
            out.append((oid, ViewV(rec.buf, rec.field, rec.dims, mp, rec.extra)))
    m = {bv: lin}
    rest = [(q, s) for q, s in b.axes if q is not bv]
    nb = BufV({l: subst(f, m) for l, f in b.fields.items()}, tuple(rest) + tuple(new),
              subst(x.filt, ren), dict(b.dtypes), x.order if const else b.order)
    I.put(v.buf, nb)
    mine = None
    for oid, rec in out:
        I.put(ref(oid), rec)
    for (oid, old), (_, rec) in zip(views, out):
        if old is v:
            mine = rec
    if mine is None:
        # the target view itself is not on the heap
        axs = [axis_like(q, s) for q, s in new]
        r2 = {q: atom(p) for (q, s), (p, s2) in zip(new, axs)}
        axs = [(p, subst(s, r2)) for p, s in axs]
        mine = ViewV(v.buf, v.field, (tuple(axs),), tuple((q, ZERO) for q, s in rest) + tuple(
            (q, atom(p)) for (q, s), (p, s2) in zip(new, axs)))
    return mine


def refine(I, r, shp):
    """Split the single axis of an array into axes of the given sizes."""
    v = I.get(r)
    if len(v.dims) != 1 or whole_axis(v.dims[0]) is None:
        return False
    axs = [new_axis(s, 'i') for s in shp]
    x = ArrVal((tuple(axs),), {None: ZERO}, ONE, {}, None)
    b = I.get(v.buf)
    return adopt(I, v, x) is not v


def view_arr(I, v):
    return I.arr(I.alloc(v))


def store_arr(I, v, tgt, label, x, node):
    """Assign array x to the view v (aligned by broadcasting)."""
    v2 = adopt(I, v, x)
    if v2 is not v:
        v = v2
        tgt = view_arr(I, v)
    base = ArrVal(v.dims, {None: ONE}, tgt.filt, {}, tgt.order)
    try:
        if len(x.dims) > len(v.dims):
            extra = x.dims[:len(x.dims) - len(v.dims)]
            if any(dim_size(d) is not ONE for d in extra):
                raise Misaligned('could not broadcast into a smaller array')
            x = ArrVal(x.dims[len(extra):], {l: subst(b, {a: ZERO for d in extra for a, s in d}) for l, b in x.fields.items()},
                       x.filt, {}, x.order)
        if x.filt is not ONE and tgt.filt is ONE:
            # a selection stored in an array of the same number of elements
            raise Misaligned('a masked selection stored in an unmasked array', A.masked_size(x.dims, x.filt))
        dims, filt, al, order = A.broadcast(base, ArrVal(x.dims, x.fields, x.filt, {}, x.order))
    except Misaligned as err:
        misaligned(I, err, node)
        write_field(I, v, label, {}, atom(app_raw('?misaligned', fresh('m'))), node)
        return
    body = al[1].fields[None]
    # dims may be refined (composite split): express over the view variables
    if tuple(tuple(d) for d in dims) != tuple(tuple(d) for d in v.dims):
        inv = {}
        ok = True
        for d0, d1 in zip(v.dims, dims):
            if tuple(d0) == tuple(d1):
                continue
            if len(d0) == 1:
                inv.update(A.decode_index(d1, atom(d0[0][0])))
            elif len(d0) == len(d1):
                inv.update({b[0]: atom(a[0]) for a, b in zip(d0, d1)})
            else:
                ok = False
        if not ok:
            body = atom(app_raw('?store', fresh('m')))
        else:
            body = subst(body, inv)
    write_field(I, v, label, {}, body, node)


def write_field(I, v, label, m, body, node, cond=ONE):
    """Write body (over the view variables) through the view mapping."""
    b = I.w(v.buf)
    I.emit('bufwrite', node, buf=v.buf, label=label)
    old = b.fields[label]
    inv = {}
    c = cond
    vvars = [x for d in v.dims for x, s in d]
    sizes = {x: s for d in v.dims for x, s in d}
    used = set()
    pend = []
    for bv, t in v.mapping:
        s = [x for x in vvars if x in syms(t)]
        if not s:
            c = mul(c, eq_num(atom(bv), t))
            inv_self = True
            continue
        if len(s) == 1 and s[0] not in used:
            x = s[0]
            # t = x + off
            off = sub(t, atom(x))
            if x not in syms(off):
                inv[x] = sub(atom(bv), off)
                used.add(x)
                if off is not ZERO or sizes[x] is not dict(b.axes)[bv]:
                    n = dict(b.axes)[bv]
                    if off is not ZERO:
                        c = mul(c, le(off, atom(bv)))
                    if not A.same_size(add(sizes[x], off), n):
                        c = mul(c, lt(atom(bv), add(off, sizes[x])))
                continue
            tot = sub(add(t, atom(x)), ZERO)
            r = add(t, atom(x))
            if x not in syms(r):
                inv[x] = sub(r, atom(bv))
                used.add(x)
                continue
        pend.append((bv, t, s))
    if pend:
        # composite decode of one view variable: linear index of the buffer variables
        lin = try_linear_inverse(v, b, pend)
        if lin is not None:
            x, expr = lin
            inv[x] = expr
            n = sizes[x]
            used.add(x)
        else:
            I.note('store through a non-invertible view')
            b.fields[label] = atom(app_raw('?store', fresh('m')))
            return
    nb = subst(body, inv)
    if v.dims and any(x not in inv for x in vvars if sizes[x] is not ONE):
        # view variables which map on nothing
        pass
    b.fields[label] = ite(c, nb, old)


def try_linear_inverse(v, b, pend):
    xs = set(x for bv, t, s in pend for x in s)
    if len(xs) != 1:
        return None
    x = xs.pop()
    axes = [(bv, sz) for bv, sz in b.axes if bv in [p[0] for p in pend]]
    dec = A.decode_index(tuple(axes), atom(x))
    if all(dec[bv] is t for bv, t, s in pend):
        return x, A.linear_index(tuple(axes))
    return None


def masked_store(I, r, m, val, node):
    a = I.arr(r)
    v = I.get(r)
    try:
        dims, filt, al, order = A.broadcast(ArrVal(a.dims, {None: ONE}, ONE, {}, a.order),
                                            ArrVal(m.dims, m.fields, ONE, {}, m.order))
    except Misaligned as err:
        misaligned(I, err, node)
        return
    mask = al[1].fields[None]
    fields = [v.field] if v.field is not None else list(I.get(v.buf).fields)
    val = I.unwrap(I.simp(val))
    x = None
    if I.is_ref(val, (ViewV, ListV)) or isinstance(val, tuple):
        x = as_arr(I, val)
    for l in fields:
        cur = I.get(v.buf).fields[l]
        if x is not None:
            # the values must be the same selection
            if x.filt is ONE and x.dims and not all(dim_size(d) is ONE for d in x.dims):
                I.note('masked store of unmasked values')
                write_field(I, v, l, {}, atom(app_raw('?mstore', fresh('m'))), node)
                continue
            try:
                _, _, al2, _ = A.broadcast(ArrVal(a.dims, {None: ONE}, mask, {}, a.order),
                                           ArrVal(x.dims, {None: x.body if not x.is_rec() else x.fields[l]}, x.filt, {}, x.order))
                body = al2[1].fields[None]
            except Misaligned as err:
                misaligned(I, err, node)
                body = atom(app_raw('?mstore', fresh('m')))
        else:
            body = as_num(val) if not isinstance(val, str) else mk('py', val)
        write_field(I, v, l, {}, ite(mask, body, old_over_view(I, v, l)), node)


def old_over_view(I, v, l):
    b = I.get(v.buf)
    return subst(b.fields[l], {bv: t for bv, t in v.mapping if single_atom(t) is not bv})


def fancy_store(I, r, idx, val, node):
    a = I.arr(r)
    v = I.get(r)
    arrs = []
    for x in idx:
        ia = as_arr(I, x)
        if ia is None:
            break
        arrs.append(ia)
    fields = [v.field] if v.field is not None else list(I.get(v.buf).fields)
    if len(arrs) == len(idx) == 1 and len(v.dims) == 1:
        ia = arrs[0]
        # selection by a mask index: arr[np.where(c)] = val
        mo = I.unwrap(I.simp(val))
        if ia.filt is not ONE and is_identity_index(ia):
            m = ArrVal(ia.dims, {None: ia.filt}, ONE, {None: 'bool'})
            return masked_store(I, r, m, val, node)
    if len(arrs) == len(idx) == len(v.dims) and len(arrs) > 1 and all(len(d) == 1 for d in v.dims):
        r_ = scatter(I, v, arrs, val)
        if r_ is not None:
            body, cond = r_
            for l in fields:
                write_field(I, I.get(r), l, {}, body, node, cond)
            return
    I.note('fancy store')
    for l in fields:
        write_field(I, v, l, {}, atom(app_raw('?fstore', fresh('m'))), node)


def scatter(I, v, arrs, val):
    """grid[ix, iy] = val where the selected index arrays enumerate the grid."""
    x = as_arr(I, I.unwrap(I.simp(val)))
    al = arrs + ([x] if x is not None else [])
    f = al[0]
    ax = [y for d in f.dims for y in d]
    out = []
    for y in al:
        if y.is_rec() or y.order is not None:
            return None
        ay = [z for d in y.dims for z in d]
        if len(ay) != len(ax):
            return None
        m = {}
        for (a, s), (b, u) in zip(ax, ay):
            if not A.same_size(s, u):
                return None
            m[b] = atom(a)
        if compare(subst(y.filt, m), f.filt)[0] != Verdict.EQUAL:
            return None
        out.append(subst(y.body, m))
    back = {}
    for d, t in zip(v.dims, out):
        a = single_atom(t)
        s = dict(ax).get(a)
        if a is None or s is None or a in back or not A.same_size(s, d[0][1]):
            return None
        back[a] = atom(d[0][0])
    if len(back) != len(ax):
        return None
    if x is None:
        return None
    return subst(out[-1], back), subst(f.filt, back)


def is_identity_index(ia):
    return len(ia.dims) == 1 and ia.body is A.linear_index(ia.dims[0])


# -------------------------------------------------------------- attributes

def arr_len(I, r):
    a = I.arr(r)
    if not a.dims:
        I.raise_('TypeError', ONE, None, 'len() of unsized object', internal=True)
    if a.filt is not ONE:
        return A.total_size(ArrVal(a.dims[:1], a.fields, a.filt)) if len(a.dims) == 1 else atom(mk('app', 'len', I.freeze(r)))
    return dim_size(a.dims[0])


def arr_attr(I, r, name, node):
    a = I.arr(r)
    if name == 'size':
        return A.total_size(a)
    if name == 'shape':
        if a.filt is not ONE:
            if len(a.dims) == 1:
                return (A.total_size(a),)
            return I.unknown('shape of selection', r)
        return tuple(dim_size(d) for d in a.dims)
    if name == 'ndim':
        return num(len(a.dims))
    if name == 'T':
        v = I.get(r)
        return I.alloc(ViewV(v.buf, v.field, tuple(reversed(v.dims)), v.mapping))
    if name == 'dtype':
        if a.is_rec():
            return mk('dtype', 'rec', tuple((l, a.dtypes.get(l)) for l in a.fields))
        return mk('dtype', a.dtypes.get(None))
    if name == 'flat':
        return arr_method(I, r, 'ravel', Args(I, [], DictV({}), node, 'ravel'))
    if name in ('real', ):
        return r
    return bound(name, r)


def dtype_attr(I, d, name):
    if name == 'names':
        if d.args[0] == 'rec':
            return tuple(l for l, t in d.args[1])
        return None
    if name == 'itemsize':
        return atom(mk('app', 'itemsize', d))
    if name == 'fields':
        return I.unknown('dtype.fields')
    if name == 'kind':
        return mk('app', 'dtypekind', d)
    return bound(name, d)


def arr_setattr(I, r, name, v):
    if name == 'shape':
        x = reshape(I, r, v, None)
        I.put(r, I.get(x))
        return
    I.note('array attribute store ' + name)


# ----------------------------------------------------------------- methods

def arr_method(I, r, name, a):
    f = METHODS.get(name)
    if f is not None:
        return f(I, r, a)
    if name == 'byteswap' or name == 'newbyteorder':
        return I.unknown(name, r)
    h = EXT.get('numpy.' + name)
    if h is not None:
        return h(I, Args(I, [('lit', r)] + list(a.segs), a.kwd, a.node, 'numpy.' + name))
    return opaque_call(I, '.array.' + name, a, r)


METHODS = {}


def method(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def ravel_dims(dims):
    return (tuple(x for d in dims for x in d),)


@method('ravel', 'flatten')
def _ravel(I, r, a):
    v = I.get(r)
    if len(v.dims) == 1:
        if a.name == 'flatten':
            return I.new_arr(I.arr(r))
        return r
    order = a.get(0, 'order', 'C')
    dims = v.dims
    if order in ('F',):
        dims = tuple(reversed(dims))
    nd = ravel_dims([[x for x in d if x[1] is not ONE] or d[:1] for d in dims]) if False else ravel_dims(dims)
    if a.name == 'flatten':
        x = I.arr(r)
        return I.new_arr(ArrVal(nd, x.fields, x.filt, x.dtypes, x.order))
    return I.alloc(ViewV(v.buf, v.field, nd, v.mapping))


@method('copy', '__copy__', '__deepcopy__')
def _copy(I, r, a):
    return I.new_arr(I.arr(r))


@method('tolist')
def _tolist(I, r, a):
    x = I.arr(r)
    if not x.dims:
        return scalar(I, r)

    def go(v):
        segs = iter_segs(I, v)
        from .models import map_segs
        return I.new_list(map_segs(segs, lambda e: go(e) if I.is_ref(e, ViewV) and I.arr(e).dims else rec(e)))

    def rec(e):
        if I.is_ref(e, ViewV):
            b = I.arr(e)
            return tuple(b.fields.values())
        return e
    return go(r)


@method('item')
def _item(I, r, a):
    s = scalar(I, r)
    if s is not None and not a.args:
        return s
    return I.unknown('item', r)


@method('astype', 'view')
def _astype(I, r, a):
    x = I.arr(r)
    t = dtype_name(I, a.args[0]) if a.args else None
    y = ArrVal(x.dims, x.fields, x.filt, dict(x.dtypes), x.order)
    if t in ('int', 'int64', 'uint64', 'int32', 'uint', 'uint32') and not x.is_rec():
        exact(I, a.node, x.body)
        y.fields = {None: trunc(x.body)}
    if not x.is_rec():
        y.dtypes = {None: t}
    return I.new_arr(y)


@method('fill')
def _fill(I, r, a):
    store(I, r, None, a.args[0], a.node)
    return None


@method('sort')
def _sort_inplace(I, r, a):
    order = a.get(None, 'order')
    x = sorted_arr(I, I.arr(r), order, a.get(0, 'axis', num(-1)))
    v = I.get(r)
    I.emit('inplace_sort', a.node, buf=v.buf, order=I.freeze(order) if order is not None else None)
    # in place: the buffer of this view gets the new order
    replace_contents(I, r, x)
    return None


def replace_contents(I, r, x):
    v = I.get(r)
    b = I.get(v.buf)
    if v.field is None and len(x.fields) == len(b.fields):
        axes = x.axes
        I.put(v.buf, BufV(dict(x.fields), tuple(axes), x.filt, dict(x.dtypes), x.order))
        I.emit('bufwrite', None, buf=v.buf, label=None)
        I.put(r, ViewV(v.buf, None, tuple(x.dims), tuple((y, atom(y)) for y, s in axes)))
    else:
        I.note('in place sort through a view')
        for l in ([v.field] if v.field is not None else b.fields):
            write_field(I, v, l, {}, atom(app_raw('?sorted', fresh('m'))), None)


def order_keys(I, order):
    if order is None:
        return None
    if isinstance(order, str):
        return [order]
    fl = I.flat_lits(iter_segs(I, order))
    return fl


def sorted_arr(I, x, order, axis=None):
    """Sort: a lattice which is monotone in its axes is reordered exactly."""
    keys = order_keys(I, order)
    if keys is not None and x.is_rec() and all(k in x.fields for k in keys):
        if x.filt is ONE and x.order is None or x.filt is not ONE and x.order is None:
            axes = x.axes
            pos = []
            for k in keys:
                n = A.monotone_axis(ArrVal(x.dims, {None: x.fields[k]}))
                if n is None or n in pos:
                    pos = None
                    break
                pos.append(n)
            if pos is not None and len(x.dims) == 1 and len(pos) == len(axes):
                return ArrVal([tuple(axes[n] for n in pos)], x.fields, x.filt, x.dtypes, None)
            if pos is not None and len(x.dims) == 1 and len(pos) >= 1 and set(range(len(axes))) - set(pos):
                pass
        if x.order is not None and len(x.order) > 1 and x.order[0] == 'sorted' and x.order[1] == tuple(keys):
            return x
        return ArrVal(x.dims, x.fields, x.filt, x.dtypes, ('sorted', tuple(keys), I.freeze_arr(x) if x.order is None else x.order))
    if not x.is_rec() and len(x.dims) == 1:
        if x.order is None:
            n = A.monotone_axis(x)
            if n is not None and len(x.axes) == 1:
                return x
        s = const_value(dim_size(x.dims[0]))
        if s == 2 and x.filt is ONE and len(x.axes) == 1:
            v = x.axes[0][0]
            b0, b1 = subst(x.body, {v: ZERO}), subst(x.body, {v: ONE})
            return ArrVal(x.dims, {None: pick(atom(v), [minmax('min', b0, b1), minmax('max', b0, b1)])})
        fz = I.freeze_arr(x)
        v, sz = new_axis(A.total_size(x), 'i')
        return ArrVal((((v, sz),),), {None: atom(mk('app', 'sorted', fz, atom(v)))})
    if not x.is_rec() and len(x.dims) > 1:
        fz = I.freeze_arr(x)
        return ArrVal(x.dims, {None: atom(mk('app', 'sortednd', fz, *[atom(v) for v in x.vars()]))})
    return ArrVal(x.dims, x.fields, x.filt, x.dtypes, ('sorted', (), I.freeze_arr(x)))


@model('numpy.sort')
def _(I, a):
    x = as_arr(I, a.args[0])
    if x is None:
        return I.unknown('np.sort', a.args[0])
    return I.new_arr(sorted_arr(I, x, a.get(None, 'order')))


@model('numpy.lexsort')
def _(I, a):
    try:
        keys = [x for x in I.flat_lits(iter_segs(I, a.args[0]))]
    except Exception:
        keys = None
    arrs = [as_arr(I, k) for k in keys] if keys else [None]
    if any(x is None or x.is_rec() or len(x.dims) != 1 or x.filt is not ONE or x.order is not None or
           len(x.axes) != len(arrs[0].axes) for x in arrs):
        return I.unknown('lexsort', *a.args)
    x0 = arrs[0]
    f, names = {}, []
    lin, st = ZERO, ONE
    for v, s in reversed(x0.axes):
        lin, st = add(lin, mul(atom(v), st)), mul(st, s)
    for n, x in enumerate(arrs):
        m = {}
        for (v, s), (w, u) in zip(x.axes, x0.axes):
            if compare(s, u)[0] != Verdict.EQUAL:
                return I.unknown('lexsort', *a.args)
            m[v] = atom(w)
        f['key%d' % n] = subst(x.body, m)
        names.append('key%d' % n)
    f['index'] = lin
    r = sorted_arr(I, ArrVal(x0.dims, f), I.new_list(tuple(('lit', k) for k in reversed(names))))
    if r.order is not None:
        return I.unknown('lexsort', *a.args)
    return I.new_arr(ArrVal(r.dims, {None: r.fields['index']}))


@model('numpy.argsort')
def _(I, a):
    x = as_arr(I, a.args[0])
    if x is None or x.is_rec():
        return I.unknown('argsort', *a.args)
    n = A.monotone_axis(x)
    if n is not None and len(x.axes) == 1 and x.order is None:
        return I.new_arr(arr1(dim_size(x.dims[0]), lambda i: i))
    fz = I.freeze_arr(x)
    return I.new_arr(arr1(A.total_size(x), lambda i: atom(mk('app', 'argsort', fz, i))))


@method('reshape')
def _reshape(I, r, a):
    shp = a.args if a.args is not None else None
    if shp is None:
        s = I.flat_lits(a.segs)
        return I.unknown('reshape', r)
    if len(shp) == 1:
        shp = shp[0]
    else:
        shp = tuple(shp)
    return reshape(I, r, shp, a.node, a.get(None, 'order', 'C'))


@method('resize')
def _resize(I, r, a):
    shp = a.args[0] if len(a.args) == 1 else tuple(a.args)
    x = reshape(I, r, shp, a.node)
    if I.is_ref(x, ViewV):
        I.put(r, I.get(x))
    return None


def shape_list(I, shp):
    shp = I.unwrap(I.simp(shp))
    if isinstance(shp, T) and shp.op == 'nt':
        shp = shp.args[1]
    if isinstance(shp, tuple):
        return [as_num(I.unwrap(x)) for x in shp]
    if isinstance(shp, T) and (shp.op == 'num'):
        return [shp]
    if isinstance(shp, T) and (I.is_ref(shp) or shp.op == 'sym'):
        if I.is_ref(shp, ViewV):
            a = I.arr(shp)
            n = const_value(dim_size(a.dims[0])) if len(a.dims) == 1 and a.filt is ONE else None
            if n is not None:
                v = a.dims[0][0][0]
                return [subst(a.body, {v: num(i)}) for i in range(int(n))]
            return None
        fl = I.flat_lits(iter_segs(I, shp) or (('mu', 0),))
        if fl is not None:
            return [as_num(I.unwrap(x)) for x in fl]
    return None


def reshape(I, r, shp, node, order='C'):
    shp0 = shp
    if isinstance(shp, T) and shp.op == 'ite':
        return I.cases(shp, lambda s: reshape(I, r, s, node, order))
    shp = shape_list(I, shp)
    a = I.arr(r)
    v = I.get(r)
    if shp is None:
        return I.unknown('reshape', r, shp0)
    if order == 'F':
        return I.unknown('reshape order F', r)
    if a.filt is not ONE:
        if len(shp) == 1:
            return r
        # a selection reshaped on a lattice: opaque
        axs = [new_axis(s, 'i') for s in shp]
        fl = lambda b: selected_body(a, b, A.linear_index(tuple(axs)))
        return I.new_arr(ArrVal([(x,) for x in axs], {l: fl(b) for l, b in a.fields.items()}, ONE, a.dtypes, None))
    total = A.total_size(a)
    for n, s in enumerate(shp):
        if const_value(s) == -1:
            rest = ONE
            for m, s2 in enumerate(shp):
                if m != n:
                    rest = mul(rest, s2)
            shp[n] = div(total, rest)
    flat = [x for d in a.dims for x in d]
    groups = group_axes(flat, shp)
    if groups is not None:
        return I.alloc(ViewV(v.buf, v.field, tuple(tuple(g) if g else (new_axis(ONE, 'u'),) for g in groups), v.mapping))
    prod = ONE
    for s in shp:
        prod = mul(prod, s)
    d = expand_inverses(sub(prod, total))
    if d is not ZERO:
        c = cmp_eq0(d)
        if c is ZERO:
            I.raise_('ValueError', ONE, node, 'cannot reshape array of size %s into shape (%s)' % (
                show(total), ', '.join(show(s) for s in shp)), internal=True)
        # sizes related only by the data
        I.emit('reshape_unproved', node, total=total, shape=tuple(shp))
    if len(shp) > 1 and refine(I, r, shp):
        a = I.arr(r)
        v = I.get(r)
        groups = group_axes([x for d in a.dims for x in d], shp)
        if groups is not None:
            return I.alloc(ViewV(v.buf, v.field, tuple(tuple(g) if g else (new_axis(ONE, 'u'),) for g in groups), v.mapping))
    axs = [new_axis(s, 'i') for s in shp]
    lin = A.linear_index(tuple(axs))
    m = A.decode_index(tuple(flat), lin)
    mapping = tuple((bv, subst(t, m)) for bv, t in v.mapping)
    if len(flat) > 1:
        I.emit('relayout', node, total=total, frm=tuple(s for x, s in flat), to=tuple(shp))
    return I.alloc(ViewV(v.buf, v.field, tuple((x,) for x in axs), mapping))


def selected_body(a, body, lin):
    f = mk('pair', body, a.filt)
    names = []
    for v, s in a.axes:
        b, f = canon_bind(v, f)
        names.append((b, s))
    return atom(mk('app', 'selitem', tuple(names), f.args[0], f.args[1], lin))


def rank_of(a):
    """Position of an element of a selection among the selected elements."""
    f, names = a.filt, []
    for v, s in a.axes:
        b, f = canon_bind(v, f)
        names.append((b, s))
    return atom(mk('app', 'rank', tuple(names), f, *(atom(v) for v, s in a.axes)))


def unrank(a, i):
    """Axis values of the element of the selection at a rank of the same
    selection, or None."""
    x = single_atom(i)
    if x is None or x.op != 'app' or x.args[0] != 'rank' or len(a.dims) != 1 or a.order is not None:
        return None
    r = single_atom(rank_of(a))
    if r.args[1:3] != x.args[1:3]:
        return None
    return {v: w for (v, s), w in zip(a.axes, x.args[3:])}


def group_axes(flat, shp):
    """Partition the axes in order so that group sizes are the shape."""
    groups = []
    i = 0
    flat = list(flat)
    for n, s in enumerate(shp):
        g = []
        p = ONE
        if A.same_size(s, ONE) and s is ONE:
            if i < len(flat) and flat[i][1] is ONE:
                g.append(flat[i])
                i += 1
            groups.append(g)
            continue
        while i < len(flat):
            g.append(flat[i])
            p = mul(p, flat[i][1])
            i += 1
            if A.same_size(p, s):
                break
        if not A.same_size(p, s):
            return None
        groups.append(g)
    while i < len(flat) and flat[i][1] is ONE:
        if groups:
            groups[-1].append(flat[i])
        i += 1
    if i != len(flat):
        return None
    return groups


@method('transpose')
def _transpose(I, r, a):
    v = I.get(r)
    if not a.args:
        return arr_attr(I, r, 'T', a.node)
    ax = a.args[0] if len(a.args) == 1 and not numeric_like(a.args[0]) else tuple(a.args)
    ax = shape_list(I, ax)
    cs = [const_value(x) for x in ax] if ax else None
    if cs is None or None in cs:
        return I.unknown('transpose', r)
    return I.alloc(ViewV(v.buf, v.field, tuple(v.dims[int(c)] for c in cs), v.mapping))


@method('swapaxes')
def _swapaxes(I, r, a):
    v = I.get(r)
    i, j = [const_value(as_num(x)) for x in a.args[:2]]
    dims = list(v.dims)
    n = len(dims)
    i, j = int(i) % n, int(j) % n
    dims[i], dims[j] = dims[j], dims[i]
    return I.alloc(ViewV(v.buf, v.field, tuple(dims), v.mapping))


@method('squeeze')
def _squeeze(I, r, a):
    v = I.get(r)
    m = {}
    dims = []
    for d in v.dims:
        if dim_size(d) is ONE:
            m.update({x: ZERO for x, s in d})
        else:
            dims.append(d)
    return view_sub(I, r, m, dims)


@method('tofile')
def _tofile(I, r, a):
    x = I.arr(r)
    fz = I.freeze_arr(x)
    f = a.args[0]
    path = I.get(f).path if I.is_ref(f, FileV) else f
    I.emit('tofile', a.node, path=I.freeze(path), arr=x, sep=a.get(None, 'sep'), fileref=f if I.is_ref(f, FileV) else None)
    return None


@method('any', 'all')
def _anyall(I, r, a):
    x = I.arr(r)
    kind = a.name.split('.')[-1]
    return arr_anyall(I, kind, x)


def arr_anyall(I, kind, x):
    body = x.body
    if not is_bool(body):
        body = lift(body, lambda b: not_(cmp_eq0(b)))
    c = mul(body, x.filt) if kind == 'any' else mul(not_(body), x.filt)
    for v, s in reversed(x.axes):
        n = const_value(s)
        if n is not None and n <= 8:
            t = ZERO
            for i in range(int(n)):
                t = or_(t, subst(c, {v: num(i)}))
            c = t
        else:
            c = exists(v, s, c)
    return c if kind == 'any' else not_(c)


# --------------------------------------------------------------- creation

def dtype_name(I, t):
    t = I.unwrap(t) if isinstance(t, T) else t
    if isinstance(t, str):
        return {'float': 'float', 'f4': 'float32', 'f8': 'float', 'i8': 'int64', 'u8': 'uint64', 'd': 'float', 'f': 'float32'}.get(t, t)
    if isinstance(t, T) and t.op == 'ext':
        return t.args[0].split('.')[-1].replace('float64', 'float')
    if isinstance(t, T) and t.op == 'dtype':
        return t.args[0]
    return None


def rec_dtype(I, t):
    """[(label, dtype)] for a structured dtype, None when scalar, False unknown."""
    t = I.unwrap(I.simp(t)) if isinstance(t, T) else t
    if t is None or isinstance(t, str):
        return None
    if isinstance(t, T):
        if t.op == 'ext':
            return None
        if t.op == 'dtype':
            if t.args[0] == 'rec':
                return [(l, d) for l, d in t.args[1]]
            return None
        if t.op == 'ref':
            rec = I.get(t)
            if isinstance(rec, DictV):
                names = rec.items.get('names')
                formats = rec.items.get('formats')
                if names is not None and formats is not None:
                    n = I.flat_lits(iter_segs(I, names[0]))
                    f = formats[0]
                    ff = I.flat_lits(iter_segs(I, f)) if not isinstance(f, str) else None
                    if n is not None:
                        if ff is None:
                            ff = ['?'] * len(n)
                        if len(n) != len(ff):
                            I.raise_('ValueError', ONE, None, 'dtype names and formats differ in number', internal=True)
                        return [(l, dtype_name(I, x)) for l, x in zip(n, ff)]
                return False
            if isinstance(rec, (ListV, GenV)):
                fl = I.flat_lits(iter_segs(I, t))
                if fl is None:
                    return False
                out = []
                for x in fl:
                    if isinstance(x, tuple) and len(x) >= 2 and isinstance(x[0], str):
                        out.append((x[0], dtype_name(I, x[1])))
                    else:
                        return False
                return out
    if isinstance(t, tuple):
        out = []
        for x in t:
            if isinstance(x, tuple) and len(x) >= 2 and isinstance(x[0], str):
                out.append((x[0], dtype_name(I, x[1])))
            else:
                return False
        return out
    return False


@model('numpy.dtype')
def _(I, a):
    t = rec_dtype(I, a.args[0])
    if t is False:
        return mk('dtype', 'unknown', I.freeze(a.args[0]))
    if t is None:
        return mk('dtype', 'float' if a.args[0] is None else dtype_name(I, a.args[0]))
    return mk('dtype', 'rec', tuple(t))


def filled(I, shp, value, dtype):
    s = shape_list(I, shp)
    t = rec_dtype(I, dtype)
    if s is None or t is False:
        return None
    for x in s:
        c = isnone(x)
        if c is not ZERO:
            I.raise_('TypeError', c, None, 'None in array shape', internal=True)
    axs = [new_axis(x, 'i') for x in s]
    if t is None:
        fields = {None: value}
        dt = {None: dtype_name(I, dtype) if dtype is not None else 'float'}
    else:
        fields = {l: value for l, d in t}
        dt = dict(t)
    return ArrVal([(x,) for x in axs], fields, ONE, dt)


@model('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full')
def _(I, a):
    k = a.name.split('.')[-1]
    off = 1 if k == 'full' else 0
    dt = a.get(1 + off, 'dtype')
    val = {'zeros': ZERO, 'ones': ONE}.get(k)
    if k == 'full':
        val = as_num(a.args[1])
    if k == 'empty':
        val = atom(mk('app', 'uninitialised', fresh('e')))

    def go(shp):
        x = filled(I, shp, val, dt)
        if x is None:
            return I.unknown('np.' + k, shp)
        return I.new_arr(x)
    return I.cases(a.get(0, 'shape'), go)


@model('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like')
def _(I, a):
    k = a.name.split('.')[-1]
    val = {'zeros_like': ZERO, 'ones_like': ONE}.get(k)
    if k == 'full_like':
        val = as_num(a.args[1])
    if k == 'empty_like':
        val = atom(mk('app', 'uninitialised', fresh('e')))
    x = as_arr(I, a.args[0])
    if x is None:
        return I.unknown(k, a.args[0])
    dt = a.get(None, 'dtype')
    y = A.freshen(x)
    t = rec_dtype(I, dt) if dt is not None else None
    if t:
        return I.new_arr(ArrVal(y.dims, {l: val for l, d in t}, y.filt, dict(t)))
    return I.new_arr(ArrVal(y.dims, {l: val for l in x.fields}, y.filt, y.dtypes))


@model('numpy.array', 'numpy.asarray', 'numpy.atleast_1d', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def _(I, a):
    dt = a.get(1, 'dtype')

    def go(v):
        if I.is_ref(v, ViewV):
            t = rec_dtype(I, dt) if dt is not None else None
            x = I.arr(v)
            if t and not x.is_rec():
                pass
            if dt is not None and t is None:
                d = dtype_name(I, dt)
                if d in ('int', 'int64', 'uint64', 'int32'):
                    return I.new_arr(ArrVal(x.dims, {l: trunc(b) for l, b in x.fields.items()}, x.filt, {None: d}, x.order))
                if not x.is_rec():
                    return I.new_arr(ArrVal(x.dims, x.fields, x.filt, {None: d}, x.order))
            if a.name.endswith('asarray') and dt is None:
                return v
            return I.new_arr(x)
        t = rec_dtype(I, dt) if dt is not None else None
        if t:
            return rec_array(I, v, t, a)
        if t is False:
            return I.unknown('np.array', v)
        if isinstance(v, T) and (v.op == 'num' or v.op == 'sym' and fact(v, 'kind') not in ('seq', 'list', 'tuple')):
            if a.name.endswith('atleast_1d'):
                return I.new_arr(arr1(ONE, lambda i: as_num(v)))
            return I.new_arr(ArrVal((), {None: as_num(v)}))
        recs = rec_rows(I, v)
        if recs is not None:
            return I.new_arr(recs)
        if I.is_ref(v, ListV):
            fl = I.flat_lits(I.get(v).segs)
            if fl and all(x is None or isinstance(x, T) and x.op == 'nt' for x in fl):
                # an array of objects
                return I.new_list(I.get(v).segs, 'objects')
        n = object_rows(I, v)
        if n:
            return I.new_list(iter_segs(I, v), 'objects%d' % n)
        x = as_arr(I, v)
        if x is None:
            return mk('app', '?nparray', I.freeze(v))
        d = dtype_name(I, dt) if dt is not None else x.dtypes.get(None)
        if d in ('int', 'int64', 'int32', 'uint64') and dt is not None:
            x = ArrVal(x.dims, {l: trunc(b) for l, b in x.fields.items()}, x.filt, x.dtypes, x.order)
        return I.new_arr(ArrVal(x.dims, x.fields, x.filt, {None: d}, x.order))
    return I.cases(a.args[0], go)


def object_rows(I, v):
    """Number of columns of a list of tuples with objects; None if it is not one."""
    if not I.is_ref(v, ListV) or I.get(v).kind not in ('list', 'tuple'):
        return None
    ns = set()

    def walk(segs):
        for s in segs:
            if s[0] == 'lit':
                x = I.unwrap(s[1])
                if isinstance(x, tuple) and any(I.is_ref(y, InstV) for y in x):
                    ns.add(len(x))
                else:
                    ns.add(None)
            elif s[0] in ('each', 'if'):
                walk(s[-1])
            else:
                ns.add(None)
    walk(I.get(v).segs)
    return ns.pop() if len(ns) == 1 else None


def object_columns(I, segs, n):
    """Transposed array of objects."""
    def col(segs, i):
        out = []
        for s in segs:
            if s[0] == 'lit':
                out.append(('lit', I.unwrap(s[1])[i]))
            else:
                out.append(s[:-1] + (col(s[-1], i),))
        return tuple(out)
    return I.new_list(tuple(('lit', I.new_list(col(segs, i))) for i in range(n)), 'objects')


def rec_rows(I, v):
    """List of record scalars -> record array."""
    if not (I.is_ref(v, (ListV,)) or isinstance(v, tuple)):
        return None
    segs = iter_segs(I, v)
    # each of record views
    def first(segs):
        for s in segs:
            if s[0] == 'lit':
                return s[1]
            r = first(s[-1])
            if r is not None:
                return r
        return None
    f = first(segs)
    if not I.is_ref(f, ViewV) or not I.arr(f).is_rec() or I.arr(f).dims:
        return None
    if len(segs) == 1 and segs[0][0] == 'each':
        axs = []
        filt = ONE
        cur = segs[0]
        m = {}
        while True:
            if cur[0] == 'each':
                v2 = new_axis(subst(cur[2], m), 'r')
                m[cur[1]] = atom(v2[0])
                axs.append(v2)
                nxt = cur[3]
            elif cur[0] == 'if':
                filt = mul(filt, subst(cur[1], m))
                nxt = cur[2]
            else:
                x = I.arr(cur[1])
                return ArrVal([tuple(axs)], {l: subst(b, m) for l, b in x.fields.items()}, filt, x.dtypes)
            if len(nxt) != 1:
                return None
            cur = nxt[0]
    flat = I.flat_lits(segs)
    if flat is not None:
        xs = [I.arr(x) for x in flat]
        ax = new_axis(num(len(xs)), 'r')
        return ArrVal([(ax,)], {l: pick(atom(ax[0]), [x.fields[l] for x in xs]) for l in xs[0].fields}, ONE, xs[0].dtypes)
    return None


def rec_array(I, v, t, a):
    """np.array(list of tuples, dtype=structured)."""
    labels = [l for l, d in t]
    if isinstance(v, tuple) and len(v) == len(labels) and all(numeric_like(x) for x in v):
        return I.new_arr(ArrVal((), {l: as_num(x) for l, x in zip(labels, v)}, ONE, dict(t)))
    segs = iter_segs(I, v)
    if segs is None:
        return I.unknown('np.array records', v)
    flat = I.flat_lits(segs)
    if flat is not None:
        if all(isinstance(x, tuple) and len(x) == len(labels) for x in flat):
            ax = new_axis(num(len(flat)), 'r')
            return I.new_arr(ArrVal([(ax,)], {l: pick(atom(ax[0]), [as_num(x[n]) for x in flat]) if flat else ZERO for n, l in enumerate(labels)}, ONE, dict(t)))
        if any(isinstance(x, tuple) and len(x) != len(labels) for x in flat):
            I.raise_('ValueError', ONE, a.node, 'record of wrong length', internal=True)
        return I.unknown('np.array records', v)
    axs = []
    filt = ONE
    if len(segs) != 1:
        return I.unknown('np.array records', v)
    cur = segs[0]
    m = {}
    while True:
        if cur[0] == 'each':
            v2 = new_axis(subst(cur[2], m), 'r')
            m[cur[1]] = atom(v2[0])
            axs.append(v2)
            nxt = cur[3]
        elif cur[0] == 'if':
            filt = mul(filt, subst(cur[1], m))
            nxt = cur[2]
        else:
            x = cur[1]
            if isinstance(x, T) and x.op == 'nt':
                x = x.args[1]
            if I.is_ref(x, ViewV) and I.arr(x).is_rec():
                x = tuple(I.arr(x).fields.values())
            if I.is_ref(x, ListV):
                fl = I.flat_lits(I.get(x).segs)
                x = tuple(fl) if fl is not None else None
            if not isinstance(x, tuple):
                return I.unknown('np.array records', v)
            if len(x) != len(labels):
                I.raise_('ValueError', ONE, a.node, 'record of wrong length', internal=True)
            return I.new_arr(ArrVal([tuple(axs)], {l: subst(as_num(y), m) for l, y in zip(labels, x)}, filt, dict(t)))
        if len(nxt) != 1:
            return I.unknown('np.array records', v)
        cur = nxt[0]


@model('numpy.arange')
def _(I, a):
    args = [as_num(I.unwrap(x)) for x in a.args]
    for x in args:
        c = isnone(x)
        if c is not ZERO:
            I.raise_('TypeError', c, a.node, 'None in np.arange', internal=True)
    if len(args) == 1:
        lo, hi, st = ZERO, args[0], ONE
    else:
        lo, hi = args[0], args[1]
        st = args[2] if len(args) > 2 else ONE
    n = minmax('max', ZERO, ceil(div(sub(hi, lo), st)))
    x = arr1(n, lambda i: add(lo, mul(st, i)))
    dt = a.get(3, 'dtype')
    if dt is not None:
        d = dtype_name(I, dt)
        x = ArrVal(x.dims, {None: trunc(x.body)} if d in ('int', 'int64', 'uint64', 'int32') else x.fields, x.filt, {None: d}, x.order)
    return I.new_arr(x)


@model('numpy.linspace')
def _(I, a):
    lo, hi = as_num(a.args[0]), as_num(a.args[1])
    n = as_num(a.get(2, 'num', num(50)))
    ep = a.get(3, 'endpoint', ONE)
    d = sub(n, ONE) if ep is ONE else n
    step = exact_div(sub(hi, lo), d)        # a single point has i = 0
    if step is None:
        step = div(sub(hi, lo), d)
    return I.new_arr(arr1(n, lambda i: add(lo, mul(step, i))))


@model('numpy.meshgrid')
def _(I, a):
    arrs = [as_arr(I, x) for x in a.args]
    if len(arrs) != 2 or any(x is None or len(x.dims) != 1 for x in arrs):
        return I.unknown('meshgrid')
    ind = a.get(None, 'indexing', 'xy')
    x, y = [A.freshen(q) for q in arrs]
    filt = mul(x.filt, y.filt)
    dims = [y.dims[0], x.dims[0]] if ind == 'xy' else [x.dims[0], y.dims[0]]
    return I.list_of([I.new_arr(ArrVal(dims, {None: x.body}, filt, dict(x.dtypes))), I.new_arr(ArrVal(dims, {None: y.body}, filt, dict(y.dtypes)))])


# --------------------------------------------------------------- reductions

def _axis(a, pos=1):
    ax = a.get(pos, 'axis')
    if ax is None:
        return None, True
    c = const_value(as_num(ax)) if numeric_like(ax) else None
    return (int(c) if c is not None else None), c is not None


def sel_check(I, a, v):
    x = as_arr(I, v)
    return x


def several_axes(a):
    v = a.get(1, 'axis', None)
    if isinstance(v, tuple):
        cs = [const_value(as_num(q)) if isinstance(q, (T, int)) else None for q in v]
        if all(q is not None for q in cs):
            return [int(q) for q in cs]
    return None


def reduction(name):
    def deco(f):
        def h(I, a):
            ax, ok = _axis(a)
            many = several_axes(a)

            def go(v, ax=ax, ok=ok):
                x = as_arr(I, v)
                if x is not None and many is not None and all(-len(x.dims) <= q < len(x.dims) for q in many):
                    # reduce over the product of the axes
                    sel = sorted({q % len(x.dims) for q in many})
                    ok = True
                    if len(sel) == len(x.dims):
                        ax = None
                    else:
                        merged = tuple(t for q in sel for t in x.dims[q])
                        dims = [merged if q == sel[0] else d for q, d in enumerate(x.dims) if q == sel[0] or q not in sel]
                        x = ArrVal(dims, x.fields, x.filt, x.dtypes)
                        ax = sel[0]
                if x is None or not ok:
                    fz = I.freeze(v)
                    return atom(mk('app', '?np.' + name, fz))
                if x.is_rec():
                    I.raise_('TypeError', ONE, a.node, 'reduction of a record array', internal=True)
                if not x.dims and ax is None:
                    x = ArrVal((), x.fields)
                if ax is not None and not (-len(x.dims) <= ax < len(x.dims)):
                    I.raise_('AxisError', ONE, a.node, 'axis out of bounds', internal=True)
                r = f(I, x, ax, a)
                if isinstance(r, ArrVal):
                    return wrap(I, r)
                return r
            return I.cases(a.args[0], go)
        EXT['numpy.' + name] = h
        return h
    return deco


@reduction('sum')
def _sum(I, x, ax, a):
    return A.reduce_sum(x, ax)


@reduction('nansum')
def _nansum(I, x, ax, a):
    return A.reduce_sum(ArrVal(x.dims, {None: nan_to_num(x.body)}, x.filt), ax)


@reduction('mean')
def _mean(I, x, ax, a):
    if ax is None:
        return div(A.reduce_sum(x), A.total_size(x))
    s = A.reduce_sum(x, ax)
    n = count_along(x, ax)
    s.fields = {None: div(s.body, n)}
    return s


def count_along(x, ax):
    d = x.dims[ax]
    if x.filt is ONE or not any(v in syms(x.filt) for v, s in d):
        return dim_size(d)
    return rsum(tuple(v for v, s in d), tuple(s for v, s in d), x.filt)


@reduction('min')
def _min(I, x, ax, a):
    return A.reduce_minmax('min', x, ax)


@reduction('max')
def _max(I, x, ax, a):
    return A.reduce_minmax('max', x, ax)


EXT['numpy.amin'] = EXT['numpy.min']
EXT['numpy.amax'] = EXT['numpy.max']


@reduction('std')
def _std(I, x, ax, a):
    ddof = a.get(None, 'ddof', ZERO)
    if ax is not None:
        d = x.dims[ax]
        n = count_along(x, ax)
        vs, ss = tuple(v for v, s in d), tuple(s for v, s in d)
        m1 = div(rsum(vs, ss, mul(x.body, x.filt)), n)
        m2 = div(rsum(vs, ss, mul(power(x.body, 2), x.filt)), n)
        rest = [y for k, y in enumerate(x.dims) if k != ax % len(x.dims)]
        return ArrVal(rest, {None: std_of(sub(m2, power(m1, 2)), n, ddof)})
    n = A.total_size(x)
    m1 = div(A.reduce_sum(x), n)
    m2 = div(A.reduce_sum(ArrVal(x.dims, {None: power(x.body, 2)}, x.filt)), n)
    return std_of(sub(m2, power(m1, 2)), n, ddof)


def std_of(var, n, ddof):
    if ddof is not ZERO:
        var = div(mul(var, n), sub(n, as_num(ddof)))
    return atom(mk('app', 'sqrt', var)) if const_value(var) is None else sqrt(var)


@reduction('var')
def _var(I, x, ax, a):
    n = A.total_size(x)
    m1 = div(A.reduce_sum(x), n)
    m2 = div(A.reduce_sum(ArrVal(x.dims, {None: power(x.body, 2)}, x.filt)), n)
    return sub(m2, power(m1, 2))


@reduction('argmin')
def _argmin(I, x, ax, a):
    if ax is not None:
        return I.unknown('argmin axis')
    return A._canon_reduce('argmin', x.axes, x.body, x.filt) if x.axes else ZERO


@reduction('argmax')
def _argmax(I, x, ax, a):
    if ax is not None:
        return I.unknown('argmax axis')
    return A._canon_reduce('argmin', x.axes, neg(x.body), x.filt) if x.axes else ZERO


@reduction('median')
def _median(I, x, ax, a):
    return atom(mk('app', 'median', I.freeze_arr(x)))


@reduction('prod')
def _prod(I, x, ax, a):
    n = const_value(A.total_size(x))
    if n is not None and ax is None and x.filt is ONE and len(x.axes) == 1 and n <= 10:
        r = ONE
        for i in range(int(n)):
            r = mul(r, subst(x.body, {x.axes[0][0]: num(i)}))
        return r
    return atom(mk('app', 'npprod', I.freeze_arr(x)))


@reduction('cumsum')
def _cumsum(I, x, ax, a):
    if len(x.axes) == 1 and x.filt is ONE:
        v, s = x.axes[0]
        b = fresh('b', int=True, nonneg=True, kind='num')
        return ArrVal(x.dims, {None: rsum((b,), (add(atom(v), ONE),), subst(x.body, {v: atom(b)}))})
    return ArrVal(x.dims, {None: atom(mk('app', '?cumsum', I.freeze_arr(x), *[atom(v) for v in x.vars()]))})


@model('numpy.average')
def _(I, a):
    x = as_arr(I, a.args[0])
    ax, ok = _axis(a)
    w = a.get(2, 'weights')
    if x is None or not ok:
        return I.unknown('np.average', *a.args)

    def go(w):
        if w is None:
            return wrap(I, _r(_avg(x, None, ax)))
        wa = as_arr(I, w)
        if wa is None:
            return I.unknown('np.average', *a.args)
        try:
            if ax is not None and len(wa.dims) == 1 and len(x.dims) > 1:
                lead = ArrVal([x.dims[ax]], {None: ONE})
                d, f, al, o = A.broadcast(lead, wa)
                wa2 = ArrVal(x.dims, {None: al[1].fields[None]}, x.filt)
                b, wb = x.body, wa2.body
                dims, filt = x.dims, x.filt
            else:
                dims, filt, al, o = A.broadcast(x, wa)
                b, wb = al[0].fields[None], al[1].fields[None]
        except Misaligned as err:
            misaligned(I, err, a.node)
            return I.unknown('np.average misaligned')
        num_ = A.reduce_sum(ArrVal(dims, {None: mul(b, wb)}, filt), ax)
        den = A.reduce_sum(ArrVal(dims, {None: wb}, filt), ax)
        if ax is None:
            z = cmp_eq0(den)
            if I.try_names and any(n in ('ZeroDivisionError', 'Exception', '*', 'ArithmeticError') for ns in I.try_names for n in ns):
                I.raise_('ZeroDivisionError', z, a.node)
            elif z is not ZERO:
                I.emit('zerodiv', a.node, cond=z)
            return div(num_, den)
        return wrap(I, ArrVal(num_.dims, {None: div(num_.body, den.body)}, num_.filt))

    def _r(v):
        return v if isinstance(v, ArrVal) else ArrVal((), {None: v})

    def _avg(x, w, ax):
        return _mean(I, x, ax, a) if False else mean_of(I, x, ax)
    return I.cases(w, go)


def mean_of(I, x, ax):
    if ax is None:
        return div(A.reduce_sum(x), A.total_size(x))
    s = A.reduce_sum(x, ax)
    s.fields = {None: div(s.body, count_along(x, ax))}
    return s


@model('numpy.size')
def _(I, a):
    x = as_arr(I, a.args[0])
    return A.total_size(x) if x is not None else I.unknown('np.size', a.args[0])


@model('numpy.shape')
def _(I, a):
    x = as_arr(I, a.args[0])
    return tuple(dim_size(d) for d in x.dims) if x is not None else I.unknown('np.shape', a.args[0])


@model('numpy.ndim')
def _(I, a):
    x = as_arr(I, a.args[0])
    return num(len(x.dims)) if x is not None else I.unknown('np.ndim', a.args[0])


@model('numpy.any', 'numpy.all')
def _(I, a):
    x = as_arr(I, a.args[0])
    kind = a.name.split('.')[-1]
    if x is None:
        return pred('?' + kind, I.freeze(a.args[0]))
    ax, ok = _axis(a)
    if ax is not None:
        d = x.dims[ax]
        body = x.body
        c = body if kind == 'any' else not_(body)
        for v, s in d:
            c = exists(v, s, c)
        rest = [y for k, y in enumerate(x.dims) if k != ax % len(x.dims)]
        return wrap(I, ArrVal(rest, {None: c if kind == 'any' else not_(c)}))
    return arr_anyall(I, kind, x)


@model('numpy.count_nonzero')
def _(I, a):
    x = as_arr(I, a.args[0])
    if x is None:
        return I.unknown('count_nonzero', a.args[0])
    b = x.body if is_bool(x.body) else lift(x.body, lambda b: not_(cmp_eq0(b)))
    return A.reduce_sum(ArrVal(x.dims, {None: b}, x.filt))


def known_values(x):
    """The numbers in a small array, where all of them are known."""
    if x.filt is not ONE or x.is_rec():
        return None
    sizes = [const_value(s) for _, s in x.axes]
    if any(s is None or s > 24 for s in sizes):
        return None
    out = []
    for idx in itertools.product(*[range(int(s)) for s in sizes]):
        c = const_value(as_num(subst(x.body, {v: num(i) for (v, _), i in zip(x.axes, idx)})))
        if c is None:
            return None
        out.append(c)
        if len(out) > 100:
            return None
    return out


def arr_of_numbers(values):
    ax = new_axis(num(len(values)), 'i')
    b = num(values[-1]) if values else ZERO
    for n, c in enumerate(values[:-1]):
        b = ite(eq_num(atom(ax[0]), num(n)), num(c), b)
    return ArrVal([(ax,)], {None: b})


@model('numpy.unique')
def _(I, a):
    def go(v):
        x = as_arr(I, v)
        if x is None:
            return atom_arr(I, 'unique', v)
        n = A.monotone_axis(x)
        if n is not None and x.filt is ONE:
            v0, s = x.axes[n]
            ax = new_axis(s, 'i')
            return I.new_arr(ArrVal([(ax,)], {None: subst(x.body, {v0: atom(ax[0])})}))
        if not any(q in syms(x.body) for q in x.vars()) and x.filt is ONE:
            return I.new_arr(ArrVal([(new_axis(ONE, 'u'),)], {None: x.body}))
        known = known_values(x)
        if known is not None:
            return I.new_arr(arr_of_numbers(sorted(set(known))))
        fz = I.freeze_arr(canon_arr(x))
        size = atom(mk('app', 'nunique', fz))
        return I.new_arr(arr1(size, lambda i: atom(mk('app', 'unique', fz, i))))
    if a.get(None, 'return_index') is not None or a.get(None, 'return_inverse') is not None or a.get(None, 'return_counts') is not None:
        return I.unknown('unique with extras', a.args[0])
    return I.cases(a.args[0], go)


def canon_arr(x):
    """Array with canonically named axis variables (order insensitive)."""
    m = {}
    dims = []
    depth = max([_depth(b) for b in x.fields.values()] + [_depth(x.filt), 0])
    n = depth
    for d in x.dims:
        nd = []
        for v, s in d:
            n += 1
            b = sym('#%d' % n, int=True, nonneg=True, kind='num')
            m[v] = atom(b)
            nd.append((b, s))
        dims.append(tuple(nd))
    return ArrVal(dims, {l: subst(b, m) for l, b in x.fields.items()}, subst(x.filt, m), x.dtypes, x.order)


def atom_arr(I, name, *vals):
    fz = tuple(I.freeze(v) for v in vals)
    size = atom(mk('app', 'n' + name, *fz))
    return I.new_arr(arr1(size, lambda i: atom(mk('app', '?' + name, *(fz + (i,))))))


@model('numpy.diff')
def _(I, a):
    def go(v):
        x = as_arr(I, v)
        if x is None or len(x.dims) != 1 or x.filt is not ONE:
            if x is not None and len(x.dims) > 1 and x.filt is ONE:
                ax, ok = _axis(a, 2)
                ax = len(x.dims) - 1 if ax is None else ax % len(x.dims)
                d = x.dims[ax]
                if len(d) == 1:
                    v0, s = d[0]
                    nx = new_axis(sub(s, ONE), 'i')
                    b = sub(subst(x.body, {v0: add(atom(nx[0]), ONE)}), subst(x.body, {v0: atom(nx[0])}))
                    return I.new_arr(ArrVal([y if k != ax else (nx,) for k, y in enumerate(x.dims)], {None: b}))
            if x is not None and len(x.dims) == 1:
                n = sub(A.total_size(x), ONE)
                return I.new_arr(arr1(n, lambda i: sub(selected_body(x, x.body, add(i, ONE)), selected_body(x, x.body, i))))
            return atom_arr(I, 'diff', v)
        d = x.dims[0]
        n = sub(dim_size(d), ONE)

        def at(i):
            return subst(x.body, A.decode_index(d, i))
        return I.new_arr(arr1(n, lambda i: sub(at(add(i, ONE)), at(i))))
    return I.cases(a.args[0], go)


@model('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero')
def _(I, a):
    if len(a.args) == 3:
        return ew(I, lambda c, x, y: ite(c if is_bool(c) else not_(cmp_eq0(c)), x, y), *a.args)

    def go(c):
        x = as_arr(I, c)
        if x is None:
            return (I.unknown('where', c),)
        b = x.body if is_bool(x.body) else lift(x.body, lambda b: not_(cmp_eq0(b)))
        if a.name.endswith('flatnonzero'):
            d = ravel_dims(x.dims)
            return I.new_arr(ArrVal(d, {None: A.linear_index(d[0])}, mul(x.filt, b)))
        if x.filt is not ONE:
            if len(x.dims) != 1 or x.order is not None:
                return (I.unknown('where of selection', c),)
            # position among the selected elements
            return (I.new_arr(reduced(ArrVal(x.dims, {None: rank_of(x)}, mul(x.filt, b)))),)
        if len(x.dims) == 1:
            return (I.new_arr(reduced(ArrVal(x.dims, {None: A.linear_index(x.dims[0])}, b))),)
        comp = ravel_dims(x.dims)
        return tuple(I.new_arr(ArrVal(comp, {None: A.linear_index(d)}, b)) for d in x.dims)
    return I.cases(a.args[0], go)


# ------------------------------------------------------------- elementwise

def unary_fn(name, f):
    if name in ('floor', 'ceil', 'trunc', 'fix'):
        return cutting_fn(name, f)

    def h(I, a):
        r = I.cases(a.args[0], lambda v: ew1(I, f, v, a))
        return as_bool(I, r) if name in BOOL_FNS else r
    EXT['numpy.' + name] = h


def cutting_fn(name, f):
    def h(I, a):
        def g(x):
            exact(I, a.node, x)
            return f(x)
        return I.cases(a.args[0], lambda v: ew1(I, g, v, a))
    EXT['numpy.' + name] = h


def ew1(I, f, v, a):
    if v is None or isinstance(v, T) and isnone(v) is not ZERO:
        c = ONE if v is None else isnone(v)
        I.raise_('TypeError', c, a.node, 'None passed to %s' % a.name, internal=True)
    return ew(I, f, v)


def fapp(name):
    return lambda x: lift(x, lambda y: _fconst(name, y))


def _fconst(name, y):
    if y is ZERO and name in ('sin', 'tan', 'arctan', 'arcsin', 'sinh'):
        return ZERO
    if y is ZERO and name in ('cos', 'exp', 'cosh'):
        return ONE
    if name in ('arctan', 'sin', 'tan', 'arcsin'):
        q, s = _canon(y)
        r = atom(mk('app', name, q))
        return r if s > 0 else neg(r)
    if name == 'cos':
        q, s = _canon(y)
        return atom(mk('app', name, q))
    return atom(mk('app', name, y))


def _canon(y):
    from .terms import _canon_sign
    return _canon_sign(y)


BOOL_FNS = ('greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
            'logical_not', 'isnan', 'isfinite', 'isinf')
for _n, _f in (('abs', absval), ('absolute', absval), ('fabs', absval), ('sqrt', sqrt), ('floor', floor), ('ceil', ceil),
               ('sign', sign), ('nan_to_num', nan_to_num), ('trunc', trunc), ('fix', trunc), ('rint', round_),
               ('square', lambda x: power(x, 2)), ('negative', neg), ('logical_not', not_),
               ('degrees', lambda x: div(scale(x, 180), PI)), ('rad2deg', lambda x: div(scale(x, 180), PI)),
               ('radians', lambda x: scale(mul(x, PI), Fraction(1, 180))), ('deg2rad', lambda x: scale(mul(x, PI), Fraction(1, 180))),
               ('isnan', lambda x: lift(x, lambda y: isnan_of(y))),
               ('isfinite', lambda x: not_(lift(x, lambda y: isnan_of(y)))),
               ('isinf', lambda x: lift(x, lambda y: ONE if y is INF or y is neg(INF) else (ZERO if const_value(y) is not None else pred('isinf', y))))):
    unary_fn(_n, _f)
for _n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'exp', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh'):
    unary_fn(_n, fapp(_n))
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log10'):
    EXT['math.' + _n] = EXT['numpy.' + _n.replace('asin', 'arcsin').replace('acos', 'arccos').replace('atan', 'arctan')]
EXT['math.degrees'] = EXT['numpy.degrees']
EXT['math.radians'] = EXT['numpy.radians']
EXT['math.isnan'] = EXT['numpy.isnan']


def isnan_of(y):
    if const_value(y) is not None:
        return ZERO
    if y is NAN:
        return ONE
    c = ZERO
    for m, k in y.args[0]:
        for t, e in m:
            if e < 0:
                d = t.args[0] if t.op == 'poly' else atom(t)
                c = or_(c, cmp_eq0(d))
    u = [t for t in subterms(y) if t.op == 'sym' and fact(t, 'maybenan')]
    for t in u:
        c = or_(c, pred('isnan', t))
    return c


def binary_fn(name, f):
    def h(I, a):
        return I.cases(a.args[0], lambda x: I.cases(a.args[1], lambda y: ew(I, f, x, y)))
    if name in BOOL_FNS:
        g = h

        def h(I, a):
            return as_bool(I, g(I, a))
    EXT['numpy.' + name] = h


for _n, _f in (('add', add), ('subtract', sub), ('multiply', mul), ('divide', lambda x, y: _adiv(x, y)), ('true_divide', lambda x, y: _adiv(x, y)), ('power', power),
               ('mod', mod_num), ('remainder', mod_num), ('minimum', lambda x, y: minmax('min', x, y)),
               ('maximum', lambda x, y: minmax('max', x, y)), ('greater', lambda x, y: lt(y, x)), ('less', lt),
               ('greater_equal', lambda x, y: le(y, x)), ('less_equal', le), ('equal', eq_num),
               ('not_equal', lambda x, y: not_(eq_num(x, y))), ('logical_and', lambda x, y: mul(x, y)),
               ('logical_or', or_), ('floor_divide', lambda x, y: floor(div(x, y))),
               ('hypot', lambda x, y: sqrt(add(power(x, 2), power(y, 2)))),
               ('arctan2', lambda y, x: lift2(y, x, lambda p, q: atan2(p, q)))):
    binary_fn(_n, _f)
EXT['math.atan2'] = EXT['numpy.arctan2']
EXT['math.hypot'] = EXT['numpy.hypot']
EXT['math.pow'] = EXT['numpy.power']


def atan2(y, x):
    """Scale-free normal form: a common positive factor is divided out."""
    def common(p, q):
        c = None
        for t in (p, q):
            for m, k in t.args[0]:
                dm = {a: e for a, e in m if atom_sign(a) == {'+'}}
                if c is None:
                    c = dict(dm)
                else:
                    for a in list(c):
                        if a in dm and (dm[a] > 0) == (c[a] > 0):
                            c[a] = min(c[a], dm[a]) if c[a] > 0 else max(c[a], dm[a])
                        else:
                            del c[a]
        return c or {}
    c = common(y, x)
    if c:
        from .terms import _num
        f = _num({tuple(sorted(((a, -e) for a, e in c.items()), key=lambda ae: ae[0].id)): Fraction(1)})
        y, x = mul(y, f), mul(x, f)
    lead = x if x.args[0] else y
    if lead.args[0]:
        k = abs(lead.args[0][0][1])
        y, x = scale(y, 1 / k), scale(x, 1 / k)
    return atom(mk('app', 'arctan2', y, x))


@model('numpy.isclose')
def _(I, a):
    rt = a.get(2, 'rtol')
    at = a.get(3, 'atol')

    def f(x, y):
        return close(x, y, rt, at)
    return as_bool(I, I.cases(a.args[0], lambda x: I.cases(a.args[1], lambda y: ew(I, f, x, y))))


def close(x, y, rt, at):
    d = sub(x, y)
    if d is ZERO:
        return ONE
    ls = literals(d)
    if ls and len(ls) <= 6:
        l = ls[0]
        return ite(atom(l), *[close(restrict(x, l, v), restrict(y, l, v), rt, at) for v in (1, 0)])
    if const_value(x) is not None and const_value(y) is not None:
        r, t = [Fraction(v) if k is None else const_value(as_num(k))
                for k, v in ((rt, '1e-5'), (at, '1e-8'))]
        if r is not None and t is not None:
            return num(int(abs(const_value(d)) <= t + r * abs(const_value(y))))

    def one(q):
        if q is ZERO:
            return ONE
        from .terms import _canon_sign
        q, s = _canon_sign(q)
        return atom(mk('pred', 'close', q))
    return lift(d, one)


@model('numpy.allclose', 'numpy.array_equal')
def _(I, a):
    x, y = as_arr(I, a.args[0]), as_arr(I, a.args[1])
    if x is None or y is None:
        return pred('?allclose', I.freeze(a.args[0]), I.freeze(a.args[1]))
    try:
        f = (lambda p, q: close(p, q, None, None)) if a.name.endswith('allclose') else eq_num
        r = A.elementwise(f, x, y)
    except Misaligned as err:
        if a.name.endswith('allclose'):
            misaligned(I, err, a.node)
        return ZERO
    return arr_anyall(I, 'all', r)


@model('numpy.round', 'numpy.around', 'numpy.round_')
def _(I, a):
    dec = a.get(1, 'decimals', ZERO)
    f = round_ if dec is ZERO else (lambda x: roundn(x, as_num(dec)))
    return I.cases(a.args[0], lambda v: ew(I, f, v))


METHODS['round'] = lambda I, r, a: EXT['numpy.round'](I, Args(I, [('lit', r)] + list(a.segs), a.kwd, a.node, 'numpy.round'))


@model('numpy.clip')
def _(I, a):
    lo, hi = a.get(1, 'a_min'), a.get(2, 'a_max')

    def f(x, *b):
        r = x
        if lo is not None:
            r = minmax('max', r, as_num(lo))
        if hi is not None:
            r = minmax('min', r, as_num(hi))
        return r
    return ew(I, f, a.args[0])


@model('numpy.append', 'numpy.concatenate', 'numpy.hstack')
def _(I, a):
    if a.name.endswith('append'):
        parts = [a.args[0], a.args[1]]
    else:
        fl = I.flat_lits(iter_segs(I, a.args[0]))
        if fl is None:
            return I.unknown('concatenate', a.args[0])
        parts = fl
    arrs = [as_arr(I, p) for p in parts]
    if any(x is None or len(x.dims) > 1 for x in arrs):
        return I.unknown('append', *parts)
    if any(x.is_rec() or x.filt is not ONE for x in arrs):
        r = concat_selections(arrs)
        return I.unknown('append', *parts) if r is None else I.new_arr(r)
    arrs = [x if x.dims else ArrVal([(new_axis(ONE, 'u'),)], x.fields) for x in arrs]
    r = concat(arrs)
    if r is None:
        return I.unknown('append', *parts)
    return I.new_arr(r)


@model('numpy.intersect1d')
def _(I, a):
    one = lambda v: v[0] if isinstance(v, tuple) and len(v) == 1 else v
    x, y = as_arr(I, one(a.args[0])), as_arr(I, one(a.args[1]))
    if x is None or y is None:
        return I.unknown('intersect1d', *a.args)
    # two selections of the same index range
    if is_identity_index(x) and is_identity_index(y) and len(x.dims) == 1 and len(y.dims) == 1:
        try:
            dims, f, al, o = A.broadcast(ArrVal(x.dims, {None: x.filt}), ArrVal(y.dims, {None: y.filt}))
            return I.new_arr(ArrVal(dims, {None: A.linear_index(dims[0])}, mul(al[0].fields[None], al[1].fields[None])))
        except Misaligned as err:
            misaligned(I, err, a.node)
    return atom_arr(I, 'intersect1d', *a.args)


@model('numpy.gradient')
def _(I, a):
    if a.args is None:
        return I.unknown('gradient')
    x = as_arr(I, a.args[0])
    if x is None or x.filt is not ONE:
        return I.unknown('gradient', a.args[0])
    sp = list(a.args[1:])
    ax = a.get(None, 'axis')
    order = a.get(None, 'edge_order')
    order = 1 if order is None else const_value(order) if isinstance(order, T) else None
    if order is None:
        return I.unknown('gradient', *a.args)
    nd = len(x.dims)
    axes = range(nd)
    if ax is not None:
        axes = [int(const_value(y)) % nd for y in (shape_list(I, ax) or [])]
    if len(sp) == 0:
        sp = [ONE] * len(axes)
    elif len(sp) == 1:
        sp = sp * len(axes)
    if len(sp) != len(axes):
        I.raise_('TypeError', ONE, a.node, 'invalid number of arguments for np.gradient', internal=True)
    outs = []
    for n, h in zip(axes, sp):
        d = x.dims[n]
        if len(d) != 1:
            return I.unknown('gradient of composite axis', a.args[0])
        if I.is_ref(h, ViewV) or isinstance(h, tuple):
            return I.unknown('gradient with coordinates', a.args[0])
        v, s = d[0]
        outs.append(I.new_arr(ArrVal(x.dims, {None: div(grad(x.body, v, s, order), as_num(h))}, ONE, {}, x.order)))
    if len(outs) == 1:
        return outs[0]
    return I.list_of(outs)


def grad(body, v, s, order=1):
    """Linear operator: index gradient of body along v."""
    out = []
    for m, c in body.args[0]:
        inner, outer = [], []
        for t, e in m:
            (inner if v in syms(t) else outer).append((t, e))
        if not inner:
            continue
        from .terms import _num
        p = _num({tuple(inner): Fraction(1)})
        if p is atom(v):
            g = ONE
        else:
            b, q = canon_bind(v, p)
            g = atom(mk('app', 'grad', b, s, q, atom(v), *([] if order == 1 else [num(order)])))
        out.append(mul(_num({tuple(outer): c}), g))
    return add(*out) if out else ZERO


@model('numpy.histogram2d', 'numpy.histogram', 'numpy.interp', 'numpy.polyfit', 'numpy.polyval')
def _(I, a):
    return opaque_call(I, a.name, a)


@model('numpy.broadcast')
def _(I, a):
    arrs = [as_arr(I, x) for x in a.args]
    if any(x is None for x in arrs):
        return I.unknown('broadcast')
    try:
        dims, f, al, o = A.broadcast(*arrs)
    except Misaligned as err:
        misaligned(I, err, a.node)
        return I.unknown('broadcast')
    v = [tuple(x for x in d) for d in dims]
    out = []
    segs = [('lit', tuple(x.fields[None] for x in al))]
    ks = [y for d in dims for y in d]
    m = {}
    kk = []
    for (y, s) in ks:
        k2 = new_axis(s, 'k')
        kk.append(k2)
        m[y] = atom(k2[0])
    seg = ('lit', tuple(subst(x.fields[None], m) for x in al))
    for k2 in reversed(kk):
        seg = ('each', k2[0], k2[1], (seg,))
    return I.alloc(GenV((seg,), ZERO))


@model('numpy.column_stack', 'numpy.vstack', 'numpy.stack')
def _(I, a):
    fl = I.flat_lits(iter_segs(I, a.args[0]))
    if fl is None:
        return I.unknown('stack', a.args[0])
    x = segs_arr(I, tuple(('lit', y) for y in fl))
    if x is None:
        return I.unknown('stack', a.args[0])
    if a.name.endswith('column_stack'):
        x = ArrVal(list(x.dims[1:]) + [x.dims[0]], x.fields, x.filt)
    return I.new_arr(x)


@model('numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.swapaxes', 'numpy.copy', 'numpy.squeeze')
def _(I, a):
    n = a.name.split('.')[-1]

    def go(v):
        if not I.is_ref(v, ViewV):
            x = as_arr(I, v)
            if x is None:
                return I.unknown('np.' + n, v)
            v = I.new_arr(x)
        return METHODS[n](I, v, Args(I, a.segs[1:], a.kwd, a.node, n))
    return I.cases(a.args[0], go)


@model('numpy.array_split', 'numpy.split')
def _(I, a):
    return opaque_call(I, a.name, a)


@model('numpy.fromfile')
def _(I, a):
    f = a.args[0]
    path = I.get(f).path if I.is_ref(f, FileV) else f
    dt = a.get(1, 'dtype')
    cnt = a.get(2, 'count')
    sep = a.get(3, 'sep')
    I.file_seq += 1
    ct = I.contents.get(path) if isinstance(path, T) else None
    if ct is not None and (I.is_ref(f, FileV) or not ct.reads):
        rec = I.get(f) if I.is_ref(f, FileV) else None
        n = rec.nblock if rec is not None else 0
        I.emit('block', a.node, path=path, at=rec.pos if rec is not None else ZERO, n=n, dtype=dtype_name(I, dt) if dt is not None else 'float64',
               count=I.freeze(cnt) if cnt is not None else -1)
        if n < len(ct.blocks):
            if rec is not None:
                w = rec.copy()
                w.nblock += 1
                I.put(f, w)
            return I.new_arr(ct.blocks[n])
    t = rec_dtype(I, dt) if dt is not None else None
    size = as_num(cnt) if cnt is not None and const_value(as_num(cnt)) != -1 else atom(mk('app', 'filesize', I.freeze(path), I.file_seq))
    I.emit('fromfile', a.node, path=I.freeze(path), dtype=tuple(t) if t else dtype_name(I, dt) if dt is not None else None,
           count=I.freeze(cnt) if cnt is not None else None, seqno=I.file_seq, fileref=f, fields=t if t else None, sep=sep)
    ax = new_axis(size, 'i')
    tag = I.freeze(path)
    seqn = I.file_seq
    if t:
        return I.new_arr(ArrVal([(ax,)], {l: atom(mk('app', 'filevalue', tag, seqn, l, atom(ax[0]))) for l, d in t}, ONE, dict(t)))
    return I.new_arr(ArrVal([(ax,)], {None: atom(mk('app', 'filevalue', tag, seqn, dtype_name(I, dt) if dt is not None else None, atom(ax[0])))}, ONE,
                            {None: dtype_name(I, dt) if dt is not None else None}))


@model('numpy.savetxt')
def _(I, a):
    f = a.args[0]
    path = I.get(f).path if I.is_ref(f, FileV) else f
    v = a.args[1]
    x = as_arr(I, v)
    if x is None:
        recs = rec_rows(I, v)
        x = recs
    if not I.is_ref(f, FileV):
        oscatch(I, 'open', I.freeze(path), a.node)
    I.emit('savetxt', a.node, path=I.freeze(path), arr=x, value=I.freeze(v), kwargs={k: I.freeze(q) for k, q in a.kw.items()}, fileref=f if I.is_ref(f, FileV) else None)
    return None


@model('numpy.loadtxt', 'numpy.genfromtxt')
def _(I, a):
    f = a.args[0]
    path = I.get(f).path if I.is_ref(f, FileV) else f
    I.file_seq += 1
    kw = {k: I.freeze(q) for k, q in a.kw.items()}
    I.emit('loadtxt', a.node, path=I.freeze(path), kwargs=kw, seqno=I.file_seq)
    ct = I.contents.get(path) if isinstance(path, T) else None
    if ct is not None and ct.table is not None and set(kw) <= {'names', 'dtype'} and a.get(None, 'names') is ONE and kw.get('dtype') is None and len(a.args) == 1:
        return I.new_arr(ct.table)
    if ct is not None and ct.head is not None and ct.blocks:
        I.raise_('ValueError', ONE, a.node)     # values, not text
        return None
    oscatch(I, 'open', I.freeze(path), a.node)
    if I.try_names and any('ValueError' in n or 'Exception' in n for n in I.try_names):
        I.raise_('ValueError', pred('badtext', I.freeze(path)), a.node)
    names = a.get(None, 'names')
    dt = a.get(None, 'dtype')
    labels = None
    t = rec_dtype(I, dt) if dt is not None and not isinstance(dt, str) else None
    if t:
        labels = [l for l, d in t]
    if names is not None and not labels:
        if isinstance(names, str):
            labels = [s.strip() for s in names.split(',')]
        elif I.is_ref(names) or isinstance(names, tuple):
            labels = I.flat_lits(iter_segs(I, names))
    tag = I.freeze(path)
    n = atom(mk('app', 'nrows', tag))
    usecols = a.get(None, 'usecols')
    uc = I.freeze(usecols) if usecols is not None else None
    unpack = a.get(None, 'unpack', ZERO)
    if labels and all(isinstance(l, str) for l in labels):
        ax = new_axis(n, 'i')
        return I.new_arr(ArrVal([(ax,)], {l: atom(mk('app', 'column', tag, l, uc, atom(ax[0]))) for l in labels}, ONE))
    ax = new_axis(n, 'i')
    ncol = atom(mk('app', 'ncols', tag))
    if uc is not None:
        sl = shape_list(I, usecols)
        if sl is not None:
            ncol = num(len(sl))
    ay = new_axis(ncol, 'c')
    body = atom(mk('app', 'column', tag, 'col', uc, atom(ay[0]), atom(ax[0])))
    dims = [(ay,), (ax,)] if unpack is ONE else [(ax,), (ay,)]
    return I.new_arr(ArrVal(dims, {None: body}))


@model('numpy.lib.recfunctions.append_fields')
def _(I, a):
    x = as_arr(I, a.args[0])
    names, data = a.get(1, 'names'), a.get(2, 'data')
    if isinstance(names, str):
        names, data = [names], [data]
    else:
        names, data = _literal_list(I, names), _literal_list(I, data)
    if x is None or not x.is_rec() or not names or data is None or len(names) != len(data) or not all(isinstance(n, str) for n in names):
        return opaque_call(I, a.name, a)
    fields, dtypes = dict(x.fields), dict(x.dtypes)
    dims, filt = x.dims, x.filt
    for n, d in zip(names, data):
        y = as_arr(I, d)
        if y is None or y.is_rec() or len(x.dims) != 1 or len(y.dims) != 1:
            return opaque_call(I, a.name, a)
        if n in fields:
            I.raise_('ValueError', ONE, a.node, 'field %s occurs more than once' % n)
        try:
            nd, nf, al, o = A.broadcast(ArrVal(dims, fields, filt), y)
        except Misaligned as err:
            misaligned(I, err, a.node)
            return I.unknown('append_fields misaligned')
        fields = dict(al[0].fields)
        fields[n] = al[1].fields[None]
        dtypes[n] = 'float'
        dims, filt = nd, nf
    return I.new_arr(ArrVal(dims, fields, filt, dtypes))


def _literal_list(I, v):
    if isinstance(v, tuple):
        return list(v)
    if I.is_ref(v, ListV) and all(s[0] == 'lit' for s in I.get(v).segs):
        return [s[1] for s in I.get(v).segs]
    return None


@model('numpy.ma.array', 'numpy.ma.masked_array')
def _(I, a):
    m = a.get(1, 'mask')
    x = as_arr(I, a.args[0])
    if x is not None and m is not None:
        ma = as_arr(I, m)
        if m is ZERO or m is False or ma is not None and not ma.is_rec() and ma.body is ZERO:
            return I.new_arr(x)
    I.emit('masked', a.node, arr=x, mask=as_arr(I, m) if m is not None else None)
    if x is None or m is None:
        return I.unknown('masked array')
    return mk('masked', I.freeze(a.args[0]), I.freeze(m))


for _n in ('uint64', 'int64', 'float32', 'float64', 'int32', 'uint32', 'bool_', 'float_', 'int_'):
    def _mk(n):
        def h(I, a):
            v = a.args[0]
            if 'int' in n:
                return BUILTINS['int'](I, a) if not I.is_ref(v) else ew(I, trunc, v)
            return v
        return h
    EXT['numpy.' + _n] = _mk(_n)


@model('numpy.errstate', 'numpy.seterr')
def _(I, a):
    return mk('app', 'ctx', a.name)


@model('warnings.catch_warnings', 'warnings.simplefilter', 'warnings.filterwarnings')
def _(I, a):
    return mk('app', 'ctx', a.name)


def _adiv(x, y):
    from .models import array_div
    return array_div(x, y)


@model('scipy.stats.linregress')
def _(I, a):
    """Least squares line: slope and intercept in closed form."""
    x, y = as_arr(I, a.get(0, 'x')), as_arr(I, a.get(1, 'y'))
    if x is None or y is None:
        return I.unknown('linregress', *a.args)
    try:
        dims, filt, (xa, ya), o = A.broadcast(x, y)
    except Misaligned as err:
        misaligned(I, err, a.node)
        return I.unknown('linregress misaligned')
    p, q = xa.body, ya.body
    n = A.total_size(ArrVal(dims, {None: p}, filt))
    tot = lambda b: A.reduce_sum(ArrVal(dims, {None: b}, filt))
    sx, sy = tot(p), tot(q)
    d = sub(mul(n, tot(mul(p, p))), mul(sx, sx))
    slope = div(sub(mul(n, tot(mul(p, q))), mul(sx, sy)), d)
    icept = div(sub(sy, mul(slope, sx)), n)
    fz = (I.freeze(a.get(0, 'x')), I.freeze(a.get(1, 'y')))
    rest = [atom(mk('app', 'linregress.' + k, *fz)) for k in ('rvalue', 'pvalue', 'stderr')]
    return mk('nt', ('slope', 'intercept', 'rvalue', 'pvalue', 'stderr'), (slope, icept) + tuple(rest))
