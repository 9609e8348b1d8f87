"""Models of builtins, strings, containers, files and external libraries."""

import ast
import re

from .terms import *
from .terms import mod as mod_num
from . import text
from .values import *
from . import arrays as A
from .effects import canon_path
from .interp import Dead, Unsupported, ABSENT, term_refs, show_val, subst_any

EXT = {}
BUILTINS = {}


def model(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def builtin_model(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


class Args(object):
    """Arguments of a modelled call."""

    def __init__(self, I, segs, kw, node, name):
        self.I = I
        self.segs = list(segs)
        self.args = I.flat_lits(segs)
        self.kwd = kw
        self.node = node
        self.name = name

    def get(self, i, name, default=None):
        if self.args is not None and i is not None and i < len(self.args):
            return self.args[i]
        if name in self.kwd.items:
            v, c = self.kwd.items[name]
            if c is ONE:
                return v
            return self.I.join(self.I.truth(c), v, default)
        return default

    def n(self):
        return len(self.args) if self.args is not None else None

    @property
    def kw(self):
        return {k: v for k, (v, c) in self.kwd.items.items()}

    def frozen(self):
        I = self.I
        return (I.freeze_segs(self.segs),
                tuple((k, I.freeze(v), c) for k, (v, c) in sorted(self.kwd.items.items(), key=lambda x: str(x[0]))))


def setup(I):
    I.func_attrs = {}
    I.try_names = []
    I.file_seq = 0
    I.contents = {}


EXC_NAMES = None


def builtin(I, name):
    from .interp import EXC_PARENTS
    if name in BUILTINS:
        return ext('builtins.' + name)
    if name in EXC_PARENTS or name in ('BaseException', 'Warning', 'UserWarning', 'RuntimeWarning', 'DeprecationWarning'):
        return ext('builtins.' + name)
    import builtins
    if hasattr(builtins, name):
        return ext('builtins.' + name)
    if name in ('__name__', '__file__', '__doc__'):
        return name
    return None


# ------------------------------------------------------------- sequences

def iter_segs(I, v):
    v = I.simp(I.unwrap(v))
    if isinstance(v, tuple):
        return tuple(('lit', x) for x in v)
    if isinstance(v, str):
        return tuple(('lit', c) for c in v)
    if v is None:
        I.raise_('TypeError', ONE, None, "'NoneType' object is not iterable", internal=True)
    if not isinstance(v, T):
        return None
    if v.op == 'ref':
        rec = I.get(v)
        if isinstance(rec, ListV):
            return rec.segs
        if isinstance(rec, GenV):
            if rec.pos is ZERO:
                segs = rec.segs
            else:
                segs = seg_slice(I, rec.segs, rec.pos, None)
            I.put(v, GenV(rec.segs, I.seg_len(rec.segs)))
            return segs
        if isinstance(rec, DictV):
            return dict_segs(I, rec, lambda k, x: k)
        if isinstance(rec, ViewV):
            from . import models_np
            return models_np.iter_array(I, v)
        if isinstance(rec, FileV):
            n = mk('app', 'nlines', I.freeze(rec.path))
            k, size = new_axis(atom(n), 'line')
            return (('each', k, size, (('lit', mk('app', 'line', I.freeze(rec.path), atom(k))),)),)
        if isinstance(rec, InstV):
            m = rec.cls.lookup('__iter__')
            if m is not None:
                return iter_segs(I, I.call(bound(m, v), [], {}))
            m = rec.cls.lookup('__getitem__')
            if m is None:
                I.raise_('TypeError', ONE, None, "'%s' object is not iterable" % rec.cls.name, internal=True)
        return None
    if v.op == 'nt':
        return tuple(('lit', x) for x in v.args[1])
    if v.op == 'ite':
        c = I.truth(v.args[0])
        a = iter_segs(I, v.args[1]) if c is not ZERO else ()
        b = iter_segs(I, v.args[2]) if c is not ONE else ()
        if a is None or b is None:
            return None
        return I.merge_segs(c, a, b)
    if v.op == 'sym' and fact(v, 'kind') in ('seq', 'list', 'tuple'):
        return sym_segs(v)
    if v.op == 'num':
        sa = single_atom(v)
        if sa is None or (sa.op == 'sym' and fact(sa, 'kind') == 'num'):
            if not I._opaque(v):
                I.raise_('TypeError', ONE, None, 'numeric object is not iterable', internal=True)
            return None
        c = isnone(v)
        if c is not ZERO:
            I.raise_('TypeError', c, None, "'NoneType' object is not iterable", internal=True)
        return iter_segs(I, sa)
    c = isnone(v)
    if c is not ZERO:
        I.raise_('TypeError', c, None, "'NoneType' object is not iterable", internal=True)
    return None


_sym_axes = {}


def sym_segs(v):
    if v not in _sym_axes:
        n = fact(v, 'len', None)
        if n is None:
            n = atom(sym('len(%s)' % v.args[0], int=True, nonneg=True, kind='num'))
        k, size = new_axis(n, 'k')
        ek = fact(v, 'elemkind', 'num')
        e = mk('elem', v, atom(k))
        _sym_axes[v] = (('each', k, size, (('lit', atom(e) if ek == 'num' else e),)),)
    return _sym_axes[v]


def dict_segs(I, rec, f):
    out = []
    for k, (x, c) in rec.items.items():
        s = ('lit', f(k, x))
        out.append(s if c is ONE else ('if', c, (s,)))
    for e in rec.each:
        if e[0] == 'nest':
            out.append(('each', e[1][0], e[1][1], (('each', e[2], e[3], (('lit', f(e[4], e[5])),)),)))
        elif e[0] is None:
            out.append(('lit', f(e[2], e[3])))
        else:
            out.append(('each', e[0], e[1], (('lit', f(e[2], e[3])),)))
    if rec.rest is not None:
        k, size = new_axis(atom(mk('app', '?nrest', rec.rest)), 'k')
        out.append(('each', k, size, (('lit', f(mk('app', '?key', rec.rest, atom(k)), mk('app', '?val', rec.rest, atom(k)))),)))
    return tuple(out)


def slice_store(I, rec, i, v):
    """Known items replaced by as many others."""
    if i.args[2] is not None or not all(s[0] == 'lit' for s in rec.segs):
        return False
    b = [x if x is None else const_value(as_num(x)) for x in i.args[:2]]
    if any(x is None and y is not None for x, y in zip(b, i.args[:2])):
        return False
    new = iter_segs(I, v)
    if new is None or not all(s[0] == 'lit' for s in new):
        return False
    segs = list(rec.segs)
    where = slice(*[x if x is None else int(x) for x in b])
    if len(segs[where]) != len(new):
        if not rec.kind.startswith('objects'):
            return False
        if len(new) != 1:
            I.raise_('ValueError', ONE, None, 'could not broadcast input array', internal=True)
            return True
        new = list(new)*len(segs[where])
    segs[where] = list(new)
    rec.segs = tuple(segs)
    return True


def seg_slice(I, segs, lo, hi, step=None):
    """Sub-sequence of segments [lo:hi]."""
    segs = tuple(segs)
    n = I.seg_len(segs)

    def norm(x):
        x = as_num(x)
        if sign_set(x) == {'-'}:
            return minmax('max', ZERO, add(n, x))
        return x
    lo = ZERO if lo is None else norm(lo)
    hi = n if hi is None else norm(hi)
    if step is not None and const_value(as_num(step)) not in (1, None):
        flat = I.flat_lits(segs)
        cl, ch, cs = const_value(lo), const_value(hi), const_value(as_num(step))
        if flat is not None and cl is not None and ch is not None:
            if cs < 0:
                return tuple(('lit', x) for x in flat[::int(cs)])
            return tuple(('lit', x) for x in flat[int(cl):int(ch):int(cs)])
        if cs == -1 and lo is ZERO and hi is n and len(segs) == 1 and segs[0][0] == 'each':
            _, k, size, inner = segs[0]
            k2, s2 = new_axis(size, 'k')
            return (('each', k2, s2, I.inst_segs(inner, k, sub(sub(size, ONE), atom(k2)))),)
        k2, s2 = new_axis(atom(fresh('?n', int=True, nonneg=True, kind='num')), 'k')
        return (('each', k2, s2, (('lit', I.seg_index(segs, add(lo, mul(as_num(step), atom(k2))), check=False)),)),)
    if lo is ZERO and hi is n:
        return segs
    cl, ch = const_value(lo), const_value(hi)
    if all(s[0] == 'lit' for s in segs) and cl is not None and ch is not None:
        return segs[int(cl):int(ch)]
    # drop literal prefix
    out = []
    pos = ZERO
    for i, s in enumerate(segs):
        size = I.seg_len((s,))
        end = add(pos, size)
        # wholly before lo?
        if I.truth(le(end, lo)) is ONE:
            pos = end
            continue
        if I.truth(le(hi, pos)) is ONE:
            break
        if I.truth(le(lo, pos)) is ONE and I.truth(le(end, hi)) is ONE:
            out.append(s)
            pos = end
            continue
        if s[0] == 'each' and I.seg_len(s[3]) is ONE:
            a = minmax('max', ZERO, sub(lo, pos)) if lo is not ZERO else ZERO
            b = size if hi is n else minmax('min', size, sub(hi, pos))
            ns = minmax('max', ZERO, sub(b, a))
            k2, s2 = new_axis(ns, 'k')
            out.append(('each', k2, s2, I.inst_segs(s[3], s[1], add(atom(k2), a))))
            pos = end
            continue
        if s[0] == 'lit':
            c = and_(le(lo, pos), lt(pos, hi))
            out.append(('if', c, (s,)))
            pos = end
            continue
        if s[0] == 'each':
            m = const_value(I.seg_len(s[3]))
            if m is not None:
                cl2 = const_value(sub(lo, pos))
                k2, s2 = new_axis(minmax('max', ZERO, sub(minmax('min', end, hi), lo)), 'k')
                out.append(('each', k2, s2, (('lit', I.seg_index((s,), add(atom(k2), sub(lo, pos)), check=False)),)))
                pos = end
                continue
        k2, s2 = new_axis(atom(fresh('?n', int=True, nonneg=True, kind='num')), 'k')
        out.append(('each', k2, s2, (('lit', I.unknown('slice', lo, hi)),)))
        break
    return tuple(out)


def zip_segs(I, lists):
    """Zip of segment lists."""
    flats = [I.flat_lits(s) for s in lists]
    if all(f is not None for f in flats):
        return tuple(('lit', tuple(x)) for x in zip(*flats))
    # one generic segment each, of equal shape
    out = []
    lists = [list(s) for s in lists]
    guard = 0
    while all(lists):
        guard += 1
        if guard > 200:
            break
        heads = [l[0] for l in lists]
        if all(h[0] == 'lit' for h in heads):
            out.append(('lit', tuple(h[1] for h in heads)))
            for l in lists:
                l.pop(0)
            continue
        # expand zero or one conditions
        changed = False
        for l in lists:
            if l[0][0] == 'if':
                c = I.truth(l[0][1])
                if c is ONE:
                    l[0:1] = list(l[0][2])
                    changed = True
                elif c is ZERO:
                    l.pop(0)
                    changed = True
        if changed:
            continue
        if all(h[0] in ('each',) and I.seg_len(h[3]) is ONE for h in heads):
            sizes = [h[2] for h in heads]
            if all(A.same_size(sizes[0], s) for s in sizes[1:]) or all(len(l) == 1 for l in lists):
                n = sizes[0]
                for s in sizes[1:]:
                    if not A.same_size(n, s):
                        n = minmax('min', n, s)
                # keep the variable whose elements own objects (templates)
                best = None
                for h in heads:
                    if any(I.depends(r, h[1]) for r in seg_refs(h[3])):
                        best = h[1]
                        break
                k = best or heads[0][1]
                if n is not heads[[h[1] for h in heads].index(k)][2]:
                    k2 = new_axis(n, 'k')[0]
                    k = k2
                vals = []
                for h in heads:
                    inner = I.inst_segs(h[3], h[1], atom(k))
                    fl = I.flat_lits(inner)
                    vals.append(fl[0] if fl else I.seg_index(inner, ZERO, check=False))
                out.append(('each', k, n, (('lit', tuple(vals)),)))
                for l in lists:
                    l.pop(0)
                continue
        # general: index based
        ns = [I.seg_len(tuple(l)) for l in lists]
        n = minmax('min', *ns)
        k, n = new_axis(n, 'k')
        vals = tuple(I.seg_index(tuple(l), atom(k), check=False) for l in lists)
        out.append(('each', k, n, (('lit', vals),)))
        break
    return tuple(out)


def seg_refs(segs):
    r = []
    for s in segs:
        if s[0] == 'lit':
            r += val_refs(s[1])
        elif s[0] in ('if', 'each'):
            r += seg_refs(s[-1])
    return r


def val_refs(v):
    if isinstance(v, tuple):
        r = []
        for x in v:
            r += val_refs(x)
        return r
    if isinstance(v, T):
        return list(term_refs(v))
    return []


def map_segs(segs, f):
    out = []
    for s in segs:
        if s[0] == 'lit':
            out.append(('lit', f(s[1])))
        elif s[0] == 'if':
            out.append(('if', s[1], map_segs(s[2], f)))
        elif s[0] == 'each':
            out.append(('each', s[1], s[2], map_segs(s[3], f)))
        else:
            out.append(s)
    return tuple(out)


def list_extend(I, r, v):
    def go(v):
        segs = iter_segs(I, v)
        if segs is None:
            k, size = new_axis(atom(fresh('?n', int=True, nonneg=True, kind='num')), 'k')
            segs = (('each', k, size, (('lit', I.unknown('item', v, atom(k))),)),)
        rec = I.w(r)
        rec.segs = rec.segs + tuple(segs)
    I.cases(v, go)


# ----------------------------------------------------------------- dicts

def dict_from_pairs(I, segs):
    d = DictV({})
    r = I.alloc(d)
    for s in segs:
        if s[0] == 'lit':
            k, v = s[1]
            setitem(I, r, k, v, I.node)
        elif s[0] == 'each':
            inner = I.flat_lits(s[3])
            n = const_value(s[2])
            if inner is not None and len(inner) == 1 and isinstance(inner[0], tuple):
                kk, vv = inner[0]
                rec = I.w(r)
                rec.each = rec.each + ((s[1], s[2], kk, vv),)
            else:
                I.w(r).rest = I.unknown('dict')
        elif s[0] == 'if':
            c = I.truth(s[1])
            for k, v in (I.flat_lits(s[2]) or ()):
                rec = I.w(r)
                old = rec.items.get(k)
                if old is None:
                    rec.items[k] = (v, c)
                else:
                    rec.items[k] = (I.join(c, v, old[0]), or_(c, old[1]))
    return r


def materialise_dict(I, v):
    v = I.simp(v)
    if I.is_ref(v, DictV):
        return I.get(v)
    if isinstance(v, T) and v.op == 'ite':
        return I.merge_rec(v.args[0], materialise_dict(I, v.args[1]), materialise_dict(I, v.args[2]))
    return DictV({}, I.unknown('kwargs', v))


def dict_update(I, r, v):
    def go(v):
        if I.is_ref(v, DictV):
            src = I.get(v)
            rec = I.w(r)
            for k, (x, c) in src.items.items():
                old = rec.items.get(k)
                if c is ONE or old is None:
                    rec.items[k] = (x, c)
                else:
                    rec.items[k] = (I.join(c, x, old[0]), or_(c, old[1]))
            if src.rest is not None:
                rec.rest = src.rest
            rec.each = rec.each + tuple(src.each)
        else:
            segs = iter_segs(I, v)
            pairs = I.flat_lits(segs) if segs is not None else None
            if pairs is not None and all(isinstance(p, tuple) and len(p) == 2 for p in pairs):
                for k, x in pairs:
                    setitem(I, r, k, x, I.node)
            else:
                I.w(r).rest = I.unknown('update', v)
    I.cases(v, go)


def dict_present(I, rec, key):
    key = I.unwrap(key)
    if isinstance(key, T) and key.op == 'ite':
        return ite(key.args[0], dict_present(I, rec, key.args[1]), dict_present(I, rec, key.args[2]))
    try:
        if key in rec.items:
            return rec.items[key][1]
    except TypeError:
        pass
    r = ZERO
    if not is_const_key(key):
        for k, (x, c) in rec.items.items():
            r = or_(r, mul(c, eq_val(I, key, k)))
    for e in rec.each:
        ek = e[2] if e[0] != 'nest' else e[4]
        if is_const_key(ek) and is_const_key(key) and ek != key:
            continue
        if ek is key:
            r = ONE
            continue
        r = or_(r, pred('haskey', I.freeze(ek), e[0] if isinstance(e[0], T) else 'x', I.freeze(key)))
    if rec.rest is not None:
        r = or_(r, atom(mk('pred', 'haskey', rec.rest, I.freeze(key))))
    return r


def is_const_key(k):
    if isinstance(k, tuple):
        return all(is_const_key(x) for x in k)
    if isinstance(k, T):
        return const_value(k) is not None if k.op == 'num' else False
    return True


def dict_get(I, rec, key, default):
    """(value, presence)."""
    key = I.unwrap(key)
    if isinstance(key, T) and key.op == 'ite':
        a, ca = dict_get(I, rec, key.args[1], default)
        b, cb = dict_get(I, rec, key.args[2], default)
        return I.join(key.args[0], a, b), ite(key.args[0], ca, cb)
    if key in rec.items:
        v, c = rec.items[key]
        return v, c
    if not is_const_key(key):
        v = ABSENT
        tot = ZERO
        for k, (x, c) in rec.items.items():
            e = mul(c, eq_val(I, key, k))
            if e is ZERO:
                continue
            v = I.join(e, x, v) if v is not ABSENT else x
            tot = or_(tot, e)
        for e in reversed(rec.each):
            if e[0] != 'nest' and e[2] is key:
                return e[3], ONE
        if v is not ABSENT and rec.rest is None and not rec.each:
            return v, tot
    for e in reversed(rec.each):
        if e[0] is None and e[2] is key:
            return e[3], ONE
        if e[0] != 'nest' and e[0] is not None:
            # solve key == elem(k)
            if isinstance(e[2], T) and isinstance(key, T):
                idx = match_bound(e[2], key, e[0])
                if idx is not None:
                    return I.inst(e[3], e[0], idx, {}), ONE
    if rec.rest is not None:
        return atom_or_raw(mk('item', rec.rest, I.freeze(key))), mk_pred('haskey', rec.rest, I.freeze(key))
    if rec.each:
        return I.unknown('dict item', key), ONE
    return default, ZERO


def atom_or_raw(t):
    return t


def mk_pred(*a):
    return atom(mk('pred', *a))


def match_bound(pat, t, v):
    """Index i such that pat[v:=i] is t."""
    if pat is t:
        return atom(v)
    pa, ta = single_atom(pat), single_atom(t)
    if pa is None or ta is None or pa.op != ta.op or len(pa.args) != len(ta.args):
        return None
    idx = None
    for x, y in zip(pa.args, ta.args):
        if x is y or (not isinstance(x, T) and x == y):
            continue
        if isinstance(x, T) and x.op == 'num' and single_atom(x) is v:
            if idx is not None and idx is not y:
                return None
            idx = y
        else:
            return None
    return idx


# --------------------------------------------------------------- strings

def parts_of(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, T) and v.op == 'str':
        return list(v.args[0])
    return [v]


def str_make(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '' or isinstance(p, T):
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        if isinstance(out[0], str) or out[0].op != 'fmt':
            return out[0]
    return mk('str', tuple(out))


def str_cat(a, b):
    if isinstance(a, T) and a.op == 'ite':
        return ite(a.args[0], str_cat(a.args[1], b), str_cat(a.args[2], b))
    if isinstance(b, T) and b.op == 'ite':
        return ite(b.args[0], str_cat(a, b.args[1]), str_cat(a, b.args[2]))
    return str_make(parts_of(a) + parts_of(b))


def is_str(v):
    return isinstance(v, str) or (isinstance(v, T) and (
        v.op == 'str' or (v.op == 'sym' and fact(v, 'kind') in ('str', 'path', 'choice')) or
        (v.op == 'elem' and fact(v.args[0], 'elemkind') in ('str', 'path')) or
        (v.op == 'app' and v.args[0] in STR_APPS)))


def fmt_value(I, spec, v):
    v = I.unwrap(I.simp(v))
    if spec and spec[-1] in 'diouxXeEfFgG' and spec != '%':
        n = ONE if v is None or isinstance(v, str) else isnone(v) if isinstance(v, T) and v.op == 'ite' else ZERO
        if n is not ZERO:
            I.raise_('TypeError', n, I.node, 'number required for %s' % spec, internal=True)
            v = assume(not_(n), v)
    if isinstance(v, T) and v.op == 'ite':
        return ite(v.args[0], fmt_value(I, spec, v.args[1]), fmt_value(I, spec, v.args[2]))
    if spec in ('%s', '', '%r') and isinstance(v, str) and spec != '%r':
        return v
    if spec in ('%s', '') and is_str(v):
        return v
    if v is None:
        return 'None'
    if isinstance(v, T) and v.op == 'num':
        c = const_value(v)
        if c is not None and spec in ('%d', '%s', '') and c.denominator == 1:
            return str(int(c))
        if c is not None:
            try:
                return spec % float(c) if c.denominator != 1 else spec % int(c)
            except Exception:
                pass
        ls = literals(v)
        if ls and len(ls) <= 6 and not is_bool(v):
            l = ls[0]
            return ite(atom(l), fmt_value(I, spec, restrict(v, l, 1)), fmt_value(I, spec, restrict(v, l, 0)))
    if spec in ('%s', '') and isinstance(v, T) and is_num(v) and not is_bool(v) and is_int(v) and \
            not any(t.op == 'app' and t.args[0] in ('floor', 'ceil', 'round', 'roundn', 'rounded') for t in subterms(v)):
        spec = '%d'
    return mk('str', (mk('fmt', spec, I.freeze(v)),))


_FMT = re.compile(r'%(\((\w+)\))?[-+ #0]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def str_format_op(I, f, v, node):
    """f % v"""
    if isinstance(f, T) and f.op == 'ite':
        return ite(f.args[0], str_format_op(I, f.args[1], v, node), str_format_op(I, f.args[2], v, node))
    if not isinstance(f, str) and not (isinstance(f, T) and f.op == 'str'):
        return mk('app', 'format', I.freeze(f), I.freeze(v))
    v = I.unwrap(I.simp(v))
    if isinstance(v, T) and v.op == 'nt':
        v = v.args[1]
    if isinstance(v, T) and v.op == 'ref' and isinstance(I.get(v), ListV) and I.get(v).kind == 'tuple':
        segs = I.get(v).segs
        fl = I.flat_lits(segs)
        if fl is None:
            return mk('app', 'format', f, I.freeze(v))
        v = tuple(fl)
    vals = list(v) if isinstance(v, tuple) else [v]
    i = 0
    out = []
    for p in parts_of(f):
        if not isinstance(p, str):
            out.append(p)
            continue
        pos = 0
        for m in _FMT.finditer(p):
            out.append(p[pos:m.start()])
            pos = m.end()
            if m.group(6) == '%':
                out.append('%')
                continue
            if m.group(2):
                x = getitem(I, v, m.group(2), node)
                spec = '%' + m.group(0)[m.end(1) - m.start():]
                out.append(fmt_value(I, spec, x))
                continue
            if m.group(3) == '*' or m.group(5) == '*':
                w = vals[i] if i < len(vals) else None
                i += 1
                cw = const_value(w) if isinstance(w, T) else None
                spec = m.group(0).replace('*', str(int(cw)) if cw is not None else '{%s}' % show_val(w), 1)
            else:
                spec = m.group(0)
            if i >= len(vals):
                I.raise_('TypeError', ONE, node, 'not enough arguments for format string', internal=True)
            out.append(fmt_value(I, spec, vals[i]))
            i += 1
        out.append(p[pos:])
    if i < len(vals) and not (len(vals) == 1 and I.is_ref(vals[0], DictV)):
        if i != 0 or isinstance(v, tuple) or is_str(v):
            I.raise_('TypeError', ONE, node, 'not all arguments converted during string formatting', internal=True)
    r = ''
    for x in out:
        r = str_cat(r, x)
    return r


def to_str(I, v):
    if is_str(v):
        return v
    return fmt_value(I, '%s', v)


# ------------------------------------------------------------ attributes

MPL_OPAQUE = True


def func_cell(I, fv):
    key = fv.node, fv.frame
    if key not in I.func_attrs:
        r = I.alloc(CellV({}))
        I.born[r.args[0]] = ()
        I.func_attrs[key] = r
    r = I.func_attrs[key]
    if r.args[0] not in I.st.heap:
        I.st.heap[r.args[0]] = CellV({})
    return r


def getattr_(I, o, name, node):
    o = I.unwrap(o)
    if isinstance(o, str):
        return bound(name, mk('py', o))
    if isinstance(o, tuple):
        return bound(name, I.list_of(o)) if name not in ('index', 'count') else bound(name, mk('py', o))
    if o is None:
        I.raise_('AttributeError', ONE, node, "'NoneType' object has no attribute '%s'" % name, internal=True)
    if not isinstance(o, T):
        return I.unknown('attr ' + name)
    op = o.op
    if op == 'mod':
        mn = o.args[0]
        if mn.split('.')[0] in I.program.modules:
            fr = I.module(mn)
            v = I.get(fr).vars.get(name, UNBOUND)
            if v is UNBOUND:
                if mn + '.' + name in I.program.modules:
                    I.module(mn + '.' + name)
                    return mod(mn + '.' + name)
                I.raise_('AttributeError', ONE, node, "module '%s' has no attribute '%s'" % (mn, name), internal=True)
            return I.check_bound(v, name, node)
        from . import models_np
        c = models_np.ext_constant(mn + '.' + name)
        return ext(mn + '.' + name) if c is None else c
    if op == 'ext':
        from . import models_np
        c = models_np.ext_constant(o.args[0] + '.' + name)
        if c is not None:
            return c
        return ext(o.args[0] + '.' + name)
    if op == 'ref':
        rec = I.get(o)
        if isinstance(rec, InstV):
            p = rec.cls.prop(name)
            if p is not None and 'get' in p:
                return I.call(bound(p['get'], o), [], {}, node)
            if name in rec.attrs:
                return I.check_attr(rec.attrs[name], name, node) if hasattr(I, 'check_attr') else rec.attrs[name]
            if name == '__class__':
                return cls(rec.cls)
            if name == '__dict__':
                return I.alloc(DictV({k: (v, ONE) for k, v in rec.attrs.items()}))
            v = rec.cls.lookup(name)
            if v is not None:
                if isinstance(v, T) and v.op in ('func', 'static', 'classm'):
                    return bound(v, o) if v.op != 'static' else v.args[0]
                return v
            if getattr(rec.cls, 'ext_bases', None):
                return bound(name, o)
            I.raise_('AttributeError', ONE, node, "'%s' object has no attribute '%s'" % (rec.cls.name, name), internal=True)
        if isinstance(rec, ViewV):
            from . import models_np
            return models_np.arr_attr(I, o, name, node)
        if isinstance(rec, FileV) and name == 'name':
            return rec.path
        if isinstance(rec, CellV):
            if name in rec.attrs:
                return rec.attrs[name]
            return bound(name, o)
        if isinstance(rec, ListV) and rec.kind.startswith('objects'):
            if name == 'T' and rec.kind[7:]:
                from . import models_np
                return models_np.object_columns(I, rec.segs, int(rec.kind[7:]))
            return bound(name, o)
        if isinstance(rec, (ListV, DictV, GenV)):
            tname = {'ListV': 'list', 'DictV': 'dict', 'GenV': 'generator'}[type(rec).__name__]
            ok = {'list': list, 'dict': dict, 'generator': type(x for x in ())}[tname]
            if isinstance(rec, ListV) and rec.kind == 'set':
                ok = set
            if isinstance(rec, ListV) and rec.kind == 'tuple':
                ok = tuple
            if isinstance(rec, DictV) and name in ('popitem', 'move_to_end'):
                return bound(name, o)
            if not hasattr(ok, name) and rec.__class__ is not DictV:
                I.raise_('AttributeError', ONE, node, "'%s' object has no attribute '%s'" % (ok.__name__, name), internal=True)
        return bound(name, o)
    if op == 'class':
        cv = o.args[0]
        if name == '__name__':
            return cv.name
        v = cv.lookup(name)
        if v is not None:
            return v.args[0] if isinstance(v, T) and v.op == 'static' else v
        if cv.fields is not None and name == '_fields':
            return tuple(cv.fields)
        if name == '_make':
            return bound('_make', o)
        I.raise_('AttributeError', ONE, node, "class '%s' has no attribute '%s'" % (cv.name, name), internal=True)
    if op == 'nt':
        cv, items = o.args
        if name in cv.fields:
            return items[cv.fields.index(name)]
        return bound(name, o)
    if op == 'func':
        fv = o.args[0]
        if name == '__name__':
            return fv.name
        if name == '__doc__':
            return 'doc'
        if fv.cli is not None and name in ('command', 'group', 'add_command'):
            return bound(name, o)
        if fv.cli is not None and name in ('name', 'callback', 'params'):
            return I.unknown('cli attr')
        cell = I.get(func_cell(I, fv))
        if name in cell.attrs:
            return I.check_bound(cell.attrs[name], name, node)
        if name in ('__module__', '__wrapped__', '__dict__', '__qualname__'):
            return I.unknown('func attr')
        I.raise_('AttributeError', ONE, node, "function '%s' has no attribute '%s'" % (fv.name, name), internal=True)
    if op in ('str', 'bytes', 'exc', 'dtype', 'deco', 'clicktype', 'slice', 'type'):
        if op == 'dtype':
            from . import models_np
            return models_np.dtype_attr(I, o, name)
        return bound(name, o)
    if op == 'num' or op == 'sym' or op == 'app' or op == 'elem' or op == 'attr' or op == 'item':
        c = isnone(o)
        if c is not ZERO:
            I.raise_('AttributeError', c, node, "'NoneType' object has no attribute '%s'" % name, internal=True)
        t = single_atom(o) if op == 'num' else o
        if t is not None and t.op == 'sym':
            af = fact(t, 'attrs', None)
            if af is not None and name in af:
                return af[name]
        if is_str(o):
            return bound(name, o)
        if op == 'num' and (t is None or (t.op == 'sym' and fact(t, 'kind') == 'num')):
            return bound(name, o)
        return bound(name, o)
    return bound(name, o)


def setattr_(I, o, name, v):
    o = I.unwrap(o)
    if isinstance(o, T):
        if o.op == 'ref':
            rec = I.get(o)
            if isinstance(rec, InstV):
                p = rec.cls.prop(name)
                if p is not None:
                    if 'set' in p:
                        I.call(bound(p['set'], o), [v], {}, I.node)
                        return
                    I.raise_('AttributeError', ONE, None, "can't set attribute '%s'" % name, internal=True)
                I.w(o).attrs[name] = v
                return
            if isinstance(rec, CellV):
                I.w(o).attrs[name] = v
                return
            if isinstance(rec, ViewV):
                from . import models_np
                models_np.arr_setattr(I, o, name, v)
                return
        if o.op == 'func':
            cell = func_cell(I, o.args[0])
            I.emit('setattr', None, target=o.args[0].qual, name=name, value=I.freeze(v))
            I.w(cell).attrs[name] = v
            return
        if o.op == 'mod' and o.args[0] in I.program.modules:
            fr = I.module(o.args[0])
            I.emit('setattr', None, target=o.args[0], name=name, value=I.freeze(v))
            I.w(fr).vars[name] = v
            return
        if o.op == 'class':
            o.args[0].attrs[name] = v
            I.note('class attribute store')
            return
        if o.op == 'nt':
            I.raise_('AttributeError', ONE, None, "can't set attribute '%s'" % name, internal=True)
    if o is None:
        I.raise_('AttributeError', ONE, None, "'NoneType' object has no attribute '%s'" % name, internal=True)
    I.emit('extset', None, target=I.freeze(o), name=name, value=I.freeze(v))


# ----------------------------------------------------------------- items

def slice_parts(I, s):
    return s.args


def getitem(I, o, i, node):
    o = I.unwrap(I.simp(o))
    i = I.unwrap(I.simp(i)) if not isinstance(i, tuple) else i
    if isinstance(o, T) and o.op == 'nt':
        o = o.args[1]
    if isinstance(o, tuple):
        if isinstance(i, T) and i.op == 'slice':
            segs = seg_slice(I, tuple(('lit', x) for x in o), *i.args)
            if all(s[0] == 'lit' for s in segs):
                return tuple(s[1] for s in segs)
            return I.new_list(segs, 'tuple')
        c = const_value(i) if isinstance(i, T) else None
        if c is not None:
            if -len(o) <= c < len(o):
                return o[int(c)]
            I.raise_('IndexError', ONE, node, 'tuple index out of range', internal=True)
        if isinstance(i, str) or i is None:
            I.raise_('TypeError', ONE, node, 'tuple indices must be integers', internal=True)
        return I.seg_index(tuple(('lit', x) for x in o), i)
    if isinstance(o, str):
        if isinstance(i, T) and i.op == 'slice':
            p = [None if x is None else const_value(as_num(x)) for x in i.args]
            if all(x is not None or y is None for x, y in zip(p, i.args)):
                return o[slice(*[None if x is None else int(x) for x in p])]
        c = const_value(i) if isinstance(i, T) else None
        if c is not None and -len(o) <= c < len(o):
            return o[int(c)]
        return mk('app', 'strindex', o, I.freeze(i))
    if o is None:
        I.raise_('TypeError', ONE, node, "'NoneType' object is not subscriptable", internal=True)
    if not isinstance(o, T):
        return I.unknown('getitem')
    if o.op == 'ite':
        return I.cases(o, lambda o: getitem(I, o, i, node))
    if o.op == 'ref':
        rec = I.get(o)
        if isinstance(rec, ListV):
            if isinstance(i, T) and i.op == 'slice':
                return I.new_list(seg_slice(I, rec.segs, *i.args), rec.kind)
            if isinstance(i, (str, tuple)) or i is None:
                I.raise_('TypeError', ONE, node, 'list indices must be integers or slices', internal=True)
            if rec.kind == 'set':
                I.raise_('TypeError', ONE, node, "'set' object is not subscriptable", internal=True)
            return I.seg_index(rec.segs, i)
        if isinstance(rec, GenV):
            I.raise_('TypeError', ONE, node, "'generator' object is not subscriptable", internal=True)
        if isinstance(rec, DictV):
            v, c = dict_get(I, rec, i, ABSENT)
            c = I.truth(c)
            if c is not ONE:
                I.raise_('KeyError', not_(c), node, i, internal=(rec.rest is None and not rec.each))
            return v
        if isinstance(rec, ViewV):
            from . import models_np
            return models_np.getitem(I, o, i, node)
        if isinstance(rec, InstV):
            m = rec.cls.lookup('__getitem__')
            if m is not None:
                return I.call(bound(m, o), [i], {}, node)
            I.raise_('TypeError', ONE, node, "'%s' object is not subscriptable" % rec.cls.name, internal=True)
        return I.unknown('getitem', o, i)
    if o.op == 'num' and single_atom(o) is not None and single_atom(o).op not in ('none',):
        if fact(single_atom(o), 'kind') == 'num' and single_atom(o).op == 'sym':
            I.raise_('TypeError', ONE, node, 'numeric object is not subscriptable', internal=True)
        o = single_atom(o)
    c = isnone(o)
    if c is not ZERO:
        I.raise_('TypeError', c, node, "'NoneType' object is not subscriptable", internal=True)
    if o.op == 'sym' and fact(o, 'kind') in ('seq', 'list', 'tuple'):
        segs = sym_segs(o)
        if isinstance(i, T) and i.op == 'slice':
            return I.new_list(seg_slice(I, segs, *i.args), 'tuple' if fact(o, 'kind') == 'tuple' else 'list')
        return I.seg_index(segs, i)
    if o.op == 'bytes' and isinstance(i, T) and i.op == 'slice' and i.args[2] is None:
        r = text.piece(o.args[0], i.args[0], i.args[1])
        if r is not None:
            return mk('bytes', r)
    if o.op == 'str' and isinstance(i, T) and i.op == 'slice' and i.args[2] is None:
        r = text.piece(o, i.args[0], i.args[1])
        if r is not None:
            return r
    if is_str(o) or o.op == 'str':
        return mk('app', 'strindex', o, I.freeze(i))
    if o.op in ('func', 'class', 'mod'):
        I.raise_('TypeError', ONE, node, 'object is not subscriptable', internal=True)
    r = mk('item', o, I.freeze(i))
    return r


def setitem(I, o, i, v, node):
    o = I.unwrap(I.simp(o))
    i = I.unwrap(I.simp(i)) if not isinstance(i, tuple) else i
    if isinstance(o, T) and o.op == 'ite':
        return I.cases(o, lambda o: setitem(I, o, i, v, node))
    if I.is_ref(o):
        rec = I.get(o)
        if isinstance(rec, DictV):
            if isinstance(i, T) and i.op == 'ite':
                return I.cases(i, lambda i: setitem(I, o, i, v, node))
            rec = I.w(o)
            if is_const_key(i):
                rec.items[i] = (v, ONE)
            elif i in rec.items:
                rec.items[i] = (v, ONE)
            else:
                rec.each = tuple(e for e in rec.each if not (e[0] is None and e[2] is i)) + ((None, ONE, i, v),)
            I.emit('store', node, obj=o, key=i)
            return
        if isinstance(rec, ListV):
            c = const_value(as_num(i)) if isinstance(i, T) and i.op == 'num' else None
            if isinstance(i, T) and i.op == 'num' and c is None:
                n = I.seg_len(rec.segs)
            rec = I.w(o)
            if isinstance(i, T) and i.op == 'slice' and slice_store(I, rec, i, v):
                I.emit('store', node, obj=o, key=i)
                return
            if c is not None and all(s[0] == 'lit' for s in rec.segs) and -len(rec.segs) <= c < len(rec.segs):
                segs = list(rec.segs)
                segs[int(c)] = ('lit', v)
                rec.segs = tuple(segs)
            elif isinstance(i, T) and i.op == 'num' and all(s[0] == 'lit' for s in rec.segs):
                rec.segs = tuple(('lit', I.join(eq_num(i, num(n)), v, s[1])) for n, s in enumerate(rec.segs))
            elif isinstance(i, T) and i.op == 'num' and len(rec.segs) == 1 and rec.segs[0][0] == 'each' and \
                    I.seg_len(rec.segs[0][3]) is ONE:
                _, k, size, inner = rec.segs[0]
                old = I.seg_index(inner, ZERO, check=False)
                rec.segs = (('each', k, size, (('lit', I.join(eq_num(i, atom(k)), v, old)),)),)
            else:
                I.note('list store')
                k, size = new_axis(I.seg_len(rec.segs), 'k')
                rec.segs = (('each', k, size, (('lit', I.unknown('item', i)),)),)
            return
        if isinstance(rec, ViewV):
            return store(I, o, i, v, node)
        if isinstance(rec, InstV):
            m = rec.cls.lookup('__setitem__')
            if m is not None:
                I.call(bound(m, o), [i, v], {}, node)
                return
            I.raise_('TypeError', ONE, node, "'%s' object does not support item assignment" % rec.cls.name, internal=True)
    if o is None:
        I.raise_('TypeError', ONE, node, "'NoneType' object does not support item assignment", internal=True)
    if isinstance(o, tuple) or isinstance(o, str):
        I.raise_('TypeError', ONE, node, 'object does not support item assignment', internal=True)
    I.emit('extstore', node, obj=I.freeze(o), key=I.freeze(i), value=I.freeze(v))


def store(I, view, idx, v, node):
    from . import models_np
    return models_np.store(I, view, idx, v, node)


def elementwise(I, f, *vals):
    from . import models_np
    return models_np.ew(I, f, *vals)


# -------------------------------------------------------------- operators

def num_op(op, a, b):
    if isinstance(op, ast.Add):
        return add(a, b)
    if isinstance(op, ast.Sub):
        return sub(a, b)
    if isinstance(op, ast.Mult):
        return mul(a, b)
    if isinstance(op, ast.Div):
        return div(a, b)
    if isinstance(op, ast.Pow):
        return power(a, b)
    if isinstance(op, ast.Mod):
        return mod_num(a, b)
    if isinstance(op, ast.FloorDiv):
        return floor(div(a, b))
    if isinstance(op, ast.BitAnd):
        return mul(a, b) if is_bool(a) and is_bool(b) else atom(app_raw('?and', a, b))
    if isinstance(op, ast.BitOr):
        return or_(a, b) if is_bool(a) and is_bool(b) else atom(app_raw('?or', a, b))
    if isinstance(op, ast.BitXor):
        return sub(add(a, b), scale(mul(a, b), 2)) if is_bool(a) and is_bool(b) else atom(app_raw('?xor', a, b))
    return atom(app_raw('?' + type(op).__name__, a, b))


def whole(t):
    """The value is a whole number that the inputs decide."""
    t = as_num(t)
    return const_value(t) is None and is_int(t)


def watched(I, node, f, op):
    """f, noting quotients of measured quantities that are whole numbers:
    in floating point such a quotient may fall just below its value."""
    if not isinstance(op, (ast.Div, ast.FloorDiv)):
        return f

    def g(a, b):
        r = f(a, b)
        a, b = as_num(a), as_num(b)
        if not (is_int(a) and is_int(b)):
            if isinstance(op, ast.Div):
                if whole(r):
                    I.quotients.add(node)
            elif whole(div(a, b)):
                I.quotients.add(node)
                I.emit('exact', node, quotients=frozenset([node]))
        return r
    return g


def exact(I, node, *values):
    """A value that is cut to a whole number is one already."""
    if I.quotients and any(whole(v) for v in values if isinstance(v, T)):
        I.emit('exact', node, quotients=I.quotients)


def array_div(a, b):
    """Element division: 0/0 stays visible where the divisor cancels."""
    a, b = as_num(a), as_num(b)
    r = div(a, b)
    if const_value(b) is not None and b is not ZERO:
        return r
    if b is ZERO:
        return NAN if a is ZERO else r
    ls = [l for l in literals(b)]
    if ls:
        if len(ls) > 4:
            return r
        l = ls[0]
        return ite(atom(l), array_div(assume_lit(a, l, 1), assume_lit(b, l, 1)), array_div(assume_lit(a, l, 0), assume_lit(b, l, 0)))
    inv = inverse(b)
    if literals(inv):
        return r
    lost = [x for m, c in inv.args[0] for x, e in m if e < 0 and '0' in atom_sign(x)]
    have = {x for m, c in r.args[0] for x, e in m if e < 0}
    lost = [x for x in lost if x not in have]
    for x in lost:
        r = ite(cmp_eq0(x.args[0] if x.op == 'poly' else atom(x)), NAN, r)
    return r


def assume_lit(t, l, value):
    return as_num(restrict(t, l, value))


def numeric_like(v):
    return isinstance(v, T) and v.op in ('num', 'sym', 'app', 'elem', 'item', 'attr', 'bound')


def binop(I, op, a, b, node):
    a = I.unwrap(I.simp(a))
    b = I.unwrap(I.simp(b))
    if isinstance(a, T) and a.op == 'ite':
        return I.cases(a, lambda a: binop(I, op, a, b, node))
    if isinstance(b, T) and b.op == 'ite' and not (isinstance(op, ast.Mod) and is_str(a)):
        return I.cases(b, lambda b: binop(I, op, a, b, node))
    # strings
    if isinstance(op, ast.Mod) and (is_str(a) or isinstance(a, str)):
        return str_format_op(I, a, b, node)
    if isinstance(op, ast.Add) and is_str(a) and is_str(b):
        return str_cat(a, b)
    if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, T) and b.op == 'num':
        c = const_value(b)
        return a * int(c) if c is not None else mk('app', 'strmul', a, b)
    if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    for x, y in ((a, b), (b, a)):
        if I.is_ref(x, InstV):
            name = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(type(op).__name__)
            m = I.get(x).cls.lookup(name) if name else None
            if m is not None and x is a:
                return I.call(bound(m, x), [y], {}, node)
    av, bv = I.is_ref(a, ViewV), I.is_ref(b, ViewV)
    if av or bv:
        for x in (a, b):
            if not I.is_ref(x, ViewV):
                c = ONE if x is None else isnone(x) if isinstance(x, T) else ZERO
                if c is not ZERO:
                    I.raise_('TypeError', c, node, 'unsupported operand None', internal=True)
        r = elementwise(I, watched(I, node, array_div if isinstance(op, ast.Div) else lambda x, y: num_op(op, x, y), op), a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            from . import models_np
            if models_np.bool_operand(I, a) and models_np.bool_operand(I, b):
                return models_np.as_bool(I, r)
        return r
    if isinstance(op, ast.Add):
        la = I.is_ref(a, ListV) or isinstance(a, tuple)
        lb = I.is_ref(b, ListV) or isinstance(b, tuple)
        if la and lb:
            return I.new_list(tuple(iter_segs(I, a)) + tuple(iter_segs(I, b)),
                              I.get(a).kind if I.is_ref(a) else 'tuple')
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if (I.is_ref(x, ListV) or isinstance(x, tuple)) and numeric_like(y):
                segs = iter_segs(I, x)
                c = const_value(as_num(y))
                if c is not None:
                    out = tuple(segs) * int(c)
                    if isinstance(x, tuple):
                        return tuple(s[1] for s in out)
                    return I.new_list(out, I.get(x).kind)
                k, size = new_axis(as_num(y), 'k')
                return I.new_list((('each', k, size, tuple(segs)),))
    if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
        # dict views combine with any iterable
        if I.is_ref(a, ListV) and I.get(a).kind == 'keys' and isinstance(b, (str, tuple)):
            b = I.new_list(tuple(('lit', x) for x in b), 'set')
        if I.is_ref(b, ListV) and I.get(b).kind == 'keys' and isinstance(a, (str, tuple)):
            a = I.new_list(tuple(('lit', x) for x in a), 'set')
    if I.is_ref(a, ListV) and I.is_ref(b, ListV) and isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
        return set_op(I, type(op).__name__, a, b)
    if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple) or (
            (is_str(a) != is_str(b)) and numeric_like(a) and numeric_like(b) and not I._opaque(a) and not I._opaque(b)) \
            or (isinstance(a, str) and isinstance(b, T) and b.op == 'num' and not I._opaque(b)) \
            or (isinstance(b, str) and isinstance(a, T) and a.op == 'num' and not I._opaque(a)):
        I.raise_('TypeError', ONE, node, 'unsupported operand types for %s' % type(op).__name__, internal=True)
    if numeric_like(a) and numeric_like(b):
        for x in (a, b):
            c = isnone(x)
            if c is not ZERO:
                I.raise_('TypeError', c, node, 'unsupported operand type None for %s' % type(op).__name__, internal=True)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            d = as_num(b)
            if d is ZERO:
                I.raise_('ZeroDivisionError', ONE, node, None, internal=True)
            if I.try_names and any(exc in ns for ns in I.try_names for exc in ('ZeroDivisionError', 'ArithmeticError', 'Exception', '*')):
                z = cmp_eq0(d)
                I.raise_('ZeroDivisionError', z, node)
        return watched(I, node, lambda x, y: num_op(op, x, y), op)(as_num(a), as_num(b))
    if isinstance(a, T) and a.op == 'ext' or isinstance(b, T) and b.op == 'ext':
        return I.unknown('binop', a, b)
    return I.unknown('binop ' + type(op).__name__, a, b)


def set_op(I, name, a, b):
    fa, fb = I.flat_lits(I.get(a).segs), I.flat_lits(I.get(b).segs)
    if fa is not None and fb is not None and all(is_const_key(x) for x in fa + fb):
        if name == 'Sub':
            return I.new_list([('lit', x) for x in fa if x not in fb], 'set')
        if name == 'BitAnd':
            return I.new_list([('lit', x) for x in fa if x in fb], 'set')
        return I.new_list([('lit', x) for x in fa] + [('lit', x) for x in fb if x not in fa], 'set')
    out = []
    if name == 'Sub':
        return I.new_list(filter_segs(I, I.get(a).segs, lambda x: not_(contains(I, x, b))), 'set')
    if name == 'BitAnd':
        return I.new_list(filter_segs(I, I.get(a).segs, lambda x: contains(I, x, b)), 'set')
    return I.new_list(I.get(a).segs + filter_segs(I, I.get(b).segs, lambda x: not_(contains(I, x, a))), 'set')


def filter_segs(I, segs, cond):
    out = []
    for s in segs:
        if s[0] == 'lit':
            c = cond(s[1])
            if c is ONE:
                out.append(s)
            elif c is not ZERO:
                out.append(('if', c, (s,)))
        elif s[0] == 'if':
            out.append(('if', s[1], filter_segs(I, s[2], cond)))
        elif s[0] == 'each':
            inner = filter_segs(I, s[3], cond)
            if inner:
                out.append(('each', s[1], s[2], inner))
        else:
            out.append(s)
    return tuple(out)


def eq_val(I, a, b):
    a, b = I.unwrap(a), I.unwrap(b)
    if a is b:
        return ONE
    if isinstance(a, T) and a.op == 'nt':
        a = a.args[1]
    if isinstance(b, T) and b.op == 'nt':
        b = b.args[1]
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return ZERO
        r = ONE
        for x, y in zip(a, b):
            r = mul(r, eq_val(I, x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if I.is_ref(x):
            if I.is_ref(x, ListV) and (I.is_ref(y, ListV)):
                sx, sy = I.get(x).segs, I.get(y).segs
                if sx == sy:
                    return ONE
                fx, fy = I.flat_lits(sx), I.flat_lits(sy)
                if fx is not None and fy is not None:
                    return eq_val(I, tuple(fx), tuple(fy))
                n = eq_num(I.seg_len(sx), I.seg_len(sy))
                if n is ZERO:
                    return ZERO
                if fy is not None and not fy or fx is not None and not fx:
                    return n
                return pred('listeq', I.freeze(a), I.freeze(b))
            if I.is_ref(x, DictV) and I.is_ref(y, DictV):
                rx, ry = I.get(x), I.get(y)
                if not rx.rest and not ry.rest and not rx.each and not ry.each:
                    r = ONE
                    for k in set(rx.items) | set(ry.items):
                        vx, cx = rx.items.get(k, (ABSENT, ZERO))
                        vy, cy = ry.items.get(k, (ABSENT, ZERO))
                        both = ite(cx, cy, not_(cy))
                        if vx is not ABSENT and vy is not ABSENT:
                            both = mul(both, or_(not_(cx), eq_val(I, vx, vy)))
                        r = mul(r, both)
                    return r
            if not isinstance(y, T) or y.op != 'ref':
                if y is None or isinstance(y, (str, tuple)):
                    return ZERO
                if isinstance(y, T) and y.op == 'num' and not I._opaque(y):
                    return ZERO
            return pred('objeq', I.freeze(a), I.freeze(b))
    if a is None or b is None:
        x = b if a is None else a
        return isnone(x)
    if isinstance(a, T) and a.op == 'ite' or isinstance(b, T) and b.op == 'ite':
        return eq_lit(a, b)
    if isinstance(a, str) and isinstance(b, T) and b.op == 'str' or isinstance(b, str) and isinstance(a, T) and a.op == 'str':
        return str_eq(a, b)
    if isinstance(a, (tuple,)) or isinstance(b, tuple):
        return ZERO
    return eq_lit(a, b)


def str_eq(a, b):
    s, t = (a, b) if isinstance(a, str) else (b, a)
    parts = t.args[0]
    if isinstance(parts[0], str) and not s.startswith(parts[0]):
        return ZERO
    if isinstance(parts[-1], str) and not s.endswith(parts[-1]):
        return ZERO
    return eq_lit(t, s)


def compare_op(I, op, a, b, node):
    a = I.unwrap(I.simp(a))
    b = I.unwrap(I.simp(b))
    if isinstance(op, (ast.Is, ast.IsNot)):
        if I.is_ref(a) and I.is_ref(b):
            r = ONE if a is b else ZERO
        elif b is None or a is None:
            x = a if b is None else b
            r = isnone(x) if (isinstance(x, T) or x is None) else ZERO
        else:
            r = eq_val(I, a, b)
        return r if isinstance(op, ast.Is) else not_(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, a, b)
        return r if isinstance(op, ast.In) else not_(r)
    if isinstance(a, T) and a.op == 'ite':
        return I.cases(a, lambda a: compare_op(I, op, a, b, node))
    if isinstance(b, T) and b.op == 'ite':
        return I.cases(b, lambda b: compare_op(I, op, a, b, node))
    av, bv = I.is_ref(a, ViewV), I.is_ref(b, ViewV)
    if av or bv:
        if a is None or b is None:
            return ZERO if isinstance(op, ast.Eq) else ONE
        f = cmp_fun(op)
        if isinstance(a, str) or isinstance(b, str):
            return I.unknown('array compared with str', a, b)
        from . import models_np
        if isinstance(op, (ast.Eq, ast.NotEq)) and av and bv:
            x, y = I.arr(a), I.arr(b)
            if x.is_rec() and y.is_rec() and list(x.fields) == list(y.fields):
                # records are equal where all their fields are
                r = None
                for l in x.fields:
                    q = models_np.as_bool(I, elementwise(I, cmp_fun(ast.Eq()), *[I.new_arr(ArrVal(z.dims, {None: z.fields[l]}, z.filt, {}, z.order)) if z.dims else z.fields[l] for z in (x, y)]))
                    r = q if r is None else elementwise(I, mul, r, q)
                if isinstance(op, ast.NotEq):
                    r = elementwise(I, not_, r)
                return models_np.as_bool(I, r)
        return models_np.as_bool(I, elementwise(I, f, a, b))
    if isinstance(op, ast.Eq):
        return eq_val(I, a, b)
    if isinstance(op, ast.NotEq):
        return not_(eq_val(I, a, b))
    if numeric_like(a) and numeric_like(b):
        for x in (a, b):
            c = isnone(x)
            if c is not ZERO:
                I.raise_('TypeError', c, node, 'ordering comparison with None', internal=True)
        return cmp_fun(op)(as_num(a), as_num(b))
    if a is None or b is None:
        I.raise_('TypeError', ONE, node, 'ordering comparison with None', internal=True)
    if isinstance(a, tuple) and isinstance(b, tuple) and a and len(a) == len(b):
        # lexicographic
        strict = isinstance(op, (ast.Lt, ast.Gt))
        r = None
        for x, y in reversed(list(zip(a, b))):
            l = compare_op(I, ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt(), x, y, node)
            e = eq_val(I, x, y)
            r = (l if strict else or_(l, e)) if r is None else or_(l, mul(e, r))
        return r
    if isinstance(a, str) and isinstance(b, str):
        import operator
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        return ONE if f(a, b) else ZERO
    return pred('?cmp', type(op).__name__, I.freeze(a), I.freeze(b))


def cmp_fun(op):
    return {ast.Lt: lambda x, y: lt(x, y), ast.LtE: lambda x, y: le(x, y), ast.Gt: lambda x, y: lt(y, x),
            ast.GtE: lambda x, y: le(y, x), ast.Eq: lambda x, y: eq_any(x, y),
            ast.NotEq: lambda x, y: not_(eq_any(x, y))}[type(op)]


def eq_any(x, y):
    return eq_num(x, y)


def contains(I, x, c):
    c = I.unwrap(I.simp(c))
    x = I.unwrap(I.simp(x))
    if isinstance(c, T) and c.op == 'ite':
        return ite(c.args[0], contains(I, x, c.args[1]), contains(I, x, c.args[2]))
    if isinstance(c, T) and c.op == 'nt':
        c = c.args[1]
    if isinstance(c, tuple):
        r = ZERO
        for y in c:
            r = or_(r, eq_val(I, x, y))
        return r
    if isinstance(c, str):
        if isinstance(x, str):
            return ONE if x in c else ZERO
        return pred('substr', I.freeze(x), c)
    if isinstance(x, T) and x.op == 'bytes' and isinstance(c, T) and c.op == 'bytes':
        x, c = x.args[0], c.args[0]
    if isinstance(x, bytes) and isinstance(c, T) and c.op == 'bytes':
        x, c = x.decode('latin-1'), c.args[0]
        if isinstance(c, str):
            return ONE if x in c else ZERO
    if isinstance(x, str) and x and isinstance(c, T) and (c.op in ('str', 'cat') or fact(c, 'text') is True):
        ps = text.parts(c)
        if any(x in p for p in ps if isinstance(p, str)):
            return ONE
        if x == '\0' and all(isinstance(p, str) or isinstance(p, T) and p.op == 'sym' and fact(p, 'text') is True for p in ps):
            return ZERO
    if c is None:
        I.raise_('TypeError', ONE, None, "argument of type 'NoneType' is not iterable", internal=True)
    if I.is_ref(c):
        rec = I.get(c)
        if isinstance(rec, DictV):
            return dict_present(I, rec, x)
        if isinstance(rec, (ListV, GenV)):
            return contains_segs(I, x, rec.segs)
        if isinstance(rec, ViewV):
            segs = iter_segs(I, c)
            return contains_segs(I, x, segs) if segs is not None else pred('?in', I.freeze(x), I.freeze(c))
        if isinstance(rec, InstV):
            m = rec.cls.lookup('__contains__')
            if m is not None:
                return I.truth(I.call(bound(m, c), [x], {}))
    if isinstance(c, T):
        n = isnone(c)
        if n is not ZERO:
            I.raise_('TypeError', n, None, "argument of type 'NoneType' is not iterable", internal=True)
        if c.op == 'sym' and fact(c, 'kind') in ('seq', 'list', 'tuple'):
            return contains_segs(I, x, sym_segs(c))
    return pred('in', I.freeze(x), I.freeze(c))


LISTED = {}


def listed_dir(segs):
    """Directory of which a sequence is the listing."""
    if len(segs) == 1 and segs[0][0] == 'each' and len(segs[0][3]) == 1 and segs[0][3][0][0] == 'lit':
        a = segs[0][3][0][1]
        if isinstance(a, T) and a.op == 'elem' and a.args[0] in LISTED:
            return LISTED[a.args[0]]
    return None


def contains_segs(I, x, segs):
    r = ZERO
    d = listed_dir(segs)
    if d is not None and isinstance(I.freeze(x), (T, str)):
        return pred('path_exists', canon_path(EXT['os.path.join'](I, Args(I, (('lit', d), ('lit', x)), DictV({}), None, 'os.path.join'))))
    for s in segs:
        if s[0] == 'lit':
            r = or_(r, eq_val(I, x, s[1]))
        elif s[0] == 'if':
            r = or_(r, mul(s[1], contains_segs(I, x, s[2])))
        elif s[0] == 'each':
            inner = contains_segs(I, x, s[3])
            if inner is ZERO:
                continue
            if inner is ONE:
                r = or_(r, not_(cmp_eq0(s[2])))
                continue
            b, cb = canon_bind(s[1], inner)
            r = or_(r, atom(mk('pred', 'exists', b, s[2], cb)))
        else:
            r = or_(r, pred('?in', I.freeze(x)))
    return r


# ------------------------------------------------------------------ calls

def call_ext(I, f, args, kw, node):
    if isinstance(f, T) and f.op == 'ext':
        name = f.args[0]
        a = Args(I, args, kw, node, name)
        if name.startswith('builtins.'):
            n = name[9:]
            if n in BUILTINS:
                return BUILTINS[n](I, a)
            from .interp import EXC_PARENTS
            if n in EXC_PARENTS or n.endswith('Error') or n.endswith('Warning') or n == 'Exception':
                return mk('exc', n, I.freeze(tuple(a.args)) if a.args is not None else None)
        h = EXT.get(name)
        if h is None:
            from . import models_np  # noqa registers numpy
            h = EXT.get(name)
        if h is not None:
            return h(I, a)
        return opaque_call(I, name, a)
    if isinstance(f, T) and f.op == 'deco':
        return apply_deco(I, f, args)
    if isinstance(f, T) and f.op == 'partial':
        fn, pa, pk = f.args
        d = DictV({k: (v, ONE) for k, v in pk})
        d.items.update(kw.items)
        d.rest = kw.rest
        return I.call_segs(fn, [('lit', x) for x in pa] + list(args), d, node)
    a = Args(I, args, kw, node, 'call')
    return opaque_call(I, 'call of ' + show_val(f), a, f)


def opaque_call(I, name, a, recv=None):
    fz = a.frozen()
    I.emit('ext', a.node, name=name, recv=I.freeze(recv) if recv is not None else None,
           args=I.freeze_segs(a.segs), kwargs={k: I.freeze(v) for k, (v, c) in a.kwd.items.items()},
           raw=a)
    short = name if len(name) < 60 else name[:60]
    I.note('opaque call ' + short)
    return mk('app', '?call:' + short, I.freeze(recv) if recv is not None else None, fz[0], fz[1])


def apply_deco(I, f, args):
    kind, a, k = f.args
    fl = I.flat_lits(args)
    target = fl[0] if fl else None
    if isinstance(target, T) and target.op == 'func':
        fv = target.args[0]
        if fv.cli is None:
            fv.cli = []
        fv.cli.append((kind, a, dict(k)))
        if not hasattr(I, 'cli_funcs'):
            I.cli_funcs = []
        if target not in I.cli_funcs:
            I.cli_funcs.append(target)
        return target
    return target


def deco(kind, I, a, parent=None):
    return mk('deco', kind, tuple(a.args or ()), tuple(sorted(a.kw.items())) + ((('#parent', parent),) if parent is not None else ()))


@model('click.option')
def _(I, a):
    return deco('option', I, a)


@model('click.argument')
def _(I, a):
    return deco('argument', I, a)


@model('click.group')
def _(I, a):
    return deco('group', I, a)


@model('click.command')
def _(I, a):
    return deco('command', I, a)


@model('click.version_option', 'click.help_option')
def _(I, a):
    return deco('other', I, a)


@model('click.Choice', 'click.IntRange', 'click.Path', 'click.FloatRange', 'click.File', 'click.Tuple')
def _(I, a):
    return mk('clicktype', a.name.split('.')[-1], tuple(I.freeze(x) for x in a.args), tuple(sorted((k, I.freeze(v)) for k, v in a.kw.items())))


@model('functools.wraps')
def _(I, a):
    return mk('deco', 'wraps', (), ())


@model('functools.partial')
def _(I, a):
    return mk('partial', a.args[0], tuple(a.args[1:]), tuple(sorted(a.kw.items())))


@model('collections.namedtuple')
def _(I, a):
    name, fields = a.args[0], a.args[1]
    if isinstance(fields, str):
        fs = fields.replace(',', ' ').split()
    else:
        fs = I.flat_lits(iter_segs(I, fields))
    cv = ClassVal(name, I.frames[-1].module, [], {}, I.frames[-1].module + '.' + name)
    cv.fields = list(fs)
    return cls(cv)


@model('collections.OrderedDict', 'builtins.dict', 'collections.defaultdict')
def _dict(I, a):
    r = I.alloc(DictV({}))
    args = a.args or []
    if a.name.endswith('defaultdict'):
        args = args[1:]
    if args:
        dict_update(I, r, args[0])
    for k, (v, c) in a.kwd.items.items():
        I.w(r).items[k] = (v, c)
    return r


BUILTINS['dict'] = _dict


@builtin_model('print')
def _(I, a):
    I.emit('print', a.node, args=I.freeze_segs(a.segs))
    return None


@builtin_model('len')
def _(I, a):
    return length(I, a.args[0], a.node)


def length(I, v, node=None):
    v = I.unwrap(I.simp(v))
    if isinstance(v, (tuple, str)):
        return num(len(v))
    if isinstance(v, T) and v.op == 'ite':
        return I.cases(v, lambda v: length(I, v, node))
    if isinstance(v, T) and v.op == 'nt':
        return num(len(v.args[1]))
    if isinstance(v, T) and v.op == 'bytes':
        return text.length(v.args[0])
    if isinstance(v, T) and v.op == 'str':
        return text.length(v)
    if isinstance(v, T) and v.op == 'dtype' and v.args[0] != 'unknown':
        return num(len(v.args[1])) if v.args[0] == 'rec' else ZERO
    if v is None:
        I.raise_('TypeError', ONE, node, "object of type 'NoneType' has no len()", internal=True)
    if I.is_ref(v):
        rec = I.get(v)
        if isinstance(rec, ListV):
            if rec.kind == 'set':
                fl = I.flat_lits(rec.segs)
                if fl and all(x is fl[0] for x in fl):
                    return ONE
                if fl is None or not all(is_const_key(x) or isinstance(x, T) and x.op == 'mod' for x in fl):
                    return atom(mk('app', 'nunique', I.freeze(v)))
                return num(len(set(fl)))
            return I.seg_len(rec.segs)
        if isinstance(rec, DictV):
            n = ZERO
            for k, (x, c) in rec.items.items():
                n = add(n, c)
            for e in rec.each:
                n = add(n, e[1] if e[0] != 'nest' else e[3])
            if rec.rest is not None:
                n = add(n, atom(mk('app', 'len', rec.rest)))
            return n
        if isinstance(rec, ViewV):
            from . import models_np
            return models_np.arr_len(I, v)
        if isinstance(rec, InstV):
            m = rec.cls.lookup('__len__')
            if m is not None:
                return I.call(bound(m, v), [], {}, node)
        if isinstance(rec, GenV):
            I.raise_('TypeError', ONE, node, "object of type 'generator' has no len()", internal=True)
    if isinstance(v, T):
        t = single_atom(v) if v.op == 'num' else v
        if t is not None and t.op == 'sym' and fact(t, 'kind') in ('seq', 'list', 'tuple'):
            c = isnone(t)
            if c is not ZERO:
                I.raise_('TypeError', c, node, "object of type 'NoneType' has no len()", internal=True)
            return sym_segs(t)[0][2]
        if v.op == 'num' and not I._opaque(v):
            I.raise_('TypeError', ONE, node, 'numeric object has no len()', internal=True)
        return atom(mk('app', 'len', t if t is not None else v))
    return I.unknown('len')


@builtin_model('range')
def _(I, a):
    args = [as_num(I.unwrap(x)) for x in a.args]
    for x in args:
        c = isnone(x)
        if c is not ZERO:
            I.raise_('TypeError', c, a.node, 'None in range()', internal=True)
    lo, hi, st = ZERO, None, ONE
    if len(args) == 1:
        hi = args[0]
    else:
        lo, hi = args[0], args[1]
        if len(args) > 2:
            st = args[2]
    cl, ch, cs = const_value(lo), const_value(hi), const_value(st)
    if None not in (cl, ch, cs) and cs != 0 and len(range(int(cl), int(ch), int(cs))) <= I.unroll:
        return I.list_of([num(x) for x in range(int(cl), int(ch), int(cs))])
    n = ceil(div(sub(hi, lo), st))
    n = minmax('max', ZERO, n)
    k, n = new_axis(n, 'k')
    return I.new_list((('each', k, n, (('lit', add(lo, mul(st, atom(k)))),)),), 'range')


@builtin_model('enumerate')
def _(I, a):
    start = as_num(a.get(1, 'start', ZERO))
    segs = iter_segs(I, a.args[0])
    if segs is None:
        k, size = new_axis(atom(fresh('?n', int=True, nonneg=True, kind='num')), 'k')
        segs = (('each', k, size, (('lit', I.unknown('item', a.args[0], atom(k))),)),)
    out = []
    pos = start
    for s in segs:
        if s[0] == 'lit':
            out.append(('lit', (pos, s[1])))
            pos = add(pos, ONE)
        elif s[0] == 'each' and I.seg_len(s[3]) is ONE:
            fl = I.flat_lits(s[3])
            v = fl[0] if fl else I.seg_index(s[3], ZERO, check=False)
            out.append(('each', s[1], s[2], (('lit', (add(pos, atom(s[1])), v)),)))
            pos = add(pos, s[2])
        elif s[0] == 'if':
            out.append(('if', s[1], map_segs(s[2], lambda v, p=pos: (p, v))))
            if I.seg_len(s[2]) is not ONE:
                I.note('enumerate over conditional block')
            pos = add(pos, mul(s[1], I.seg_len(s[2])))
        elif s[0] == 'each':
            # filtered elements: the position counts the selected ones before
            inner = s[3]
            k = s[1]
            ln = I.seg_len(inner)
            if k in syms(ln):
                p = add(pos, rsum((k,), (atom(k),), ln))
            else:
                p = add(pos, mul(ln, atom(k)))
            cnt = [p]

            def go(segs2):
                o = []
                for t in segs2:
                    if t[0] == 'lit':
                        o.append(('lit', (cnt[0], t[1])))
                        cnt[0] = add(cnt[0], ONE)
                    elif t[0] == 'if':
                        save = cnt[0]
                        r = go(t[2])
                        o.append(('if', t[1], r))
                        cnt[0] = add(save, mul(t[1], I.seg_len(t[2])))
                    elif t[0] == 'each':
                        base = cnt[0]
                        l2 = I.seg_len(t[3])
                        cnt[0] = add(base, mul(l2, atom(t[1]))) if t[1] not in syms(l2) else add(base, rsum((t[1],), (atom(t[1]),), l2))
                        r = go(t[3])
                        o.append(('each', t[1], t[2], r))
                        cnt[0] = add(base, I.seg_len((t,)))
                return tuple(o)
            out.append(('each', k, s[2], go(inner)))
            pos = add(pos, I.seg_len((s,)))
        else:
            I.note('enumerate')
    return I.alloc(GenV(tuple(out), ZERO))


@builtin_model('zip')
def _(I, a):
    if a.args is None:
        # zip(*list of rows)
        return zip_star(I, a)
    if not a.args:
        return I.alloc(GenV((), ZERO))
    lists = []
    for x in a.args:
        s = iter_segs(I, x)
        if s is None:
            k, size = new_axis(atom(fresh('?n', int=True, nonneg=True, kind='num')), 'k')
            s = (('each', k, size, (('lit', I.unknown('item', x, atom(k))),)),)
        lists.append(s)
    return I.alloc(GenV(zip_segs(I, lists), ZERO))


def zip_star(I, a):
    segs = a.segs
    # transpose of a generic list of equally long rows
    if len(segs) == 1 and segs[0][0] == 'each':
        _, k, size, inner = segs[0]
        fl = I.flat_lits(inner)
        if fl is not None and len(fl) == 1:
            rows = iter_segs(I, fl[0])
            flat = I.flat_lits(rows) if rows is not None else None
            if flat is not None:
                return I.alloc(GenV(tuple(('lit', I.new_list((('each', k, size, (('lit', x),)),), 'tuple')) for x in flat), ZERO))
    return I.unknown('zip(*)', mk('segs', I.freeze_segs(segs)))


@builtin_model('next')
def _(I, a):
    return I.cases(a.args[0], lambda g: do_next(I, g, a))


def do_next(I, g, a):
    if I.is_ref(g, GenV):
        rec = I.get(g)
        n = I.seg_len(rec.segs)
        c = I.truth(lt(rec.pos, n))
        if n is INF or _inf(n):
            c = ONE
        if c is not ONE:
            if len(a.args) > 1:
                pos = rec.pos

                def yes():
                    I.put(g, GenV(rec.segs, add(pos, ONE)))
                    return I.seg_index(rec.segs, pos, check=False)
                return I.branch(c, yes, lambda: a.args[1])
            I.raise_('StopIteration', not_(c), a.node)
        I.put(g, GenV(rec.segs, add(rec.pos, ONE)))
        return I.seg_index(rec.segs, rec.pos, check=False)
    if I.is_ref(g, FileV):
        return mk('app', 'line', I.freeze(I.get(g).path), fresh('l'))
    if I.is_ref(g, (ListV, DictV, ViewV)) or isinstance(g, tuple) or g is None or (
            isinstance(g, T) and g.op == 'num' and not I._opaque(g)):
        I.raise_('TypeError', ONE, a.node, 'object is not an iterator', internal=True)
    return I.unknown('next', g)


def _inf(n):
    return any(s is single_atom(INF) for s in syms(n))


@builtin_model('iter')
def _(I, a):
    def go(v):
        if I.is_ref(v, GenV):
            return v
        s = iter_segs(I, v)
        return I.alloc(GenV(s, ZERO)) if s is not None else I.unknown('iter', v)
    return I.cases(a.args[0], go)


def backwards(I, segs):
    out = []
    for s in reversed(segs):
        if s[0] == 'each':
            k2, s2 = new_axis(s[2], 'k')
            inner = I.inst_segs(s[3], s[1], sub(sub(s[2], ONE), atom(k2)))
            out.append(('each', k2, s2, backwards(I, inner)))
        elif s[0] == 'if':
            out.append(('if', s[1], backwards(I, s[2])))
        else:
            out.append(s)
    return tuple(out)


@builtin_model('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed')
def _(I, a):
    kind = a.name.split('.')[-1]
    if a.args is not None and not a.args:
        if kind == 'tuple':
            return ()
        return I.new_list((), 'set' if kind in ('set', 'frozenset') else 'list')

    def go(v):
        segs = iter_segs(I, v)
        if segs is None:
            k, size = new_axis(atom(mk('app', 'len', I.freeze(v))), 'k')
            segs = (('each', k, size, (('lit', I.unknown('item', v, atom(k))),)),)
        segs = tuple(segs)
        flat = I.flat_lits(segs)
        if kind == 'tuple' and flat is not None:
            return tuple(flat)
        if kind in ('set', 'frozenset'):
            if flat is not None and all(is_const_key(x) for x in flat):
                u = []
                for x in flat:
                    if x not in u:
                        u.append(x)
                return I.new_list([('lit', x) for x in u], 'set')
            return I.new_list(segs, 'set')
        if kind == 'reversed':
            if flat is not None:
                return I.alloc(GenV(tuple(('lit', x) for x in reversed(flat)), ZERO))
            return I.alloc(GenV(backwards(I, segs), ZERO))
        if kind == 'sorted':
            key = a.get(None, 'key')
            rev = a.get(None, 'reverse', ZERO)
            if flat is not None:
                keys = [I.call(key, [x], {}, a.node) if key is not None else x for x in flat]
                cv = [const_value(x) if isinstance(x, T) and x.op == 'num' else x for x in keys]
                if all(isinstance(x, str) for x in cv) or all(not isinstance(x, T) and x is not None for x in cv) and not any(isinstance(x, tuple) for x in cv):
                    order = sorted(range(len(flat)), key=lambda n: cv[n], reverse=(rev is ONE))
                    return I.list_of([flat[n] for n in order])
            return I.alloc(ListV((('each',) + _opaque_each(I, 'sorted', v),), 'list'))
        return I.new_list(segs, 'list' if kind == 'list' else kind)
    return I.cases(a.args[0], go)


def _opaque_each(I, what, v):
    fz = I.freeze(v)
    k, size = new_axis(length(I, v) if I.is_ref(v, (ListV, ViewV)) else atom(mk('app', 'len', fz)), 'k')
    return k, size, (('lit', atom(mk('app', what, fz, atom(k)))),)


@builtin_model('map', 'filter')
def _(I, a):
    f = a.args[0]
    if a.name.endswith('filter'):
        segs = iter_segs(I, a.args[1])
        if segs is None:
            return I.unknown('filter')
        return I.alloc(GenV(filter_segs(I, segs, lambda x: I.truth(I.call(f, [x], {}, a.node) if f is not None else x)), ZERO))
    lists = [iter_segs(I, x) for x in a.args[1:]]
    if any(l is None for l in lists):
        return I.unknown('map')
    segs = zip_segs(I, lists)
    return run_map(I, segs, lambda v: I.call(f, list(v), {}, a.node), a.node)


def run_map(I, segs, f, node):
    from .interp import Loop
    out = I.new_list(())

    def body(v):
        x = f(v)
        rec = I.w(out)
        rec.segs = rec.segs + (('lit', x),)
    I.iterate(segs, body, Loop(None, None, None, node), node)
    if I.st.dead:
        raise Dead()
    return I.alloc(GenV(I.get(out).segs, ZERO))


@builtin_model('min', 'max')
def _(I, a):
    kind = a.name.split('.')[-1]
    key = a.get(None, 'key')
    vals = a.args
    if vals is not None and len(vals) == 1:
        def go(v):
            segs = iter_segs(I, v)
            if segs is None:
                return atom(mk('app', 'r' + kind, I.freeze(v)))
            return reduce_segs(I, kind, segs, a, key)
        return I.cases(vals[0], go)
    if vals is None:
        return reduce_segs(I, kind, a.segs, a, key)
    for x in vals:
        c = isnone(x) if isinstance(x, T) or x is None else ZERO
        if c is not ZERO:
            I.raise_('TypeError', c, a.node, 'ordering comparison with None', internal=True)
    if key is not None:
        return pick_by_key(I, kind, vals, key, a.node)
    if any(I.is_ref(x) for x in vals):
        if any(I.is_ref(x, ViewV) for x in vals):
            return elementwise(I, lambda *b: minmax(kind, *b), *vals)
        return I.unknown(kind, *vals)
    if any(isinstance(x, (str, tuple)) for x in vals):
        return I.unknown(kind, *vals)
    return minmax(kind, *[as_num(x) for x in vals])


def pick_by_key(I, kind, vals, key, node):
    best = vals[0]
    bk = I.call(key, [best], {}, node)
    for v in vals[1:]:
        k = I.call(key, [v], {}, node)
        c = I.truth(lt(as_num(k), as_num(bk)) if kind == 'min' else lt(as_num(bk), as_num(k)))
        best = I.join(c, v, best)
        bk = I.join(c, k, bk)
    return best


def reduce_segs(I, kind, segs, a, key=None):
    flat = I.flat_lits(segs)
    if flat is not None:
        if not flat:
            d = a.get(None, 'default', ABSENT)
            if d is not ABSENT:
                return d
            I.raise_('ValueError', ONE, a.node, '%s() of an empty sequence' % kind, internal=True)
        if key is not None:
            return pick_by_key(I, kind, flat, key, a.node)
        if any(I.is_ref(x) or isinstance(x, (str, tuple)) for x in flat):
            return I.unknown(kind, *flat)
        return minmax(kind, *[as_num(x) for x in flat])
    if key is not None:
        fz = mk('segs', I.freeze_segs(segs))
        k = I.call(key, [I.seg_index(segs, atom(fresh('q', int=True, nonneg=True, kind='num')), check=False)], {}, a.node)
        I.note('min/max with key')
        return mk('app', '?%skey' % kind, fz, I.freeze(key))
    outs = []
    for s in segs:
        o = reduce_one(I, kind, s)
        if o is None:
            return atom(mk('app', '?' + kind, mk('segs', I.freeze_segs(segs))))
        outs.append(o)
    return minmax(kind, *outs)


def reduce_one(I, kind, s):
    if s[0] == 'lit':
        return as_num(s[1]) if not isinstance(s[1], (str, tuple)) and not I.is_ref(s[1]) else None
    if s[0] == 'each':
        outs = [reduce_one(I, kind, x) for x in s[3]]
        if any(o is None for o in outs):
            return None
        b = minmax(kind, *outs)
        k, size = s[1], s[2]
        arr = ArrVal((((k, size),),), {None: b})
        return A.reduce_minmax(kind, arr)
    return None


@builtin_model('sum')
def _(I, a):
    start = a.get(1, 'start', ZERO)

    def go(v):
        segs = iter_segs(I, v)
        if segs is None:
            return atom(mk('app', '?sum', I.freeze(v)))
        if segs and all(s[0] == 'lit' for s in segs) and any(I.is_ref(s[1]) for s in segs):
            r = start
            for s in segs:
                r = I.binop(ast.Add(), r, s[1], I.node)
            return r
        return add(as_num(start), sum_segs(I, segs))
    return I.cases(a.args[0], go)


def sum_segs(I, segs):
    r = ZERO
    for s in segs:
        if s[0] == 'lit':
            if I.is_ref(s[1]):
                return I.unknown('sum of objects')
            r = add(r, as_num(s[1]))
        elif s[0] == 'if':
            r = add(r, mul(s[1], sum_segs(I, s[2])))
        elif s[0] == 'each':
            r = add(r, rsum((s[1],), (s[2],), sum_segs(I, s[3])))
        else:
            r = add(r, atom(mk('app', '?sum')))
    return r


@builtin_model('any', 'all')
def _(I, a):
    kind = a.name.split('.')[-1]

    def go(v):
        segs = iter_segs(I, v)
        if segs is None:
            return pred('?' + kind, I.freeze(v))
        return anyall(I, kind, segs)
    return I.cases(a.args[0], go)


def anyall(I, kind, segs):
    """any/all of segments."""
    def cond(v):
        c = I.truth(v)
        return c if kind == 'any' else not_(c)

    def go(segs):
        r = ZERO
        for s in segs:
            if s[0] == 'lit':
                r = or_(r, cond(s[1]))
            elif s[0] == 'if':
                r = or_(r, mul(s[1], go(s[2])))
            elif s[0] == 'each':
                inner = go(s[3])
                r = or_(r, exists(s[1], s[2], inner))
        return r
    r = go(segs)
    return r if kind == 'any' else not_(r)



def exists(k, size, c):
    """Whether c holds for some k < size."""
    if c is ZERO:
        return ZERO
    if k not in syms(c):
        return mul(c, not_(cmp_eq0(size)))
    sa = single_atom(as_num(size))
    if sa is not None and sa in subterm_atoms(c):
        # counted from the other end, where that is simpler
        r = subst(c, {k: sub(sub(size, ONE), atom(k))})
        if occurrences(r, sa) < occurrences(c, sa):
            c = r
    b, cb = canon_bind(k, c)
    return atom(mk('pred', 'exists', b, size, cb))


@builtin_model('int')
def _(I, a):
    if not a.args:
        return ZERO

    def go(v):
        v = I.unwrap(v)
        if isinstance(v, str):
            try:
                return num(int(v))
            except ValueError:
                I.raise_('ValueError', ONE, a.node, 'invalid literal for int()')
        if v is None or isinstance(v, tuple):
            I.raise_('TypeError', ONE, a.node, 'int() argument must be a number', internal=True)
        if is_str(v):
            n = text.number(v, 'int')
            if n is not None:
                return n
            if I.try_names:
                I.raise_('ValueError', pred('notint', v), a.node)
            return atom(mk('app', 'int', v))
        if I.is_ref(v, ViewV):
            from . import models_np
            s = models_np.scalar(I, v)
            if s is not None:
                exact(I, a.node, s)
            return trunc(s) if s is not None else I.unknown('int', v)
        if isinstance(v, T):
            c = isnone(v)
            if c is not ZERO:
                I.raise_('TypeError', c, a.node, 'int() argument must be a number, not None', internal=True)
            if v.op == 'num':
                exact(I, a.node, v)
                return trunc(v)
        return atom(mk('app', 'int', I.freeze(v)))
    return I.cases(a.args[0], go)


@builtin_model('float')
def _(I, a):
    def go(v):
        v = I.unwrap(v)
        if isinstance(v, str):
            try:
                return num(float(v))
            except ValueError:
                I.raise_('ValueError', ONE, a.node, 'could not convert string to float')
        if v is None or isinstance(v, tuple):
            I.raise_('TypeError', ONE, a.node, 'float() argument must be a number', internal=True)
        if I.is_ref(v, ViewV):
            from . import models_np
            s = models_np.scalar(I, v)
            return s if s is not None else I.unknown('float', v)
        if is_str(v):
            n = text.number(v, 'float')
            if n is not None:
                return n
            if I.try_names:
                I.raise_('ValueError', pred('notfloat', v), a.node)
            return atom(mk('app', 'float', v))
        if isinstance(v, T) and v.op == 'num':
            c = isnone(v)
            if c is not ZERO:
                I.raise_('TypeError', c, a.node, 'float() argument must be a number, not None', internal=True)
            return v
        return atom(mk('app', 'float', I.freeze(v)))
    return I.cases(a.args[0], go)


@builtin_model('bool')
def _(I, a):
    return I.truth(a.args[0])


@builtin_model('str', 'repr')
def _(I, a):
    if not a.args:
        return ''
    if a.name.endswith('repr') and isinstance(a.args[0], str):
        return repr(a.args[0])
    return to_str(I, a.args[0])


@builtin_model('abs')
def _(I, a):
    def go(v):
        if I.is_ref(v, ViewV):
            return elementwise(I, absval, v)
        c = isnone(v) if isinstance(v, T) or v is None else ZERO
        if c is not ZERO:
            I.raise_('TypeError', c, a.node, 'bad operand type for abs(): None', internal=True)
        return absval(as_num(v))
    return I.cases(a.args[0], go)


@builtin_model('round')
def _(I, a):
    nd = a.get(1, 'ndigits')
    v = a.args[0]
    if nd is None or nd is ZERO:
        return round_(as_num(v)) if not I.is_ref(v) else elementwise(I, round_, v)
    return roundn(as_num(v), as_num(nd))


@builtin_model('pow')
def _(I, a):
    return power(as_num(a.args[0]), a.args[1])


@builtin_model('divmod')
def _(I, a):
    q = floor(div(as_num(a.args[0]), as_num(a.args[1])))
    return (q, sub(as_num(a.args[0]), mul(q, as_num(a.args[1]))))


@builtin_model('isinstance', 'issubclass', 'callable', 'hasattr')
def _(I, a):
    nm = a.name.split('.')[-1]
    v = I.unwrap(a.args[0])
    if nm == 'isinstance' and len(a.args) > 1:
        def types(t):
            if isinstance(t, tuple):
                return [y for x in t for y in types(x)]
            return [t.args[0].split('.')[-1]] if isinstance(t, T) and t.op == 'ext' else ['?']
        ts = types(a.args[1])
        if '?' not in ts:
            mine = None
            if isinstance(v, str):
                mine = 'str'
            elif isinstance(v, tuple):
                mine = 'tuple'
            elif v is None:
                mine = 'NoneType'
            elif I.is_ref(v, ListV):
                mine = I.get(v).kind
            elif I.is_ref(v, DictV):
                mine = 'dict'
            elif I.is_ref(v, ViewV):
                mine = 'ndarray'
            elif is_str(v):
                mine = 'str'
            if mine:
                return ONE if mine in ts else ZERO
    if nm == 'callable' and isinstance(v, T) and v.op in ('func', 'class', 'bound', 'ext'):
        return ONE
    if nm == 'hasattr' and isinstance(v, T) and v.op == 'func' and isinstance(a.args[1], str):
        return ONE if a.args[1] in I.get(func_cell(I, v.args[0])).attrs else ZERO
    return pred(nm, I.freeze(v), I.freeze(a.args[1]) if len(a.args) > 1 else None)


@builtin_model('type')
def _(I, a):
    v = I.unwrap(a.args[0])
    if I.is_ref(v, InstV):
        return cls(I.get(v).cls)
    if v is None:
        return ext('builtins.NoneType')
    if is_str(v):
        return ext('builtins.str')
    if isinstance(v, tuple):
        return ext('builtins.tuple')
    for C, n in ((ListV, 'list'), (DictV, 'dict')):
        if I.is_ref(v, C):
            return ext('builtins.' + n)
    if I.is_ref(v, ViewV):
        return ext('numpy.ndarray')
    return mk('type', I.freeze(v))


@builtin_model('getattr')
def _(I, a):
    if isinstance(a.args[1], str):
        if len(a.args) > 2:
            o = I.unwrap(a.args[0])
            if isinstance(o, T) and o.op == 'func':
                at = I.get(func_cell(I, o.args[0])).attrs
                return at.get(a.args[1], a.args[2])
            if I.is_ref(o, InstV):
                if a.args[1] in I.get(o).attrs or I.get(o).cls.lookup(a.args[1]) is not None or I.get(o).cls.prop(a.args[1]):
                    return I.getattr(o, a.args[1])
                return a.args[2]
        return I.cases(a.args[0], lambda o: I.getattr(o, a.args[1], a.node))
    return I.unknown('getattr', *a.args)


@builtin_model('setattr')
def _(I, a):
    if isinstance(a.args[1], str):
        I.setattr(a.args[0], a.args[1], a.args[2])
        return None
    I.note('setattr with unknown name')
    return None


@builtin_model('slice')
def _(I, a):
    v = list(a.args)
    if len(v) == 1:
        v = [None, v[0], None]
    while len(v) < 3:
        v.append(None)
    return mk('slice', *v)


@builtin_model('super')
def _(I, a):
    return I.unknown('super')


@builtin_model('open')
def _(I, a):
    path = I.freeze(a.args[0])
    mode = a.get(1, 'mode', 'r')
    I.file_seq += 1
    oscatch(I, 'open', path, a.node)
    f = I.alloc(FileV(a.args[0], mode))
    if isinstance(mode, T) and mode.op == 'ite':
        # one event for every mode
        for c, m in value_cases(mode):
            I.emit('open', a.node, path=path, mode=m, fileref=f, rawpath=a.args[0])
            e = I.trace[-1] if I.trace else None
            if e is not None and e.kind == 'open' and not I.quiet:
                e.guard = mul(e.guard, c)
        return f
    I.emit('open', a.node, path=path, mode=mode, fileref=f, rawpath=a.args[0])
    return f


def value_cases(v):
    """((condition, value), ...) of a value with cases."""
    if isinstance(v, T) and v.op == 'ite':
        c = v.args[0]
        return ([(mul(c, d), x) for d, x in value_cases(v.args[1])] + [(mul(not_(c), d), x) for d, x in value_cases(v.args[2])])
    return [(ONE, v)]


OSNAMES = ('OSError', 'IOError', 'PermissionError', 'FileNotFoundError', 'EnvironmentError', 'Exception', '*', 'BaseException')


def oscatch(I, what, path, node):
    """The operation may fail with an OSError when somebody handles that."""
    names = [n for ns in I.try_names for n in ns if n in OSNAMES]
    if not names:
        return
    spec = [n for n in names if n in ('PermissionError', 'FileNotFoundError')]
    exc = spec[-1] if spec else 'OSError'
    I.raise_(exc, pred('fails', what, path if isinstance(path, (T, str)) else I.freeze(path), I.file_seq), node)


# ----------------------------------------------------------------- methods

def call_method(I, o, name, args, kw, node):
    o = I.unwrap(o)
    if isinstance(o, T) and o.op == 'py':
        o = o.args[0]
    a = Args(I, args, kw, node, name if isinstance(name, str) else '?')
    if isinstance(o, str) or is_str(o):
        return str_method(I, o, name, a)
    if isinstance(o, T) and o.op == 'bytes':
        return bytes_method(I, o, name, a)
    if isinstance(o, tuple):
        if name == 'index':
            x = a.args[0]
            r = None
            for n, y in reversed(list(enumerate(o))):
                c = eq_val(I, x, y)
                r = num(n) if r is None and c is ONE else (r if c is ZERO else (I.join(c, num(n), r) if r is not None else num(n)))
            c = contains(I, x, o)
            I.raise_('ValueError', not_(c), node)
            return r if r is not None else ZERO
        if name == 'count':
            r = ZERO
            for y in o:
                r = add(r, eq_val(I, a.args[0], y))
            return r
    if I.is_ref(o):
        rec = I.get(o)
        if isinstance(rec, ListV):
            return list_method(I, o, rec, name, a)
        if isinstance(rec, DictV):
            return dict_method(I, o, rec, name, a)
        if isinstance(rec, ViewV):
            from . import models_np
            return models_np.arr_method(I, o, name, a)
        if isinstance(rec, FileV):
            return file_method(I, o, rec, name, a)
        if isinstance(rec, GenV):
            if name in ('__next__',):
                return do_next(I, o, a)
            if name == 'close':
                return None
    if isinstance(o, T) and o.op == 'nt':
        cv, items = o.args
        if name == '_replace':
            items = list(items)
            for k, v in a.kw.items():
                items[cv.fields.index(k)] = v
            return nt(cv, items)
        if name == '_asdict':
            return I.new_dict(dict(zip(cv.fields, items)))
    if isinstance(o, T) and o.op == 'class' and name == '_make':
        return I.instantiate(o.args[0], iter_segs(I, a.args[0]), DictV({}), node)
    if isinstance(o, T) and o.op == 'func' and name in ('command', 'group'):
        return deco(name, I, a, o)
    if isinstance(o, T) and o.op == 'dtype':
        return I.unknown('dtype method')
    if isinstance(o, T) and o.op == 'num' and name in ('all', 'any', 'item', 'min', 'max', 'sum', 'mean', 'astype', 'copy', 'round', 'tolist', 'ravel', 'squeeze'):
        if name == 'round':
            return BUILTINS['round'](I, Args(I, [('lit', o)] + list(args), kw, node, 'round'))
        return o
    if isinstance(o, T) and o.op == 'bound':
        # attribute chain of an opaque object
        return opaque_call(I, '.'.join([str(o.args[0]), str(name)]), a, o.args[1])
    h = EXT.get('.' + str(name))
    if h is not None:
        r = h(I, o, a)
        if r is not NotImplemented:
            return r
    return opaque_call(I, '.' + str(name), a, o)


def str_method(I, o, name, a):
    args = a.args or []
    if isinstance(o, T) and o.op == 'str':
        r = text_method(I, o, name, a)
        if r is not NotImplemented:
            return r
    if isinstance(o, str) and all(isinstance(x, str) or (isinstance(x, T) and const_value(x) is not None) for x in args):
        py = [x if isinstance(x, str) else int(const_value(x)) for x in args]
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'ljust', 'rjust',
                    'center', 'zfill', 'expandtabs', 'swapcase'):
            return getattr(o, name)(*py)
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace'):
            return ONE if getattr(o, name)(*py) else ZERO
        if name in ('find', 'index', 'count', 'rfind'):
            return num(getattr(o, name)(*py))
        if name in ('split', 'rsplit', 'splitlines'):
            return I.list_of(getattr(o, name)(*py))
        if name in ('partition', 'rpartition'):
            return tuple(getattr(o, name)(*py))
    if name == 'encode':
        return mk('bytes', o)
    if name == 'join':
        def go(v):
            segs = iter_segs(I, v)
            fl = I.flat_lits(segs) if segs is not None else None
            if fl is not None:
                r = ''
                for n, x in enumerate(fl):
                    if n:
                        r = str_cat(r, o)
                    r = str_cat(r, x)
                return r
            return mk('app', 'strjoin', o, I.freeze(v) if segs is None else mk('segs', I.freeze_segs(segs)))
        return I.cases(args[0], go)
    if name == 'format':
        if isinstance(o, str):
            return str_format_method(I, o, a)
    if name in ('startswith', 'endswith'):
        x = args[0]
        if isinstance(x, tuple):
            r = ZERO
            for y in x:
                r = or_(r, str_test(I, name, o, y))
            return r
        return str_test(I, name, o, x)
    if name in ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'replace', 'title'):
        return mk('app', name, o, *[I.freeze(x) for x in args])
    if name in ('split', 'splitlines', 'rsplit'):
        s = mk('app', 'split' if name != 'splitlines' else 'splitlines', o, *[I.freeze(x) for x in args])
        k, size = new_axis(atom(mk('app', 'len', s)), 'w')
        return I.new_list((('each', k, size, (('lit', mk('app', 'word', s, atom(k))),)),))
    if name in ('find', 'index', 'count', 'rfind'):
        return atom(mk('app', 'str' + name, I.freeze(o), *[I.freeze(x) for x in args]))
    if name in ('isdigit', 'isalpha', 'isspace', 'isnumeric'):
        return pred(name, I.freeze(o))
    if name == 'decode':
        return o
    import builtins
    if not hasattr(str, name):
        I.raise_('AttributeError', ONE, a.node, "'str' object has no attribute '%s'" % name, internal=True)
    return mk('app', '?str.' + name, I.freeze(o), *[I.freeze(x) for x in args])


def str_test(I, name, o, x):
    if isinstance(o, T) and o.op == 'str' and isinstance(x, str):
        p = o.args[0][0] if name == 'startswith' else o.args[0][-1]
        if isinstance(p, str):
            if len(p) >= len(x):
                return ONE if getattr(p, name)(x) else ZERO
            if not (x.startswith(p) if name == 'startswith' else x.endswith(p)):
                return ZERO
    if isinstance(o, T) and o.op == 'ite':
        return ite(o.args[0], str_test(I, name, o.args[1], x), str_test(I, name, o.args[2], x))
    if isinstance(o, str) and isinstance(x, str):
        return ONE if getattr(o, name)(x) else ZERO
    return pred(name, I.freeze(o), I.freeze(x))


def str_format_method(I, o, a):
    out = ''
    i = 0
    pos = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(![rs])?(:[^{}]*)?\}', o):
        out = str_cat(out, o[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out = str_cat(out, m.group(0)[0])
            continue
        key = m.group(1)
        if key == '':
            v = a.args[i] if a.args is not None and i < len(a.args) else ABSENT
            i += 1
        elif key.isdigit():
            v = a.args[int(key)] if a.args is not None and int(key) < len(a.args) else ABSENT
        else:
            v = a.kw.get(key, ABSENT)
        if v is ABSENT:
            if a.args is None or not key.isidentifier() and key != '':
                v = I.unknown('format arg ' + key)
            else:
                I.raise_('IndexError', ONE, a.node, 'replacement index out of range', internal=True)
        spec = m.group(3)[1:] if m.group(3) else ''
        out = str_cat(out, fmt_value(I, ('%' + spec) if spec and spec[-1] in 'dfgesx' and '%' not in spec else (spec or '%s'), v))
    return str_cat(out, o[pos:])


def text_method(I, o, name, a):
    """Methods of texts with symbolic parts."""
    args = a.args or []
    s = args[0] if args else None
    if isinstance(s, T) and s.op == 'bytes':
        s = s.args[0]
    if name in ('find', 'index') and len(args) == 1 and isinstance(s, str):
        r = text.find(o, s)
        if r is not None:
            return r
    if name == 'splitlines' and not args:
        r = text.splitlines(o)
        if r is not None:
            return I.list_of(r)
    if name == 'split' and s == '\n' and len(args) == 1:
        r = text.splitlines(o)
        if r is not None:
            return I.list_of(r + ([''] if str(text.parts(o)[-1]).endswith('\n') else []))
    if name == 'split' and s is None:
        mx = a.get(1, 'maxsplit')
        c = const_value(as_num(mx)) if mx is not None else -1
        if c is not None:
            r = text.words(o) if c < 0 else text.split_max(o, int(c))
            if r is not None:
                return I.list_of(r)
    if name in ('strip', 'lstrip', 'rstrip') and s is None:
        ps = text.parts(o)
        if name != 'rstrip' and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip()
        if name != 'lstrip' and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip()
        if all(text.numeric_fmt(p) or isinstance(p, str) for p in ps):
            return text.join([p for p in ps if p != ''])
    return NotImplemented


def bytes_method(I, o, name, a):
    if name == 'decode':
        return o.args[0]
    if isinstance(o.args[0], T) and o.args[0].op == 'str' and name in ('find', 'index'):
        r = text_method(I, o.args[0], name, a)
        if r is not NotImplemented:
            return r
    if isinstance(o.args[0], T) and name in ('find', 'index') and isinstance(a.args[0], T) and a.args[0].op == 'bytes':
        r = text.find(o.args[0], a.args[0].args[0]) if isinstance(a.args[0].args[0], str) else None
        if r is not None:
            return r
    if name in ('split', 'splitlines', 'strip', 'startswith') and isinstance(o.args[0], (T, str)):
        if name == 'startswith':
            x = a.args[0]
            xs = x if isinstance(x, tuple) else (x,)
            if all(isinstance(y, T) and y.op == 'bytes' and isinstance(y.args[0], str) for y in xs):
                r = ZERO
                for y in xs:
                    r = or_(r, str_test(I, name, o.args[0], y.args[0]))
                return r
    if isinstance(o.args[0], str) and name in ('find', 'startswith', 'count'):
        x = a.args[0]
        if isinstance(x, T) and x.op == 'bytes' and isinstance(x.args[0], str):
            r = getattr(o.args[0], name)(x.args[0])
            return num(r)
    return opaque_call(I, '.bytes.' + name, a, o)


def list_method(I, o, rec, name, a):
    args = a.args if a.args is not None else []
    if rec.kind.startswith('objects'):
        if name == 'tolist':
            return I.new_list(rec.segs)
        return I.unknown('method of array of objects: ' + name)
    if name == 'append' or name == 'add':
        rec = I.w(o)
        if rec.kind == 'set':
            c = contains_segs(I, args[0], rec.segs)
            if c is ONE:
                return None
            s = ('lit', args[0])
            rec.segs = rec.segs + ((s,) if c is ZERO else (('if', not_(c), (s,)),))
        else:
            rec.segs = rec.segs + (('lit', args[0]),)
        I.emit('append', a.node, obj=o, value=args[0])
        return None
    if name == 'extend' or name == 'update':
        list_extend(I, o, args[0])
        return None
    if name == 'insert':
        c = const_value(as_num(args[0]))
        rec = I.w(o)
        if c == 0:
            rec.segs = (('lit', args[1]),) + rec.segs
        elif c is not None and all(s[0] == 'lit' for s in rec.segs):
            segs = list(rec.segs)
            segs.insert(int(c), ('lit', args[1]))
            rec.segs = tuple(segs)
        else:
            I.note('insert')
            rec.segs = seg_slice(I, rec.segs, None, args[0]) + (('lit', args[1]),) + seg_slice(I, rec.segs, args[0], None)
        return None
    if name == 'copy':
        return I.new_list(rec.segs, rec.kind)
    if name == 'clear':
        I.w(o).segs = ()
        return None
    if name == 'reverse':
        g = BUILTINS['reversed'](I, Args(I, [('lit', o)], DictV({}), a.node, 'builtins.reversed'))
        I.w(o).segs = I.get(g).segs
        return None
    if name == 'sort':
        g = BUILTINS['sorted'](I, Args(I, [('lit', o)], a.kwd, a.node, 'builtins.sorted'))
        I.w(o).segs = I.get(g).segs
        return None
    if name == 'pop':
        n = I.seg_len(rec.segs)
        i = as_num(args[0]) if args else num(-1)
        if n is not ONE:
            c = I.truth(cmp_eq0(n))
            I.raise_('IndexError', c, a.node, 'pop from empty list', internal=(c is ONE))
        v = I.seg_index(rec.segs, i)
        if sign_set(i) == {'-'}:
            i = add(n, i)
        segs = seg_slice(I, rec.segs, None, i) + seg_slice(I, rec.segs, add(i, ONE), None)
        I.w(o).segs = segs
        return v
    if name == 'index':
        fl = I.flat_lits(rec.segs)
        if fl is not None:
            return call_method(I, tuple(fl), 'index', [('lit', args[0])], DictV({}), a.node)
        c = contains_segs(I, args[0], rec.segs)
        I.raise_('ValueError', not_(c), a.node)
        return atom(mk('app', 'index', mk('segs', I.freeze_segs(rec.segs)), I.freeze(args[0])))
    if name == 'count':
        def go(segs):
            r = ZERO
            for s in segs:
                if s[0] == 'lit':
                    r = add(r, eq_val(I, args[0], s[1]))
                elif s[0] == 'if':
                    r = add(r, mul(s[1], go(s[2])))
                elif s[0] == 'each':
                    r = add(r, rsum((s[1],), (s[2],), go(s[3])))
            return r
        return go(rec.segs)
    if name == 'remove':
        fl = I.flat_lits(rec.segs)
        if fl is not None and all(is_const_key(x) for x in fl) and is_const_key(args[0]):
            if args[0] in fl:
                fl.remove(args[0])
                I.w(o).segs = tuple(('lit', x) for x in fl)
                return None
            I.raise_('ValueError', ONE, a.node)
        I.note('remove')
        return None
    if name in ('difference', 'intersection', 'union', 'difference_update', 'discard', 'symmetric_difference', 'issubset', 'issuperset'):
        if name == 'discard':
            I.w(o).segs = filter_segs(I, rec.segs, lambda x: not_(eq_val(I, x, args[0])))
            return None
        other = args[0]
        if not I.is_ref(other, ListV):
            other = I.new_list(iter_segs(I, other) or (), 'set')
        if name in ('issubset', 'issuperset'):
            x, y = (o, other) if name == 'issubset' else (other, o)
            return not_(anyall(I, 'any', map_segs(I.get(x).segs, lambda v: not_(contains(I, v, y)))))
        r = set_op(I, {'difference': 'Sub', 'difference_update': 'Sub', 'intersection': 'BitAnd', 'union': 'BitOr',
                       'symmetric_difference': 'Sub'}[name], o, other)
        if name == 'difference_update':
            I.w(o).segs = I.get(r).segs
            return None
        return r
    if name == '__len__':
        return I.seg_len(rec.segs)
    return opaque_call(I, '.' + name, a, o)


def dict_method(I, o, rec, name, a):
    args = a.args if a.args is not None else []
    if name == 'get':
        d = args[1] if len(args) > 1 else a.get(None, 'default', None)
        v, c = dict_get(I, rec, args[0], d)
        c = I.truth(c)
        if c is ONE:
            return v
        if c is ZERO:
            return d
        return I.join(c, v, d)
    if name == 'pop':
        key = I.unwrap(args[0])
        if not is_const_key(key) and not (isinstance(key, T) and key in rec.items):
            if isinstance(key, T) and key.op == 'ite':
                return I.cases(key, lambda k: call_method(I, o, 'pop', [('lit', k)] + [('lit', x) for x in args[1:]], a.kwd, a.node))
            I.note('pop with unknown key')
            return I.unknown('pop', o, key)
        v, c = dict_get(I, rec, key, None)
        c = I.truth(c)
        if len(args) > 1:
            r = v if c is ONE else (args[1] if c is ZERO else I.join(c, v, args[1]))
        else:
            if c is not ONE:
                I.raise_('KeyError', not_(c), a.node, key, internal=(rec.rest is None))
            r = v
        rec = I.w(o)
        rec.items.pop(key, None)
        if rec.rest is not None:
            rec.rest = mk('app', 'without', rec.rest, key)
        return r
    if name == 'setdefault':
        key = args[0]
        d = args[1] if len(args) > 1 else None
        v, c = dict_get(I, rec, key, d)
        c = I.truth(c)
        if c is ONE:
            return v
        r = d if c is ZERO else I.join(c, v, d)
        rec = I.w(o)
        if is_const_key(key):
            rec.items[key] = (r, ONE)
        else:
            rec.each = rec.each + ((None, ONE, key, r),)
        return r
    if name == 'keys':
        return I.new_list(dict_segs(I, rec, lambda k, v: k), 'keys')
    if name == 'values':
        return I.new_list(dict_segs(I, rec, lambda k, v: v), 'values')
    if name == 'items':
        return I.new_list(dict_segs(I, rec, lambda k, v: (k, v)), 'items')
    if name == 'update':
        if args:
            dict_update(I, o, args[0])
        for k, (v, c) in a.kwd.items.items():
            rec = I.w(o)
            old = rec.items.get(k)
            rec.items[k] = (v, c) if c is ONE or old is None else (I.join(c, v, old[0]), or_(c, old[1]))
        if a.kwd.rest is not None:
            I.w(o).rest = a.kwd.rest
        return None
    if name == 'copy':
        return I.alloc(DictV(dict(rec.items), rec.rest, rec.each))
    if name == 'clear':
        r = I.w(o)
        r.items, r.rest, r.each = {}, None, ()
        return None
    if name == 'popitem':
        I.note('popitem')
        last = a.get(0, 'last', ONE)
        items = list(rec.items.items())
        if items and all(c is ONE for k, (v, c) in items) and not rec.each and rec.rest is None:
            k, (v, c) = items[-1] if last is ONE else items[0]
            del I.w(o).items[k]
            return (k, v)
        return (I.unknown('popitem key', o), I.unknown('popitem val', o))
    return opaque_call(I, '.' + name, a, o)


def file_method(I, o, rec, name, a):
    if name == 'write':
        v = a.args[0]
        I.emit('write', a.node, path=I.freeze(rec.path), mode=rec.mode, value=I.freeze(v), fileref=o)
        return None
    if name == 'writelines':
        I.emit('write', a.node, path=I.freeze(rec.path), mode=rec.mode, value=I.freeze(a.args[0]), fileref=o, many=True)
        return None
    if name in ('close', 'flush', '__enter__', '__exit__'):
        I.emit('file' + name, a.node, fileref=o)
        return o if name == '__enter__' else None
    if name == 'read':
        n = I.freeze(a.args[0]) if a.args else None
        I.file_seq += 1
        I.emit('read', a.node, path=I.freeze(rec.path), n=n, fileref=o)
        ct = I.contents.get(rec.path) if isinstance(rec.path, T) else None
        if 'b' not in str(rec.mode) and any(x in ('UnicodeDecodeError', 'UnicodeError', 'ValueError') for ns in I.try_names for x in ns):
            known = ct.binary if ct is not None else None
            I.raise_('UnicodeDecodeError', pred('undecodable', I.freeze(rec.path)) if known is None else ONE if known else ZERO, a.node)
        if ct is not None and not ct.reads and ct.head is not None and rec.nread == 0:
            w = rec.copy()
            w.nread, w.pos = 1, None
            I.put(o, w)
            return mk('bytes', ct.head) if 'b' in str(rec.mode) else ct.head
        if ct is not None and rec.nread < len(ct.reads):
            v = ct.reads[rec.nread]
            lits = sum(len(p) for p in text.parts(v) if isinstance(p, str))
            c = const_value(n) if isinstance(n, T) else None
            if c is not None and c >= lits:
                w = rec.copy()
                w.nread += 1
                w.pos = add(rec.pos if rec.pos is not None else ZERO, text.length(v))
                I.put(o, w)
                return mk('bytes', v) if 'b' in str(rec.mode) else v
        return mk('app', 'fileread', I.freeze(rec.path), n, I.file_seq)
    if name in ('readline', 'readlines'):
        if name == 'readlines':
            return I.new_list(iter_segs(I, o))
        return mk('app', 'line', I.freeze(rec.path), fresh('l'))
    if name == 'seek':
        I.emit('seek', a.node, path=I.freeze(rec.path), args=I.freeze(tuple(a.args)), fileref=o)
        if rec.pos is not None:
            w = rec.copy()
            wh = const_value(as_num(a.args[1])) if len(a.args) > 1 else 0
            w.pos = as_num(a.args[0]) if wh == 0 else add(rec.pos, as_num(a.args[0])) if wh == 1 else None
            I.put(o, w)
        return None
    return opaque_call(I, '.file.' + name, a, o)


# ----------------------------------------------------------------- os etc.

@model('os.path.split')
def _(I, a):
    def go(p):
        if isinstance(p, str):
            import os
            return tuple(os.path.split(p))
        return (path_dir(p), path_base(p))
    return I.cases(a.args[0], go)


def path_dir(p):
    if isinstance(p, T) and p.op == 'app' and p.args[0] == 'join':
        return p.args[1] if len(p.args) == 3 else mk('app', 'dirname', p)
    return mk('app', 'dirname', p)


def path_base(p):
    if isinstance(p, T) and p.op == 'app' and p.args[0] == 'join':
        return p.args[2] if len(p.args) == 3 and not (isinstance(p.args[2], str) and '/' in p.args[2]) else mk('app', 'basename', p)
    return mk('app', 'basename', p)


@model('os.path.dirname')
def _(I, a):
    import os
    return I.cases(a.args[0], lambda p: os.path.dirname(p) if isinstance(p, str) else path_dir(p))


@model('os.path.basename')
def _(I, a):
    import os
    return I.cases(a.args[0], lambda p: os.path.basename(p) if isinstance(p, str) else path_base(p))


@model('os.path.join')
def _(I, a):
    if a.args is None:
        return I.unknown('join')

    def go(*ps):
        import os
        if all(isinstance(p, str) for p in ps):
            return os.path.join(*ps)
        d = ps
        if len(ps) == 2 and isinstance(ps[0], T) and isinstance(ps[1], T) and ps[0].op == 'app' and ps[1].op == 'app' \
                and ps[0].args[0] == 'dirname' and ps[1].args[0] == 'basename' and ps[0].args[1] is ps[1].args[1]:
            return ps[0].args[1]
        return mk('app', 'join', *ps)

    def rec(done, todo):
        if not todo:
            return go(*done)
        return I.cases(todo[0], lambda p: rec(done + [p], todo[1:]))
    return rec([], list(a.args))


@model('os.path.splitext')
def _(I, a):
    def go(p):
        import os
        if isinstance(p, str):
            return tuple(os.path.splitext(p))
        return (mk('app', 'splitext0', p), mk('app', 'splitext1', p))
    return I.cases(a.args[0], go)


@model('os.path.realpath', 'os.path.abspath', 'os.path.normpath', 'os.path.expanduser')
def _(I, a):
    n = a.name.split('.')[-1]
    return I.cases(a.args[0], lambda p: mk('app', n, p))


@model('os.path.exists', 'os.path.isfile', 'os.path.lexists')
def _(I, a):
    p = I.freeze(a.args[0])
    I.emit('exists', a.node, path=p)
    r = file_exists(I, p)
    if a.name.endswith('isfile') and I.folders and getattr(I, 'files', None) is None:
        r = mul(as_num(r), not_(pred('path_isdir', canon_path(p))))
    return r


def plain(p):
    import posixpath
    return posixpath.normpath(p) if p else p


def file_exists(I, p):
    """Existence of a file: known for a given set of files, else open."""
    known = getattr(I, 'files', None)
    if known is not None and isinstance(p, str):
        return ONE if plain(p) in known else ZERO
    return pred('path_exists', canon_path(p))


@model('os.path.isdir')
def _(I, a):
    return pred('path_isdir', I.freeze(a.args[0]))


@model('os.listdir')
def _(I, a):
    d = I.freeze(a.args[0]) if a.args else '.'
    if not isinstance(d, (T, str)):
        return I.unknown('listdir')
    I.emit('listdir', a.node, path=d)
    name = sym('listed %s' % (d if isinstance(d, str) else show(d)[:60]), elemkind='str')
    LISTED[name] = d
    k, n = new_axis(sym('number of files in %s' % (d if isinstance(d, str) else show(d)[:60]), int=True, nonneg=True), 'f')
    return I.new_list((('each', k, n, (('lit', mk('elem', name, atom(k))),)),))


@model('os.access')
def _(I, a):
    p = I.freeze(a.args[0])
    fl = I.freeze(a.args[1]) if len(a.args) > 1 else None
    I.emit('access', a.node, path=p, flag=fl)
    if isinstance(fl, T) and fl.op == 'ext' and fl.args[0] == 'os.F_OK':
        return file_exists(I, p)
    return pred('access', p, fl)


@model('os.makedirs', 'os.mkdir')
def _(I, a):
    p = I.freeze(a.args[0])
    oscatch(I, 'mkdir', p, a.node)
    I.emit('makedirs', a.node, path=p, name=a.name, kwargs={k: I.freeze(v) for k, v in a.kw.items()})
    if getattr(I, 'files', None) is not None and isinstance(p, str):
        I.files = I.files | {plain(p)}
    return None


@model('os.rename', 'shutil.move', 'os.replace')
def _(I, a):
    I.emit('rename', a.node, src=I.freeze(a.args[0]), dst=I.freeze(a.args[1]), rawsrc=a.args[0], name=a.name)
    src, dst = I.freeze(a.args[0]), I.freeze(a.args[1])
    if getattr(I, 'files', None) is not None and isinstance(src, str) and isinstance(dst, str):
        I.files = (I.files - {plain(src)}) | {plain(dst)}
    return None


@model('os.remove', 'os.unlink', 'shutil.rmtree', 'os.rmdir', 'os.truncate', 'os.removedirs')
def _(I, a):
    I.emit('delete', a.node, path=I.freeze(a.args[0]), name=a.name)
    return None


@model('shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'os.link', 'os.symlink')
def _(I, a):
    I.emit('copyfile', a.node, src=I.freeze(a.args[0]), dst=I.freeze(a.args[1]))
    return None


@model('sys.exit', 'builtins.exit', 'builtins.quit')
def _(I, a):
    v = I.freeze(a.args[0]) if a.args else None
    I.emit('exit', a.node, value=v)
    I.raise_('SystemExit', ONE, a.node, v)


BUILTINS['exit'] = EXT['sys.exit']
BUILTINS['quit'] = EXT['sys.exit']


@model('sys.stderr.write', 'sys.stdout.write')
def _(I, a):
    I.emit('stdwrite', a.node, stream=a.name.split('.')[1], args=I.freeze(tuple(a.args or ())))
    return None


@model('sys.stdout.flush', 'sys.stderr.flush')
def _(I, a):
    return None


@model('click.echo')
def _(I, a):
    I.emit('print', a.node, args=I.freeze_segs(a.segs))
    return None


@model('time.strftime', 'time.localtime', 'time.time', 'datetime.datetime.now', 'time.ctime')
def _(I, a):
    I.emit('clock', a.node, name=a.name)
    return mk('app', 'strftime', I.freeze(tuple(a.args or ())))


@model('warnings.warn')
def _(I, a):
    I.emit('warn', a.node)
    return None


@model('copy.copy', 'copy.deepcopy')
def _(I, a):
    deep = a.name.endswith('deepcopy')
    return clone(I, a.args[0], deep, {})


def clone(I, v, deep, memo):
    if isinstance(v, tuple):
        return tuple(clone(I, x, deep, memo) for x in v) if deep else v
    if isinstance(v, T) and v.op == 'ite':
        return ite(v.args[0], clone(I, v.args[1], deep, memo), clone(I, v.args[2], deep, memo))
    if not I.is_ref(v):
        return v
    if v in memo:
        return memo[v]
    rec = I.get(v)
    f = (lambda x: clone(I, x, True, memo)) if deep else (lambda x: x)
    if isinstance(rec, ViewV):
        return I.new_arr(I.arr(v))
    nr = I.alloc(None)
    memo[v] = nr
    if isinstance(rec, ListV):
        n = ListV(map_segs(rec.segs, f), rec.kind)
    elif isinstance(rec, DictV):
        n = DictV({k: (f(x), c) for k, (x, c) in rec.items.items()}, rec.rest,
                  tuple(e[:-1] + (f(e[-1]),) for e in rec.each))
    elif isinstance(rec, InstV):
        n = InstV(rec.cls, {k: f(x) for k, x in rec.attrs.items()})
    elif isinstance(rec, GenV):
        n = GenV(rec.segs, rec.pos)
    else:
        n = rec.copy() if hasattr(rec, 'copy') else rec
    I.put(nr, n)
    return nr


@model('itertools.chain', 'itertools.chain.from_iterable')
def _(I, a):
    out = []
    if a.name.endswith('from_iterable'):
        segs = iter_segs(I, a.args[0])
        for s in segs or ():
            if s[0] == 'lit':
                out += list(iter_segs(I, s[1]) or ())
            elif s[0] == 'each':
                inner = []
                for t in s[3]:
                    if t[0] == 'lit':
                        inner += list(iter_segs(I, t[1]) or ())
                out.append(('each', s[1], s[2], tuple(inner)))
    else:
        for x in a.args:
            out += list(iter_segs(I, x) or ())
    return I.alloc(GenV(tuple(out), ZERO))


@model('itertools.count')
def _(I, a):
    start = as_num(a.get(0, 'start', ZERO))
    step = as_num(a.get(1, 'step', ONE))
    k, size = new_axis(INF, 'k')
    FACTS.info[k].pop('hi', None)
    return I.alloc(GenV((('each', k, INF, (('lit', add(start, mul(step, atom(k)))),)),), ZERO))


@model('itertools.islice')
def _(I, a):
    args = a.args
    segs = iter_segs(I, args[0])
    lo, hi = (None, args[1]) if len(args) == 2 else (args[1], args[2])
    return I.alloc(GenV(seg_slice(I, segs, lo, hi), ZERO))


@model('itertools.product')
def _(I, a):
    lists = [iter_segs(I, x) for x in a.args]
    if any(l is None for l in lists):
        return I.unknown('product')

    def go(i, pre):
        if i == len(lists):
            return (('lit', tuple(pre)),)
        out = []
        for s in lists[i]:
            if s[0] == 'lit':
                out += list(go(i + 1, pre + [s[1]]))
            elif s[0] == 'each':
                fl = I.flat_lits(s[3])
                if fl is None or len(fl) != 1:
                    return (('lit', I.unknown('product')),)
                out.append(('each', s[1], s[2], go(i + 1, pre + [fl[0]])))
            elif s[0] == 'if':
                fl = I.flat_lits(s[2])
                for x in fl or ():
                    out.append(('if', s[1], go(i + 1, pre + [x])))
        return tuple(out)
    return I.alloc(GenV(go(0, []), ZERO))


# operators module
for _n, _o in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('truediv', ast.Div), ('mod', ast.Mod), ('pow', ast.Pow)):
    EXT['operator.' + _n] = (lambda o: lambda I, a: binop(I, o(), a.args[0], a.args[1], a.node))(_o)


for _n, _f in (('math.floor', floor), ('math.ceil', ceil), ('math.sqrt', sqrt), ('math.fabs', absval), ('math.trunc', trunc)):
    def _cut(I, a, f=_f):
        exact(I, a.node, as_num(a.args[0])) if f in (floor, ceil, trunc) else None
        return f(as_num(a.args[0]))
    EXT[_n] = _cut
