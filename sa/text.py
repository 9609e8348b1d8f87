"""Text and bytes made of literal and symbolic parts; contents of files."""

from .terms import *
from .values import *

NUMERIC = set('0123456789+-.eEinfax ')


def parts(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, T) and v.op == 'str':
        return list(v.args[0])
    return [v]


def join(ps):
    from .models import str_make
    return str_make(ps)


def plen(p):
    return num(len(p)) if isinstance(p, str) else atom(mk('app', 'len', p))


def length(v):
    n = ZERO
    for p in parts(v):
        n = add(n, plen(p))
    return n


def numeric_fmt(p):
    """A formatted number: no text but digits, signs, exponents, blanks."""
    if not (isinstance(p, T) and p.op == 'fmt'):
        return False
    v = p.args[1]
    return isinstance(v, T) and v.op == 'num'


def lacks(p, s):
    """The symbolic part cannot contain the text s."""
    if numeric_fmt(p):
        return bool(set(s) - NUMERIC)
    return s == '\0' and isinstance(p, T) and p.op == 'sym' and fact(p, 'text', False)


def find(v, s):
    """Position of the first s; None if unknown."""
    n = ZERO
    if len(s) != 1:
        return num(v.find(s)) if isinstance(v, str) else None
    for p in parts(v):
        if isinstance(p, str):
            i = p.find(s)
            if i >= 0:
                return add(n, num(i))
        elif not lacks(p, s):
            return None
        n = add(n, plen(p))
    return num(-1)


def piece(v, lo, hi):
    """v[lo:hi] for bounds at known places; None if unknown."""
    def cut(ps, at):
        """(before, after)"""
        c = const_value(at)
        if c is not None and c < 0:
            return None
        n = ZERO
        for i, p in enumerate(ps):
            d = sub(at, n)
            if d is ZERO:
                return ps[:i], ps[i:]
            k = const_value(d)
            if isinstance(p, str) and k is not None and 0 < k <= len(p):
                return ps[:i] + [p[:int(k)]], [p[int(k):]] + ps[i + 1:]
            n = add(n, plen(p))
        if sub(at, n) is ZERO:
            return ps, []
        return None
    ps = parts(v)
    if hi is not None:
        r = cut(ps, as_num(hi))
        if r is None:
            return None
        ps = r[0]
    if lo is not None:
        r = cut(ps, as_num(lo))
        if r is None:
            return None
        ps = r[1]
    return join([p for p in ps if p != ''])


def splitlines(v):
    """Lines, if no symbolic part can contain a line end."""
    out, cur = [], []
    for p in parts(v):
        if isinstance(p, str):
            ls = p.split('\n')
            cur.append(ls[0])
            for l in ls[1:]:
                out.append(cur)
                cur = [l]
        elif numeric_fmt(p):
            cur.append(p)
        else:
            return None
    if any(x != '' for x in cur):
        out.append(cur)
    return [join([x for x in l if x != '']) for l in out]


def words(v):
    """Words separated by blanks; a formatted number is one word."""
    out, cur = [], []
    for p in parts(v):
        if isinstance(p, str):
            i = 0
            while i < len(p):
                if p[i].isspace():
                    if cur:
                        out.append(cur)
                        cur = []
                    i += 1
                else:
                    j = i
                    while j < len(p) and not p[j].isspace():
                        j += 1
                    cur.append(p[i:j])
                    i = j
        elif numeric_fmt(p):
            if cur:
                return None
            cur.append(p)
        else:
            return None
    if cur:
        out.append(cur)
    return [join(x) for x in out]


def split_max(v, n):
    """First n words; the rest is kept as it is."""
    ws = words(v)
    if ws is None:
        return None
    if len(ws) <= n:
        return ws
    # the rest starts at the word number n
    ps = parts(v)
    k = 0
    inside = False
    for i, p in enumerate(ps):
        if not isinstance(p, str):
            if not inside:
                if k == n:
                    return ws[:n] + [join(ps[i:])]
                k += 1
            inside = True
            continue
        for j, ch in enumerate(p):
            if ch.isspace():
                inside = False
            elif not inside:
                if k == n:
                    return ws[:n] + [join([p[j:]] + ps[i + 1:])]
                k += 1
                inside = True
    return ws


def number(v, kind):
    """int(text), float(text) of one formatted number; None if unknown."""
    ps = [p for p in parts(v) if not (isinstance(p, str) and not p.strip())]
    if len(ps) == 1 and numeric_fmt(ps[0]):
        spec, x = ps[0].args
        if kind == 'int':
            return x if is_int(x) and spec[-1] in 'ds' else None
        m = spec.lstrip('%').rstrip('fegsdr')
        prec = int(m.split('.')[1]) if '.' in m and m.split('.')[1].isdigit() else 6
        if spec[-1] == 'f' and prec >= 6 or spec[-1] in 'sr' or spec[-1] in 'eg' and prec >= 6:
            return x
        if spec[-1] == 'd':
            return trunc(x)
        return atom(mk('app', 'rounded', spec, x))
    return None


class Content(object):
    """What a file holds: the pieces successive reads return, then blocks of
    values (arrays). Pieces are texts of literal and symbolic parts; a sym
    part with the fact text=True holds no NUL."""

    def __init__(self, reads, blocks=(), binary=None, table=None, head=None):
        self.reads = list(reads)
        self.blocks = list(blocks)
        self.binary = binary        # not decodable as text
        self.head = head            # text which the values begin with, should they be decodable
        self.table = table          # record of named columns, for text files
