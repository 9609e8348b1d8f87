"""Rules over the effect trace (files, directories, order of effects)."""

from .terms import *
from .terms import _first_cond, _canon_sign  # noqa
from .values import *


def canon_path(t):
    """Same file, same term: join('.', x) and join('', x) are x, and
    join('.', x) is join(d, x) where the directory d of a path is ''."""
    def empty_dirs(c):
        return [l.args for l in literals(c) if l.op == 'eq' and '' in l.args]

    def under(d, x):
        def g(y):
            if y.op == 'app' and y.args[0] == 'join' and len(y.args) == 3 and y.args[1] == '.':
                b = y.args[2]
                if isinstance(b, T) and b.op == 'app' and b.args[0] == 'basename' and b.args[1] is d.args[1]:
                    return b.args[1]
                return app('join', d, b)
            return None
        return rewrite(x, g) if isinstance(x, T) else x

    def dir_of(l):
        if l.op != 'eq' or '' not in l.args:
            return None
        d = l.args[0] if l.args[1] == '' else l.args[1]
        return d if isinstance(d, T) and d.op == 'app' and d.args[0] == 'dirname' else None

    def f(x):
        if x.op == 'ite' and isinstance(x.args[0], T):
            a = single_atom(x.args[0])
            if a is not None and dir_of(a) is not None:
                return ite(x.args[0], under(dir_of(a), x.args[1]), x.args[2])
            n = single_atom(not_(x.args[0]))
            if n is not None and dir_of(n) is not None:
                return ite(x.args[0], x.args[1], under(dir_of(n), x.args[2]))
        return None

    def fnum(x):
        for l in literals(x):
            d = dir_of(l)
            if d is not None:
                one = restrict(x, l, 1)
                n = under(d, one)
                if n is not one:
                    x = ite(atom(l), n, restrict(x, l, 0))
                    if not (isinstance(x, T) and x.op == 'num'):
                        return x
        return x
    f.num = fnum

    def dots(x):
        if x.op == 'app' and x.args[0] == 'join' and len(x.args) == 3 and x.args[1] in ('.', ''):
            return x.args[2]
        return None
    if not isinstance(t, T):
        return t
    for l in sorted((x for x in subterms(t) if x.op == 'eq' and dir_of(x) is not None), key=lambda x: x.id):
        # the whole path, in both cases
        one, zero = subst(t, {l: ONE}), subst(t, {l: ZERO})
        one = under(dir_of(l), one)
        if one is zero:
            t = zero
            if not isinstance(t, T):
                return t
    return rewrite(rewrite(t, f), dots)


def firsts(t):
    return [a for a in subterms(t) if a.op == 'app' and a.args[0] == 'first'] if isinstance(t, T) else []


def given_firsts(*ts):
    """What is known about the first-index atoms of terms."""
    g = ONE
    for t in ts:
        for a in firsts(t):
            if a.args[2] is INF:
                g = mul(g, _first_cond(a))
    return g


def unroll_firsts(t):
    """first(b, INF, c) with a case for b == 0 is one plus the first index
    of the shifted condition."""
    def f(x):
        if x.op == 'app' and x.args[0] == 'first' and x.args[2] is INF:
            _, b, size, c = x.args
            if any(isinstance(l, T) and l.op == "zero" and single_atom(l.args[0]) is b for l in subterms(c)):
                c0 = subst(c, {b: ZERO})
                c1 = subst(c, {b: add(atom(b), ONE)})
                return ite(c0, ZERO, add(ONE, atom(mk('app', 'first', b, INF, c1))))
        return None
    return rewrite(t, f) if isinstance(t, T) else t


def path_of(e):
    return e.data.get('path')


def truncating(e):
    """The event destroys the previous content of a file."""
    if e.kind == 'open':
        m = e.data.get('mode')
        return isinstance(m, str) and ('w' in m or 'x' in m)
    if e.kind in ('tofile', 'savetxt') and e.data.get('path') is not None and e.data.get('fileref') is None:
        return True
    return False


def opened(e, mode):
    return e.kind == 'open' and isinstance(e.data.get('mode'), str) and mode in e.data['mode']


def covered(cond, events, same):
    """cond implies that one of the events (kind, same(event)) happened."""
    cover = ZERO
    for e in events:
        if same(e):
            cover = or_(cover, as_num(assume(cond, e.guard)))
    rest = mul(cond, not_(cover))
    if rest is ZERO:
        return True
    if not sat(rest):
        return True
    if has_unknown(rest):
        return None
    return False


# ------------------------------------------------- documents (text output)

def calm(t):
    """Without failing system calls."""
    if isinstance(t, tuple):
        return tuple(calm(x) for x in t)
    if not isinstance(t, T):
        return t
    def f(x):
        if x.op == 'ite':
            return ite(drop(x.args[0]), x.args[1], x.args[2])
        return None

    def drop(x):
        for l in literals(x):
            if isinstance(l, T) and l.op == 'pred' and l.args[0] in ('fails', 'badtext'):
                x = restrict(x, l, 0)
                if not (isinstance(x, T) and x.op == 'num'):
                    break
        return x
    f.num = drop
    t = rewrite(t, f)
    return drop(t) if is_num(t) else t


def merged_text(v):
    """Cases of a text as one text where only the values differ."""
    if not (isinstance(v, T) and v.op == 'ite'):
        return v
    c = v.args[0]
    a, b = merged_text(v.args[1]), merged_text(v.args[2])
    if a is b or a == b:
        return a
    pa, pb = tokens(a), tokens(b)
    if len(pa) != len(pb):
        return v
    out = []
    for x, y in zip(pa, pb):
        if x is y or x == y:
            out.append(x)
            continue
        fx, fy = (isinstance(z, T) and z.op == 'fmt' for z in (x, y))
        if fx and fy and x.args[0] == y.args[0]:
            out.append(mk('fmt', x.args[0], ite(c, x.args[1], y.args[1])))
        elif fx and number_of(y) is not None:
            out.append(mk('fmt', x.args[0], ite(c, x.args[1], number_of(y))))
        elif fy and number_of(x) is not None:
            out.append(mk('fmt', y.args[0], ite(c, number_of(x), y.args[1])))
        else:
            return v
    return mk('str', tuple(out))


def tokens(v):
    """Blanks, words and symbolic pieces of a text."""
    import re
    out = []
    for p in (list(v.args[0]) if isinstance(v, T) and v.op == 'str' else [v]):
        out += re.findall(r'\s+|\S+', p) if isinstance(p, str) else [p]
    return out


def number_of(s):
    from fractions import Fraction
    try:
        return num(Fraction(s)) if isinstance(s, str) and 'n' not in s else None
    except Exception:
        return None


class Line(object):
    """One line of text: pieces, the event of its first piece, condition."""

    def __init__(self, event, guard):
        self.pieces = []
        self.event = event
        self.guard = guard
        self.loops = event.loops
        self.ended = False
        self.mixed = False

    def add(self, p, g):
        if p == '':
            return
        if self.pieces and g is not self.guard and compare(assume(self.guard, g), ONE, self.guard)[0] != Verdict.EQUAL:
            self.mixed = True
        self.pieces.append(p)

    def first(self):
        return self.pieces[0] if self.pieces else ''

    def comment(self):
        """True, False or None: the line is not data."""
        p = self.first()
        if isinstance(p, str):
            s = p.lstrip(' ')
            if s == '' and len(self.pieces) > 1:
                return False if isinstance(self.pieces[1], T) and self.pieces[1].op == 'fmt' else None
            return s == '' or s[0] in '#@&'
        if isinstance(p, T) and p.op == 'fmt' and p.args[0][-1:] in 'dfegx':
            return False
        return None

    def text(self):
        return ''.join(p if isinstance(p, str) else '<%s>' % brief_(p) for p in self.pieces)

    def columns(self):
        """Values of the columns; None if the line is not understood."""
        out, cur = [], []
        for p in self.pieces:
            if isinstance(p, str):
                for ch in p:
                    if ch.isspace() or ch == ',':
                        if cur:
                            out.append(cur)
                        cur = []
                    else:
                        cur = cur + [ch]
            elif isinstance(p, T) and p.op == 'fmt':
                if cur:
                    out.append(cur + [p])
                    cur = []
                    return None
                cur = [p]
            else:
                return None
        if cur:
            out.append(cur)
        return [c[0] if len(c) == 1 and isinstance(c[0], T) else ''.join(map(str, c)) for c in out]


def brief_(p):
    return show(p)[:60]


def text_lines(events):
    """Lines made by write events in program order."""
    out = []
    cur = None
    for e in events:
        v = merged_text(calm(e.data.get('value')))
        g = calm(e.guard)
        if g is ZERO:
            continue
        ps = []
        for p in list(v.args[0]) if isinstance(v, T) and v.op == 'str' else [v]:
            if isinstance(p, T) and p.op == 'num' and single_atom(p) is not None:
                p = single_atom(p)
            if isinstance(p, T) and p.op == 'app' and p.args[0] == 'cat':
                # text added by every iteration
                ps += tokens(p.args[3])
            else:
                ps.append(p)
        for p in ps:
            if isinstance(p, str):
                bits = p.split('\n')
                for n, b in enumerate(bits):
                    if n:
                        if cur is None:
                            cur = Line(e, g)
                        cur.ended = True
                        out.append(cur)
                        cur = None
                    if b:
                        if cur is None:
                            cur = Line(e, g)
                        cur.add(b, g)
            else:
                if cur is None:
                    cur = Line(e, g)
                cur.add(p, g)
    if cur is not None:
        out.append(cur)
    return out


def legend_columns(text):
    """Possible numbers of columns announced by '# Time (ps) A (nm) B [std]'
    (units are in parentheses, optional columns in brackets)."""
    import re
    t = re.sub(r'\([^()]*\)', ' ', text.lstrip('# ')).split()
    return {len(t), len([x for x in t if not x.startswith('[')])}


def next_iteration(g, k):
    """The condition at the next iteration, with 'some earlier iteration'
    split into this one and those before."""
    h = subst(g, {k: add(atom(k), ONE)})

    def split(x):
        for l in literals(x):
            if l.op == 'pred' and l.args[0] == 'exists' and sub(l.args[2], atom(k)) is ONE:
                _, b, n, c = l.args
                e = or_(atom(mk('pred', 'exists', b, atom(k), c)), as_num(subst(c, {b: atom(k)})))
                x = ite(e, restrict(x, l, 1), restrict(x, l, 0))
        return x
    return split(h) if is_num(h) else h


def first_iteration(g, k):
    h = subst(g, {k: ZERO})
    if is_num(h):
        for l in literals(h):
            if l.op == 'pred' and l.args[0] == 'exists' and l.args[2] is ZERO:
                h = restrict(h, l, 0)
    return h


def outside(I):
    """Calls of code which is not analysed, progress bars apart."""
    return [e for e in I.trace if e.kind == 'ext' and 'progressbar' not in str(e.data.get('name'))
            and 'progressbar' not in str(e.data.get('recv'))]
