"""The interface search: which cells are of the liquid (droplets.interface) is
compared with the reference for every map, radius, cutoff and number of
neighbours; with this notion left uninterpreted, the edges found in each layer
are compared with the reference, and the cells among which neighbours are
searched are shown to contain all those within the radius."""

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, S
from .. import models_np
from ..terms import sat

M = 'droplets.interface'
R = 'ref.interface'
ALL = FIELDS + ('W', 'P', 'Q')


def record(I, G, labels):
    """A map; with labels given these are its coordinates and X, Y are
    ordinary values."""
    r = G.record(I, 'a', ALL)
    if labels:
        a = I.arr(r)
        f = dict(a.fields)
        for l, m in zip(('X', 'Y'), labels):
            f[l], f[m] = f[m], f[l]
        r = I.new_arr(ArrVal(a.dims, {l: f[l] for l in a.fields}, a.filt, a.dtypes, a.order))
    return r


def flow(I, G, labels):
    r = G.flow(I, 'a', ALL)
    if labels:
        I.get(r).attrs['data'] = record(I, G, labels)
    return r


def cells(c):
    """Neighbours within a radius and the condition of a liquid cell."""
    for layout in ('xy', 'yx'):
        for labels in (None, ('P', 'Q')):
            G = Grid(layout=layout)
            ci, cj = [atom(sym(n, int=True, nonneg=True, kind='num', hi=sub(s, ONE))) for n, s in (('ci', G.nx), ('cj', G.ny))]
            cell = add(mul(ci, G.ny), cj) if layout == 'xy' else add(mul(cj, G.nx), ci)
            r, co, nb = N('r', pos=True), N('co'), Z('cb')
            kw = {} if labels is None else {'coord_labels': labels}
            xl, yl = labels or ('X', 'Y')
            what = 'order %s %s' % (layout, kw)
            I, J = c.interp(), c.interp()
            got = c.call(I, c.fn(I, M, '_get_indices_in_radius'), [cell, record(I, G, labels), r], dict(kw))
            want = c.call(J, c.fn(J, R, 'neighbours'), [cell, record(J, G, labels), r, xl, yl])
            c.same('radius', c.loc(M, '_get_indices_in_radius'), I.freeze(got), J.freeze(want), what=what, key='radius@_get_indices_in_radius')
            for bins in (None, nb):
                for label in ('M', 'W'):
                    k2 = dict(kw) if bins is None else dict(kw, cutoff_bins=bins)
                    I, J = c.interp(), c.interp()
                    got = c.call(I, c.fn(I, M, '_cell_is_droplet'), [cell, record(I, G, labels), label, r, co], k2)
                    want = c.call(J, c.fn(J, R, 'wet'), [cell, record(J, G, labels), label, r, co, ONE if bins is None else bins, xl, yl])
                    c.same('liquid-cell', c.loc(M, '_cell_is_droplet'), I.freeze(got), J.freeze(want), what=what + ' bins %s' % ('default' if bins is None else 'given'), key='liquid-cell@_cell_is_droplet')
                    c.same('no-exception', c.loc(M, '_cell_is_droplet'), c.escapes(I, exc=None), ZERO, what=what, key='no-exception@_cell_is_droplet')


class Seen(object):
    """Stands in for the condition of a cell and keeps what it was asked."""

    def __init__(self, xl, yl):
        self.xl, self.yl = xl, yl
        self.calls = []

    def __call__(self, I, fv, args, kw, node):
        a = [x[1] for x in args if x[0] == 'lit']
        if len(a) != 5 or len(args) != 5 or not I.is_ref(a[1], ViewV):
            return NotImplemented
        one = models_np.getitem(I, a[1], a[0], node)
        if not I.is_ref(one, ViewV):
            return NotImplemented
        rec = I.arr(one)
        if rec.dims or not rec.is_rec():
            return NotImplemented
        x, y = rec.fields[self.xl], rec.fields[self.yl]
        self.calls.append((node, I.st.rel, x, y, I.arr(a[1]), a[2:], {k: v for k, (v, cond) in kw.items.items()}))
        return pred('wet', x, y)


def ref_wet(I, fv, args, kw, node):
    return pred('wet', *[as_num(x[1]) for x in args])


def asked(c, S, G, tag, label, radius, cutoff, bins, labels, box, what, loc):
    """The condition is asked with the settings given, of cells which include
    all those of the (periodic) map within the radius at the cutoff."""
    xl, yl = labels
    for node, rel, x, y, data, (lab, r, co), kw in S.calls:
        c.same('settings', loc, (lab, as_num(r), as_num(co)), (label, as_num(radius), as_num(cutoff)), guard=ONE, what=what, key='settings@get_interface')
        got = kw.get('cutoff_bins')
        c.same('settings', loc, ONE if got is None else as_num(got), ONE if bins is None else bins, what=what + ' cutoff_bins', key='settings@get_interface')
        got = kw.get('coord_labels')
        c.same('settings', loc, tuple(I_lits(got)) if got is not None else ('X', 'Y'), labels, what=what + ' coord_labels', key='settings@get_interface')
        covered_by(c, x, y, data, G, tag, label, radius, cutoff, labels, box, what, loc)
        break


def I_lits(v):
    return v if isinstance(v, tuple) else (v,)


def covered_by(c, x, y, data, G, tag, label, radius, cutoff, labels, box, what, loc):
    xl, yl = labels
    if len(data.dims) != 1:
        return c.ob('neighbourhood', loc, None, what, key='neighbourhood@get_interface')
    axes = list(data.dims[0])
    parts = [{}]
    if len(axes) == 3:
        v, s = axes.pop(0)
        parts = [{v: num(i)} for i in range(int(const_value(s) or 0))]
    if len(axes) != 2:
        return c.ob('neighbourhood', loc, None, what, key='neighbourhood@get_interface')
    (i, n1), (j, n2) = axes if G.layout == 'xy' else axes[::-1]
    shifts = {}
    for p in parts:
        f = {l: as_num(subst(b, p)) for l, b in data.fields.items()}
        move = sub(f[xl], G.value(tag, 'X', atom(i), atom(j)))
        shifts.setdefault(move, []).append((f, as_num(subst(data.filt, p))))
    wanted = [ZERO] + ([box, neg(box)] if box is not None else [])
    for move in shifts:
        if move not in wanted:
            return c.ob('neighbourhood', loc, None, '%s: cells moved by %s' % (what, brief(move)), key='neighbourhood@get_interface')
    for move in wanted:
        xi, yi = add(G.value(tag, 'X', atom(i), atom(j)), move), G.value(tag, 'Y', atom(i), atom(j))
        value = G.value(tag, label, atom(i), atom(j))
        near = mul(mul(le(sub(xi, x), radius), le(sub(x, xi), radius)), mul(le(sub(yi, y), radius), le(sub(y, yi), radius)))
        near = mul(near, le(cutoff, value))
        got = shifts.get(move, [])
        missing = near
        for f, filt in got:
            missing = mul(missing, not_(filt))
        ok = not sat(missing)
        if not ok:
            c.same('neighbourhood', loc, missing, ZERO, what='%s: cells within the radius are left out of the search' % what, key='neighbourhood@get_interface')
            continue
        twice = len(got) > 1 and any(sat(mul(mul(a[1], b[1]), near)) for n, a in enumerate(got) for b in got[:n])
        same = all(f[l] is G.value(tag, m, atom(i), atom(j)) for f, filt in got for l, m in ((label, label), (yl, 'Y')))
        side = 'the map itself' if move is ZERO else 'the periodic image'
        c.ob('neighbourhood', loc, True if ok and not twice and same else None, '%s: all cells of %s which are within the radius are searched' % (what, side), key='neighbourhood@get_interface')


CASES = [
    # cutoff, radius, ylims, labels, bins
    ('given', 'given', (None, None), None, None),
    ('given', 'given', ('lo', 'hi'), None, 'cb'),
    ('given', 'given', ('lo', None), ('P', 'Q'), None),
    ('given', 'given', (None, 'hi'), None, None),
    (None, 'given', (None, None), None, None),
    ('given', None, (None, None), None, None),
]


def setting(G, cutoff, radius, ylims, labels, bins, label):
    kw = {}
    if cutoff:
        kw['cutoff'] = N('co')
    if radius:
        kw['cutoff_radius'] = N('r', pos=True)
    lims = tuple(None if x is None else N(x) for x in ylims)
    if ylims != (None, None):
        kw['ylims'] = lims
    if labels:
        kw['coord_labels'] = labels
    if bins:
        kw['cutoff_bins'] = Z(bins)
    return kw, lims


def from_outside(c):
    loc = c.loc(M, 'get_interface')
    for layout in ('xy', 'yx'):
        for case in CASES:
            cutoff, radius, ylims, labels, bins = case
            G = Grid(layout=layout)
            kw, lims = setting(G, cutoff, radius, ylims, labels, bins, 'M')
            xl, yl = labels or ('X', 'Y')
            what = 'order %s, %s' % (layout, ', '.join('%s' % k for k in sorted(kw)) or 'defaults')
            I, J = c.interp(), c.interp()
            seen = Seen(xl, yl)
            I.hooks[M + '._cell_is_droplet'] = seen
            r = c.call(I, c.fn(I, M, 'get_interface'), [flow(I, G, labels), 'M'], kw)
            J.hooks[R + '.is_wet'] = ref_wet
            co, ra = [c.call(J, c.fn(J, R, n), [record(J, G, labels)] + a) for n, a in (('midpoint', ['M']), ('least_distance', [xl, yl]))]
            if cutoff:
                co = kw['cutoff']
            if radius:
                ra = kw['cutoff_radius']
            guard = ONE if cutoff else not_(eq_num(*[c.call(J, c.fn(J, R, n), [record(J, G, labels), 'M']) for n in ('least', 'largest')]))
            w = c.call(J, c.fn(J, R, 'outermost'), [record(J, G, labels), 'M', co, xl, yl] + list(lims))
            c.same('outermost', loc, I.freeze(r), J.freeze(w), guard=guard, what=what, key='outermost@get_interface')
            asked(c, seen, G, 'a', 'M', ra, co, kw.get('cutoff_bins'), (xl, yl), None, what, loc)
            c.same('no-exception', loc, mul(c.escapes(I, exc=None), guard), ZERO, what=what, key='no-exception@get_interface')


def from_inside(c):
    loc = c.loc(M, 'get_interface')
    for n in (1, 2, 3, 4) if c.tier != 'thorough' else (1, 2, 3, 4, 5):
        for case in CASES[:2] if n > 2 else CASES:
            cutoff, radius, ylims, labels, bins = case
            G = Grid(nx=n)
            G.x0 = scale(G.dx, Fraction(1, 2))
            kw, lims = setting(G, cutoff, radius, ylims, labels, bins, 'M')
            xl, yl = labels or ('X', 'Y')
            if labels:
                continue
            what = '%d columns, %s' % (n, ', '.join(sorted(kw)) or 'defaults')
            I, J = c.interp(), c.interp()
            seen = Seen(xl, yl)
            I.hooks[M + '._cell_is_droplet'] = seen
            r = c.call(I, c.fn(I, M, 'get_interface'), [flow(I, G, labels), 'M'], dict(kw, search_longest_connected=True))
            J.hooks[R + '.is_wet'] = ref_wet
            w = c.call(J, c.fn(J, R, 'longest'), [record(J, G, labels), xl, yl] + list(lims) + [num(n)])
            co, ra = [c.call(J, c.fn(J, R, f), [record(J, G, labels)] + a) for f, a in (('midpoint', ['M']), ('least_distance', [xl, yl]))]
            if cutoff:
                co = kw['cutoff']
            if radius:
                ra = kw['cutoff_radius']
            guard = ONE if cutoff else not_(eq_num(*[c.call(J, c.fn(J, R, f), [record(J, G, labels), 'M']) for f in ('least', 'largest')]))
            c.same('longest', loc, I.freeze(r), J.freeze(w), guard=guard, what=what, key='longest@get_interface')
            asked(c, seen, G, 'a', 'M', ra, co, kw.get('cutoff_bins'), (xl, yl), mul(G.dx, num(n)), what, loc)


GROUPS = [cells, from_outside, from_inside]
