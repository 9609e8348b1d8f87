"""Averages of flow maps on different grids: the value-flow normal forms of
droplets.average (combined grid, projection, means) are compared with their
definitions for every relation of the maps' grids along both axes (same,
inside, overlapping, apart), all sizes, offsets, spacings and bin values."""

from ..core import *
from ..inputs import *
from ..system import Z, N

M = 'droplets.average'
LABELS = ('X', 'Y', 'M', 'U', 'T')
WEIGHTS = (('U', 'M'),)


def relation(kind, ax):
    """(bins of a, first bin of b, bins of b, all bins, first bin of all) along an axis."""
    z = lambda n, **k: Z(n + ax, **k)
    if kind == 'same':
        n = z('n', pos=True)
        return n, ZERO, n, n, ZERO
    if kind == 'inside':
        p, r, nb = z('p', nonneg=True), z('r', nonneg=True), z('m', pos=True)
        na = add(p, nb, r)
        return na, p, nb, na, ZERO
    if kind == 'over':
        p, s, r = z('p', nonneg=True), z('s', pos=True), z('r', nonneg=True)
        return add(p, s), p, add(s, r), add(p, s, r), ZERO
    if kind == 'before':
        p, s, r = z('p', nonneg=True), z('s', pos=True), z('r', nonneg=True)
        return add(s, r), mul(num(-1), p), add(p, s), add(p, s, r), mul(num(-1), p)
    if kind == 'apart':
        na, g, nb = z('n', pos=True), z('g', nonneg=True), z('m', pos=True)
        return na, add(na, g), nb, add(na, g, nb), ZERO
    raise KeyError(kind)


class Pair(object):
    """Maps a and b with related grids; in file order y-major."""

    def __init__(self, kx, ky, labels=LABELS):
        self.labels = labels
        nax, px, nbx, self.nx, self.ox = relation(kx, 'x')
        nay, py, nby, self.ny, self.oy = relation(ky, 'y')
        self.a = Grid('a.', nax, nay, layout='yx')
        self.b = Grid('b.', nbx, nby, layout='yx')
        self.b.dx, self.b.dy = self.a.dx, self.a.dy
        self.b.x0 = add(self.a.x0, mul(self.a.dx, px))
        self.b.y0 = add(self.a.y0, mul(self.a.dy, py))
        self.px, self.py = px, py
        self.what = '%s along x, %s along y' % (kx, ky)
        self.x0 = add(self.a.x0, mul(self.a.dx, self.ox))
        self.y0 = add(self.a.y0, mul(self.a.dy, self.oy))
        self.maps = {'a': (self.a, ZERO, ZERO), 'b': (self.b, px, py)}

    def value(self, tag, l, i, j):
        """Value of a map at a bin of the combined grid (counted from its start), 0 outside."""
        g, px, py = self.maps[tag]
        i, j = sub(add(i, self.ox), px), sub(add(j, self.oy), py)
        inside = mul(mul(le(ZERO, i), lt(i, g.nx)), mul(le(ZERO, j), lt(j, g.ny)))
        return mul(inside, elem('%s.%s' % (tag, l), i, j, nonneg=l in NONNEG))

    def axes(self):
        return new_axis(self.nx, 'i'), new_axis(self.ny, 'j')

    def coordinate(self, l, i, j):
        return add(self.x0, mul(self.a.dx, i)) if l == 'X' else add(self.y0, mul(self.a.dy, j))

    def array(self, I, dims, i, j, f, labels=None):
        return I.freeze(I.new_arr(ArrVal(dims, {l: self.coordinate(l, i, j) if l in 'XY' else f(l) for l in labels or self.labels},
                                         dtypes={l: 'float' for l in self.labels})))

    def info(self):
        return [('_bin_spacing', (self.a.dx, self.a.dy)), ('_num_bins', mul(self.nx, self.ny)), ('_origin', (self.x0, self.y0)), ('_shape', (self.nx, self.ny))]


def mean(vals):
    return scale(add(*vals), Fraction(1, len(vals)))


def weighted(vals, ws):
    total = add(*ws)
    return ite(eq_num(total, ZERO), ZERO, mul(add(*[mul(v, w) for v, w in zip(vals, ws)]), power(total, -1)))


def flat(i, j):
    return ((j, i),)


PAIRS_QUICK = [('same', 'same'), ('inside', 'inside'), ('over', 'before'), ('before', 'over'), ('apart', 'inside'), ('inside', 'apart'), ('same', 'over')]
KINDS = ('same', 'inside', 'over', 'before', 'apart')


def pairs(c):
    return [(x, y) for x in KINDS for y in KINDS] if c.tier == 'thorough' else PAIRS_QUICK


def grids(c):
    """get_combined_grid: the smallest grid with all bins of all maps."""
    for kx, ky in pairs(c):
        P = Pair(kx, ky)
        for order in ('ab', 'ba'):
            I = c.interp()
            f = c.fn(I, M, 'get_combined_grid')
            recs = {'a': P.a.record(I, 'a', LABELS), 'b': P.b.record(I, 'b', LABELS)}
            r = c.call(I, f, [I.list_of([recs[t] for t in order]), (P.a.dx, P.a.dy)])
            i, j = P.axes()
            want = P.array(I, ((j,), (i,)), atom(i[0]), atom(j[0]), lambda l: ZERO)
            c.same('combined-grid', c.loc(M, 'get_combined_grid'), I.freeze(r), want, what='%s, maps %s' % (P.what, order), key='combined-grid@get_combined_grid')
    P = Pair('same', 'same')
    I = c.interp()
    r = c.call(I, c.fn(I, M, 'get_combined_grid'), [I.list_of([P.a.record(I, 'a', LABELS)]), (P.a.dx, P.a.dy)])
    i, j = P.axes()
    want = P.array(I, ((j,), (i,)), atom(i[0]), atom(j[0]), lambda l: ZERO)
    c.same('combined-grid', c.loc(M, 'get_combined_grid'), I.freeze(r), want, what='one map', key='combined-grid@get_combined_grid')
    # an empty map takes no part
    I = c.interp()
    r = c.call(I, c.fn(I, M, 'get_combined_grid'), [I.list_of([P.a.record(I, 'a', LABELS), empty_record(I)]), (P.a.dx, P.a.dy)])
    i, j = P.axes()
    want = P.array(I, ((j,), (i,)), atom(i[0]), atom(j[0]), lambda l: ZERO)
    c.same('combined-grid', c.loc(M, 'get_combined_grid'), I.freeze(r), want, what='one map and an empty one', key='combined-grid@get_combined_grid')
    I = c.interp()
    c.call(I, c.fn(I, M, 'get_combined_grid'), [I.list_of([]), (P.a.dx, P.a.dy)], may_fail=True)
    c.same('no-maps-refused', c.loc(M, 'get_combined_grid'), c.escapes(I, 'ValueError'), ONE, key='no-maps-refused@get_combined_grid')


def empty_record(I, labels=LABELS):
    i = new_axis(ZERO, 'i')
    return I.new_arr(ArrVal(((i,),), {l: ZERO for l in labels}, dtypes={l: 'float' for l in labels}))


def projections(c):
    """transfer_data: the bins of a map move to their places on a larger grid."""
    for kx, ky in (('inside', 'inside'), ('same', 'inside'), ('inside', 'same'), ('same', 'same')):
        P = Pair(kx, ky)
        I = c.interp()
        f = c.fn(I, M, 'transfer_data')
        i, j = P.axes()
        grid = I.new_arr(ArrVal(((j,), (i,)), {l: P.coordinate(l, atom(i[0]), atom(j[0])) if l in 'XY' else elem('g.' + l, atom(i[0]), atom(j[0])) for l in LABELS},
                                dtypes={l: 'float' for l in LABELS}))
        before = I.freeze(grid)
        r = c.call(I, f, [grid, P.b.record(I, 'b', LABELS), (P.b.nx, P.b.ny), (P.a.dx, P.a.dy)])
        i, j = P.axes()
        ii, jj = atom(i[0]), atom(j[0])
        ki, kj = sub(ii, P.px), sub(jj, P.py)
        inside = mul(mul(le(ZERO, ki), lt(ki, P.b.nx)), mul(le(ZERO, kj), lt(kj, P.b.ny)))

        def val(l):
            return ite(inside, P.b.value('b', l, ki, kj), elem('g.' + l, ii, jj))
        want = P.array(I, flat(i, j), ii, jj, val)
        c.same('projection', c.loc(M, 'transfer_data'), I.freeze(r), want, what=P.what, key='projection@transfer_data')
        c.same('grid-unchanged', c.loc(M, 'transfer_data'), I.freeze(grid), before, what=P.what, key='grid-unchanged@transfer_data')


def means(c):
    """average_data: plain and weighted means, bin by bin."""
    for n in (1, 2, 3) + ((4,) if c.tier == 'thorough' else ()):
        for weights in ((), WEIGHTS, (('U', 'M'), ('T', 'M'))):
            G = Grid(layout='yx')
            I = c.interp()
            f = c.fn(I, M, 'average_data')
            tags = 'abcd'[:n]
            recs = [G.record(I, t, LABELS) for t in tags]
            before = [I.freeze(r) for r in recs]
            r = c.call(I, f, [I.list_of(recs)], {'weights': I.list_of(list(weights))} if weights else {})
            i, j = G.axes()
            ii, jj = atom(i[0]), atom(j[0])
            w = dict(weights)

            def val(l):
                vs = [G.value(t, l, ii, jj) for t in tags]
                if l in 'XY':
                    return vs[0]
                return weighted(vs, [G.value(t, w[l], ii, jj) for t in tags]) if l in w else mean(vs)
            want = I.freeze(I.new_arr(ArrVal(flat(i, j), {l: val(l) for l in LABELS}, dtypes={l: 'float' for l in LABELS})))
            c.same('bin-means', c.loc(M, 'average_data'), I.freeze(r), want, what='%d maps, weights %s' % (n, list(weights)), key='bin-means@average_data')
            for t, b, x in zip(tags, before, recs):
                c.same('inputs-unchanged', c.loc(M, 'average_data'), I.freeze(x), b, what='map %s of %d' % (t, n), key='inputs-unchanged@average_data')


def attrs(I, v):
    """Attributes of an instance (frozen)."""
    rec = I.get(v)
    return dict(rec.attrs)


def flows(c):
    """average_flow_data: the mean over all maps on the combined grid."""
    loc = c.loc(M, 'average_flow_data')
    for kx, ky in pairs(c):
        for weights, empties in (((), None), (WEIGHTS, None)):
            P = Pair(kx, ky)
            run(c, loc, P, 'ab', weights, empties)
    P = Pair('same', 'same')
    run(c, loc, P, 'a', WEIGHTS, None)
    for exclude in (True, False):
        run(c, loc, Pair('same', 'same'), 'a', WEIGHTS, exclude)
        run(c, loc, Pair('inside', 'over'), 'ab', WEIGHTS, exclude)


def run(c, loc, P, tags, weights, exclude):
    """exclude: None: no empty map; True, False: an empty map, excluded or not."""
    I = c.interp()
    f = c.fn(I, M, 'average_flow_data')
    flow = I.function('droplets.flow', 'FlowData')
    ms = [P.maps[t][0].flow(I, t, P.labels) for t in tags]
    before = [I.freeze(m) for m in ms]
    if exclude is not None:
        e = empty_record(I, P.labels)
        info = I.new_dict()
        I.get(info).items['shape'] = ((ZERO, ZERO), ONE)
        I.get(info).items['spacing'] = ((P.a.dx, P.a.dy), ONE)
        ms.append(I.call(flow, [(l, I.subscript(e, l)) if hasattr(I, 'subscript') else (l, empty_field(I)) for l in P.labels], {'info': info}))
    kw = {}
    if weights:
        kw['weights'] = I.list_of(list(weights))
    if exclude is not None:
        kw['exclude_empty_sets'] = exclude
    r = c.call(I, f, [I.list_of(ms)], kw)
    n = len(tags) + (1 if exclude is False else 0)
    i, j = P.axes()
    ii, jj = atom(i[0]), atom(j[0])
    w = dict(weights)

    def val(l):
        vs = [P.value(t, l, ii, jj) for t in tags]
        if l in w:
            return weighted(vs, [P.value(t, w[l], ii, jj) for t in tags])
        return scale(add(*vs), Fraction(1, n))
    want = P.array(I, flat(i, j), ii, jj, val)
    what = '%s, maps %s%s, weights %s' % (P.what, tags, '' if exclude is None else ', an empty map %s' % ('excluded' if exclude else 'included'), list(weights))
    if I.get(r) is None:
        c.ob('average-on-combined-grid', loc, None, what)
        return
    got = {k: I.freeze(v) for k, v in attrs(I, r).items()}
    c.same('average-on-combined-grid', loc, got.get('data'), want, what=what, key='average-on-combined-grid@average_flow_data')
    for k, v in P.info():
        c.same('grid-information', loc, got.get(k), v, what='%s of %s' % (k, what), key='grid-information@average_flow_data')
    for m, b in zip(ms, before):
        c.same('inputs-unchanged', loc, I.freeze(m), b, what=what, key='inputs-unchanged@average_flow_data')


def unequal(c):
    """Maps on grids of different spacing are refused."""
    loc = c.loc(M, 'average_flow_data')
    one, two = num(1), num(2)
    for spacings in (((one, one), (two, one)), ((one, one), (one, two)), ((one, one), (two, two)), ((one, two), (two, one)),
                     ((one, one), (one, one), (one, two)), ((two, one), (two, one), (one, one))):
        I = c.interp()
        f = c.fn(I, M, 'average_flow_data')
        ms = []
        for n, (dx, dy) in enumerate(spacings):
            G = Grid('abc'[n] + '.', layout='yx')
            G.dx, G.dy = dx, dy
            ms.append(G.flow(I, 'abc'[n], LABELS))
        c.call(I, f, [I.list_of(ms)], may_fail=True)
        c.same('other-spacings-refused', loc, c.escapes(I, 'ValueError'), ONE, what='spacings %s' % ' and '.join('(%s, %s)' % (brief(x), brief(y)) for x, y in spacings), key='other-spacings-refused@average_flow_data')


def empty_field(I):
    i = new_axis(ZERO, 'i')
    return I.new_arr(ArrVal(((i,),), {None: ZERO}, dtypes={None: 'float'}))


GROUPS = [grids, projections, means, flows, unequal]
