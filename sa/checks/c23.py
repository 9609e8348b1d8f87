"""Interface collection: the outline of every map (value-flow normal forms for
known layers and symbolic positions of the edges, through several maps) is
compared with the reference definition (ref.outline)."""

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, S, Maps, fopts, search_opts, source_of
from ..capture import *

M = 'strata.interface.collect'
G = 'droplets.interface.get_interface'
NX, NY = 10, 6


class Layers(object):
    """Maps with known layers: rows of the grid, and the columns of their edges."""

    def __init__(self, series):
        """series: for every map the layers (row, left column, right column)."""
        self.series = series
        self.maps = Maps(corner=True)
        g = self.maps.grid
        g.nx, g.ny = num(NX), num(NY)
        g.dy = num(Fraction(1, 4))
        # positions in the box start at zero
        g.x0 = scale(g.dx, Fraction(1, 2))
        g.y0 = num(Fraction(1, 8))
        self.paths = [S('p%d' % k) for k in range(len(series))]

    def install(self, I):
        self.maps.install(I)
        I.hooks['strata.utils.find_datamap_files'] = lambda I, fv, a, k, node: I.list_of(self.paths)

        def interface(I, args, kw):
            flow = args[0][1] if args else kw.items['flow'][0]
            p = source_of(I, flow)
            p = single_atom(p) if isinstance(p, T) and p.op == 'num' else p
            if p is None or p.op != 'sym':
                return I.unknown('interface')
            layers = self.series[int(p.args[0][1:])]
            return I.alloc(GenV(tuple(('lit', (num(l*NY + row), num(r*NY + row))) for row, l, r in layers), ZERO))
        capture(I, G, ('flow', 'label'), interface)

    def wanted(self, I):
        g = self.maps.grid
        out = []
        for k, layers in enumerate(self.series):
            v = [I.get(self.maps.read(I, self.paths[k])[0]).items[l][0] for l in 'XM']
            sides = [I.list_of([add(g.x0, scale(g.dx, l[s])) for l in layers]) for s in (1, 2)]
            out.append((I.list_of([num(l[0]) for l in layers]), sides[0], sides[1], v[0], v[1]))
        return I.list_of(out), g.dy, mul(g.dx, g.nx)


# the edges of one layer in subsequent maps (10 columns)
HISTORIES = [
    [(3, 6), (2, 7), (1, 8)],           # spreads
    [(1, 6), (9, 6), (8, 7)],           # the left edge leaves to the left
    [(3, 8), (3, 1), (2, 2)],           # the right edge leaves to the right
    [(9, 3), (8, 4), (7, 5)],           # starts across the boundary
    [(8, 2), (9, 1), (1, 9)],           # comes back inside
    [(5, 9), (6, 0), (7, 1), (8, 2)],
    [(1, 4), (0, 3), (9, 2), (9, 3)],
    [(1, 8), (9, 8), (9, 0), (0, 9)],
]


def series(tier):
    out = []
    for a in HISTORIES:
        for b in (HISTORIES if tier == 'thorough' else [[(4, 5)]*4]):
            n = min(len(a), len(b))
            out.append([[(0,) + a[k], (1,) + b[k]] for k in range(n)])
            out.append([[(2,) + b[k], (3,) + a[k]] for k in range(n)])
            out.append([[(0,) + a[k], (1,) + b[k], (2,) + a[k]] for k in range(n)])
    # layers appear and vanish at the bottom and at the top
    for a in HISTORIES:
        for rows in (((1, 2), (0, 1, 2), (1, 2), (0, 1)), ((1, 2), (1, 2, 3), (1, 2, 3, 4), (2, 3)), ((0, 1, 2), (1, 2, 3), (0, 1), (2, 3, 4)),
                     ((0, 1, 2, 3), (1, 2), (1, 2), (0, 1, 2, 3)), ((1, 2), (3, 4), (3, 4), (0, 1))):
            out.append([[(r,) + (a[k] if r % 2 == 0 else HISTORIES[3][min(k, 2)]) for r in rows[k]] for k in range(min(len(a), 4))])
    return out


def elements(v, label):
    """Values of a field of known size as a tuple."""
    if not (isinstance(v, T) and v.op == 'arr' and len(v.args[0]) == 1 and len(v.args[0][0]) == 1 and v.args[2] is ONE):
        return None
    (i, s), = v.args[0][0]
    n = const_value(s)
    f = dict(v.args[1])
    if n is None or label not in f:
        return None
    return tuple(subst_any(f[label], {i: num(k)}) for k in range(int(n)))


PARAMS = ('path', 'interface', 'fngroup', 'kwargs', 'recenter')


def outlines(c):
    """What is written for every map."""
    loc = c.loc(M, 'collect_interfaces')
    for n, s in enumerate(series(c.tier)):
        for recenter in (None, 'zero', 'com') if n % 5 == 0 or c.tier == 'thorough' else (None,):
            L = Layers(s)
            what = 'layers %s, recenter %s' % (' / '.join(' '.join('%d:%d-%d' % l for l in m) for m in s), recenter)
            I, J = c.interp(), c.interp()
            L.install(I)
            capture(I, M + '.write_interface_data', PARAMS)
            c.call(I, c.fn(I, M, 'collect_interfaces'), [S('base'), S('out')], dict(fopts(begin=ONE, end=INF), recenter=recenter, quiet=True))
            got = captured(I, M + '.write_interface_data')
            maps, dy, box = L.wanted(J)
            want = J.freeze(c.call(J, c.fn(J, 'ref.outline', 'outlines'), [maps, dy, box, recenter]))
            want = [x[1] for x in want.args[0]]
            c.ob('one-outline-per-map', loc, len(got) == len(want), '%s: %d outlines for %d maps' % (what, len(got), len(want)))
            for k, (e, w) in enumerate(zip(got, want)):
                for n, l in enumerate('XY'):
                    v = e.data['args'].get('interface')
                    x = elements(v, l)
                    y = tuple(q[1] for q in w[n].args[0])
                    if x is None:
                        c.ob('outline', loc, None, '%s, map %d: %s of %s' % (what, k, l, brief(v, 100)))
                    elif len(x) != len(y):
                        c.ob('outline', loc, False, '%s, map %d: %d points where %d are required' % (what, k, len(x), len(y)))
                    else:
                        c.same('outline', loc, x, y, what='%s, map %d, %s' % (what, k, l), key='outline@' + M)


GROUPS = [outlines]
