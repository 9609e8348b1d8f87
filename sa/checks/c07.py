"""Averages of plain data maps: the value-flow normal form of every element of
every output array of strata.dataformats.simple.average.average_data is
compared with the reference definition (ref.simple.average_data) over all
grid sizes, spacings and bin values."""

from ..core import *
from ..inputs import *

TARGET = ('strata.dataformats.simple.average', 'average_data')


def _maps(n, tags='abcdef'):
    def make(I):
        G = Grid()
        return [G.data(I, tags[i]) for i in range(n)], {}
    return make


def averages(c):
    for n in (1, 2, 3) + ((4, 5) if c.tier == 'thorough' else ()):
        c.spec('weighted-average', TARGET, ('simple', 'average_data'), _maps(n), what='%d maps' % n)


def empty(c):
    c.spec('empty-input', TARGET, ('simple', 'average_data'), _maps(0))


def rejects(c):
    """Maps on different coordinates are refused."""
    def make(I, axis):
        a = Grid()
        b = Grid()
        if axis == 'X':
            b.x0 = atom(sym('x1', kind='num'))
        else:
            b.y0 = atom(sym('y1', kind='num'))
        return [a.data(I, 'a'), a.data(I, 'b'), b.data(I, 'd')], {}
    for axis in 'XY':
        for order in (0, 1):
            got = []
            for m, n in (TARGET, ('ref.simple', 'average_data')):
                I = c.interp()
                f = c.fn(I, m, n)
                args, kw = make(I, axis)
                if order:
                    args = args[1:]
                c.call(I, f, args, kw)
                got.append(c.escapes(I, 'ValueError'))
            c.same('coordinates-must-match', c.loc(*TARGET), got[0], got[1], what='%s differs in %s map' % (axis, ('third', 'second')[order]), key='coordinates-must-match@average_data')


GROUPS = [averages, empty, rejects]
