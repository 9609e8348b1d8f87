"""Bin combination (simple.average.combine_bins): normal forms of the arrays
and of the new grid information against ref.simple.combine_bins, for all grid
sizes and factors."""

from ..core import *
from ..inputs import *


def combine(c):
    def make(I):
        G = Grid()
        cx = atom(sym('cx', kind='num', int=True, pos=True))
        cy = atom(sym('cy', kind='num', int=True, pos=True))
        return [G.data(I, 'a'), G.info(I), cx, cy], {}
    c.spec('combine-bins', ('strata.dataformats.simple.average', 'combine_bins'), ('simple', 'combine_bins'), make)


SIZES = ((3, 3, 3, 3), (5, 2, 3, 2), (3, 3, 2, 2), (3, 2, 2, 1), (4, 2, 2, 2))
MORE = ((4, 4, 2, 4), (2, 3, 2, 2), (7, 3, 3, 3))


def sizes(c):
    """The same for given sizes and factors, block after block."""
    for nx, ny, fx, fy in SIZES + (MORE if c.tier == 'thorough' else ()):
        def make(I):
            G = Grid(nx=nx, ny=ny)
            return [G.data(I, 'a'), G.info(I), num(fx), num(fy)], {}
        c.spec('combine-bins', ('strata.dataformats.simple.average', 'combine_bins'), ('simple', 'combine_bins'), make,
               what='%d x %d bins by %d x %d' % (nx, ny, fx, fy))


GROUPS = [combine, sizes]
