"""Symbolic inputs of the analysed entry points."""

from .terms import *
from .values import *

FIELDS = ('X', 'Y', 'N', 'T', 'M', 'U', 'V')
NONNEG = ('N', 'M', 'T')


def elem(name, *idx, **facts):
    """Value of the named input array at an index."""
    a = sym(name, kind='array', **facts)
    return atom(mk('elem', a, *[as_num(i) for i in idx]))


def array(I, name, sizes, **facts):
    """A one dimensional composite array (layout: product of axes) of unknowns."""
    axes = [new_axis(s, 'i') for s in sizes]
    body = elem(name, *[atom(v) for v, s in axes], **facts)
    return I.new_arr(ArrVal((tuple(axes),), {None: body}, dtypes={None: 'float'}))


class Grid(object):
    """A regular grid: x = x0 + dx*i, y = y0 + dy*j."""

    def __init__(self, tag='', nx=None, ny=None, layout='xy', dec=None, step=None):
        """dec: coordinates are multiples of 10**-dec; step: the least spacing."""
        more = {} if dec is None else {'decimals': dec}
        g = lambda n, **k: atom(sym(tag + n, kind='num', **dict(k, **({} if n in ('nx', 'ny') else more))))
        self.nx = g('nx', int=True, pos=True) if nx is None else as_num(nx)
        self.ny = g('ny', int=True, pos=True) if ny is None else as_num(ny)
        self.dx = g('dx', pos=True)
        self.dy = g('dy', pos=True)
        self.x0 = g('x0')
        self.y0 = g('y0')
        self.layout = layout
        if step is not None:
            for d in (self.dx, self.dy):
                FACTS.info[single_atom(d)]['lo'] = num(step)

    def axes(self):
        i = new_axis(self.nx, 'i')
        j = new_axis(self.ny, 'j')
        return i, j

    def value(self, tag, label, i, j):
        """Value of a field in the bin (i, j)."""
        i, j = as_num(i), as_num(j)
        if label == 'X':
            return add(self.x0, mul(self.dx, i))
        if label == 'Y':
            return add(self.y0, mul(self.dy, j))
        return elem(tag + '.' + label, i, j, nonneg=label in NONNEG)

    def dims(self, i, j):
        if self.layout == 'xy':
            return ((i, j),)
        if self.layout == 'yx':
            return ((j, i),)
        return ((i,), (j,))

    def array(self, I, tag, label, dtype=None):
        i, j = self.axes()
        return I.new_arr(ArrVal(self.dims(i, j), {None: self.value(tag, label, atom(i[0]), atom(j[0]))},
                                dtypes={None: dtype or 'float'}))

    def data(self, I, tag, labels=FIELDS):
        d = I.new_dict()
        for l in labels:
            I.get(d).items[l] = (self.array(I, tag, l), ONE)
        return d

    def record(self, I, tag, labels=FIELDS):
        i, j = self.axes()
        return I.new_arr(ArrVal(self.dims(i, j), {l: self.value(tag, l, atom(i[0]), atom(j[0])) for l in labels}, dtypes={l: 'float' for l in labels}))

    def flow(self, I, tag, labels=FIELDS, info=True):
        """FlowData object with these bins."""
        f = I.function('droplets.flow', 'FlowData')
        i, j = self.axes()
        args = [(l, self.array(I, tag, l)) for l in labels]
        r = I.call(f, args, {'info': self.info(I)} if info else {})
        return r

    def info(self, I, origin=None):
        d = I.new_dict()
        it = I.get(d).items
        it['shape'] = ((self.nx, self.ny), ONE)
        it['spacing'] = ((self.dx, self.dy), ONE)
        it['origin'] = (origin or (self.x0, self.y0), ONE)
        it['num_bins'] = (mul(self.nx, self.ny), ONE)
        return d
