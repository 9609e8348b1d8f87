"""The average command: the maps it hands to the writer (paths, fields and
grid information, for every group of files) are captured as normal forms and
compared with the reference definitions (ref.averaging) for all files, grids,
values, limits and factors."""

from ..core import *
from ..values import *
from ..inputs import *
from ..system import *
from ..capture import *

W = 'strata.dataformats.write.write'
PARAMS = ('path', 'data', 'info', 'ftype')


def command(c, **kw):
    I, r = COMMANDS['average'].run(c, prepare=lambda I: capture(I, W, PARAMS), quiet=True, **kw)
    return I


def group_of(kw):
    return kw.get('group', 2)


def run(c, ref, refargs, what, group=2, rolling=False, **kw):
    loc = c.loc('strata.average', 'average')
    cmd = COMMANDS['average']
    old = cmd.args
    try:
        cmd.args = lambda I: [S('base'), S('out'), num(group)]
        I = command(c, rolling=rolling, **kw)
    finally:
        cmd.args = old
    J = c.interp()
    Maps().install(J)
    capture(J, W, PARAMS)
    f = c.fn(J, 'ref.averaging', ref)
    o = fopts()
    c.call(J, f, [S('base'), S('out'), o['begin'], o['end'], o['ext'], num(group), rolling] + refargs)
    compare_captured(c, 'written-map', loc, captured(I), captured(J), what, 'written-map@average')


def groups(c):
    for n in (1, 2, 3) + ((4,) if c.tier == 'thorough' else ()):
        for rolling in (False, True):
            run(c, 'plain', [(None, None), (None, None)], 'groups of %d%s' % (n, ' rolling' if rolling else ''), n, rolling)


def cut(c):
    x, y = (N('xa'), N('xb')), (N('ya'), N('yb'))
    for xl, yl in ((x, y), ((None, x[1]), (None, None)), ((None, None), (y[0], None)), ((ZERO, None), (None, ZERO))):
        run(c, 'plain', [xl, yl], 'limits %s %s' % (xl, yl), xlim=xl, ylim=yl)


def coarse(c):
    cx, cy = Z('cx', pos=True), Z('cy', pos=True)
    run(c, 'combined', [cx, cy], 'combined bins', 1, combine=(cx, cy))


def fine(c):
    for k in (2, 3) if c.tier == 'thorough' else (2,):
        run(c, 'finer', [num(k)], 'supersampled by %d' % k, 1, supersample=num(k))


GROUPS = [groups, cut, coarse, fine]
