"""Finer and coarser flow maps: the value-flow normal forms of
droplets.resample are compared with the reference definitions (ref.flow) for
all grids, file orders, factors and bin values."""

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N
from ..flows import *

M = 'droplets.resample'
WEIGHTS = (('U', 'M'), ('V', 'M'), ('T', 'N'))


def _weights(I, ws):
    return I.list_of(list(ws))


def _dict(I, ws):
    d = I.new_dict()
    for k, v in ws:
        I.get(d).items[k] = (v, ONE)
    return d


def pair(c, rule, target, ref, make, refmake, what):
    """Target and reference take different arguments."""
    loc = c.loc(*target)
    I = c.interp()
    f = c.fn(I, *target)
    args, kw = make(I)
    flow = args[0]
    before = I.freeze(flow)
    I.trace = []
    r = c.call(I, f, args, kw)
    c.same('input-unchanged', loc, I.freeze(flow), before, what=what, key='input-unchanged@%s' % target[1])
    J = c.interp()
    g = c.fn(J, 'ref.flow', ref)
    compare_flows(c, rule, loc, parts(I, r), wanted(J, c.call(J, g, refmake(J))), what, '%s@%s' % (rule, target[1]))
    c.same('no-exception', loc, c.escapes(I), ZERO, what=what, key='no-exception@%s' % target[1])


def coarser(c):
    for layout in ('xy', 'yx'):
        for ws in ((), WEIGHTS, (('T', 'M'),)):
            cx, cy = Z('cx', pos=True), Z('cy', pos=True)
            mk = lambda I: Grid(layout=layout).flow(I, 'a')
            pair(c, 'blocks-summed-or-averaged', (M, 'downsample_flow_data'), 'downsampled',
                 lambda I: ([mk(I), (cx, cy)], {'weights': _weights(I, ws)} if ws else {}), lambda I: [mk(I), cx, cy, _dict(I, ws)], 'order %s, weights %s' % (layout, list(ws)))


def finer(c):
    anyf = Z('factor', pos=True)
    FACTS.info[single_atom(anyf)]['lo'] = num(2)
    cases = [('xy', (), anyf), ('yx', WEIGHTS, num(2)), ('xy', WEIGHTS, num(3))]
    if c.tier == 'thorough':
        cases = [(l, w, f) for l in ('xy', 'yx') for w in ((), WEIGHTS) for f in (num(2), num(3), num(4), anyf)]
    for layout, ws, factor in cases:
        mk = lambda I: Grid(layout=layout).flow(I, 'a')
        pair(c, 'smoothed-over-neighbours', (M, 'supersample_flow_data'), 'supersampled',
             lambda I: ([mk(I), factor], {'weights': _weights(I, ws)} if ws else {}), lambda I: [mk(I), factor, _dict(I, ws)],
             'order %s, factor %s, weights %s' % (layout, brief(factor), list(ws)))


def trivial(c):
    """A factor of one or None changes nothing."""
    for factor in (ONE, None):
        I = c.interp()
        flow = Grid().flow(I, 'a')
        r = c.call(I, c.fn(I, M, 'supersample_flow_data'), [flow, factor])
        loc = c.loc(M, 'supersample_flow_data')
        compare_flows(c, 'factor-one-is-a-copy', loc, parts(I, r), parts(I, flow), brief(factor), 'factor-one-is-a-copy')
        c.ob('copy-is-a-new-object', loc, r is not flow and I.get(r).attrs.get('data') is not I.get(flow).attrs.get('data'), brief(factor), 'copy-is-a-new-object')


GROUPS = [coarser, finer, trivial]
