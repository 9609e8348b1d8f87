"""Selection of bins by limits: the value-flow normal forms of every function
that takes limits (the condition under which a bin is kept and the fields of
the kept bins) are compared with the reference definitions (ref.limits) for
all grids, values and limits, given or not, zero included."""

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, _dict
from ..flows import *

LABELS = ('X', 'Y', 'M', 'U', 'V')


def bounds(n):
    lo, hi = N(n + '.lo'), N(n + '.hi')
    return [(lo, hi), (lo, None), (None, hi), (None, None), (ZERO, None), (None, ZERO), (ZERO, ZERO)]


def txt(b):
    return '(%s, %s)' % tuple('none' if v is None else brief(v) for v in b)


def reference(c, name, make):
    J = c.interp()
    return J.freeze(c.call(J, c.fn(J, 'ref.limits', name), make(J)))


def fields(c, rule, loc, got, want, what, key):
    """got: frozen dict / record parts; want: frozen dict."""
    w = {k: v for k, v, g in want.args[0]}
    if got is None:
        c.ob(rule, loc, None, what)
        return
    for l in sorted(set(w) | set(got)):
        if l not in got or l not in w:
            c.ob(rule, loc, False, '%s: field %s is %s' % (what, l, 'missing' if l in w else 'not expected'), key)
            continue
        c.same(rule, loc, got[l], w[l], what='%s: field %s' % (what, l), key=key)


def flow_limits(c):
    """FlowData.lims: closed limits of any field."""
    from .. import models
    for label in ('X', 'Y', 'M', 'U'):
        for b in bounds('l'):
            I = c.interp()
            G = Grid(layout='yx' if label == 'Y' else 'xy')
            flow = G.flow(I, 'a', LABELS)
            before = I.freeze(flow)
            loc = c.loc('droplets.flow', 'lims')
            r = c.call(I, models.getattr_(I, flow, 'lims', None), [label, b[0], b[1]])
            what = '%s in %s' % (label, txt(b))
            lim = lambda J: _dict(J, **{label: b})
            want = reference(c, 'selected', lambda J: [G.record(J, 'a', LABELS), J.list_of(list(LABELS)), lim(J)])
            p = parts(I, r)
            fields(c, 'kept-bins', loc, {k[6:]: v for k, v in p.items() if k.startswith('field')} if p else None, want, what, 'kept-bins@lims')
            if p:
                n = reference(c, 'number', lambda J: [G.record(J, 'a', LABELS), lim(J)])
                for k, v in (('num_bins', n), ('spacing', (G.dx, G.dy)), ('shape', (None, None)), ('origin', (None, None))):
                    c.same('grid-information', loc, p[k], v, what='%s: %s' % (what, k), key='grid-information@lims')
            c.same('input-unchanged', loc, I.freeze(flow), before, what=what, key='input-unchanged@lims')


def flow_cut(c):
    """FlowData.cut: closed coordinate limits; the shape counts the kept coordinates."""
    from .. import models
    bx, by = bounds('x'), bounds('y')
    cases = [(x, by[i % 4]) for i, x in enumerate(bx)] + [(bx[(i + 1) % 4], y) for i, y in enumerate(by)]
    for x, y in cases:
        I = c.interp()
        G = Grid()
        flow = G.flow(I, 'a', LABELS)
        before = I.freeze(flow)
        loc = c.loc('droplets.flow', 'cut')
        r = c.call(I, models.getattr_(I, flow, 'cut', None), [], {'xlim': x, 'ylim': y})
        what = 'x in %s, y in %s' % (txt(x), txt(y))
        lim = lambda J: _dict(J, X=x, Y=y)
        want = reference(c, 'selected', lambda J: [G.record(J, 'a', LABELS), J.list_of(list(LABELS)), lim(J)])
        p = parts(I, r)
        fields(c, 'kept-bins', loc, {k[6:]: v for k, v in p.items() if k.startswith('field')} if p else None, want, what, 'kept-bins@cut')
        if p:
            n = tuple(reference(c, 'distinct', lambda J: [G.record(J, 'a', LABELS), lim(J), l]) for l in 'XY')
            for k, v in (('shape', n), ('spacing', (G.dx, G.dy)), ('num_bins', mul(as_num(n[0]), as_num(n[1])) if all(is_num(q) for q in n) else None)):
                if v is not None:
                    c.same('grid-information', loc, p[k], v, what='%s: %s' % (what, k), key='grid-information@cut')
        c.same('input-unchanged', loc, I.freeze(flow), before, what=what, key='input-unchanged@cut')


def map_cut(c):
    """strata.average.cut_system: every field of a map is cut the same way."""
    bx, by = bounds('x'), bounds('y')
    for x, y in [(x, by[i % 4]) for i, x in enumerate(bx)] + [(bx[(i + 1) % 4], y) for i, y in enumerate(by)]:
        I = c.interp()
        G = Grid()
        loc = c.loc('strata.average', 'cut_system')
        r = c.call(I, c.fn(I, 'strata.average', 'cut_system'), [G.data(I, 'a', LABELS), x, y])
        r = I.freeze(r)
        what = 'x in %s, y in %s' % (txt(x), txt(y))
        want = reference(c, 'selected', lambda J: [G.record(J, 'a', LABELS), J.list_of(list(LABELS)), _dict(J, X=x, Y=y)])
        got = {k: v for k, v, g in r.args[0]} if isinstance(r, T) and r.op == 'dict' else None
        fields(c, 'kept-bins', loc, got, want, what, 'kept-bins@cut_system')


def resample_cut(c):
    """Limits of the resampled part of a map."""
    bx, by = bounds('x'), bounds('y')
    for x, y in [(x, by[i % 4]) for i, x in enumerate(bx)] + [(bx[(i + 1) % 4], y) for i, y in enumerate(by)]:
        I = c.interp()
        G = Grid()
        m = 'droplets.resample'
        loc = c.loc(m, '_cut_system_limits')
        flow = G.flow(I, 'a', LABELS)
        r = c.call(I, c.fn(I, m, '_cut_system_limits'), [flow, x, y, ('X', 'Y')])
        what = 'x in %s, y in %s' % (txt(x), txt(y))
        lim = lambda J: _dict(J, X=x, Y=y)
        want = reference(c, 'selected', lambda J: [G.record(J, 'a', LABELS), J.list_of(list(LABELS)), lim(J)])
        p = parts(I, r)
        fields(c, 'kept-bins', loc, {k[6:]: v for k, v in p.items() if k.startswith('field')} if p else None, want, what, 'kept-bins@_cut_system_limits')
        if p:
            n = tuple(reference(c, 'distinct', lambda J: [G.record(J, 'a', LABELS), lim(J), l]) for l in 'XY')
            o = tuple(reference(c, 'smallest', lambda J: [G.record(J, 'a', LABELS), lim(J), l]) for l in 'XY')
            for k, v in (('shape', n), ('spacing', (G.dx, G.dy)), ('origin', o)):
                c.same('grid-information', loc, p[k], v, what='%s: %s' % (what, k), key='grid-information@_cut_system_limits')


def index_limits(c):
    m = 'droplets.data_utils'
    loc = c.loc(m, 'get_lim_indices')
    combos = [{}] + [{l: b} for l in ('X', 'M') for b in bounds('l')] + [{'X': (N('x0_'), None), 'M': (None, N('m1_'))}, {'Y': (N('y0_'), N('y1_')), 'U': (ZERO, None), 'X': (None, N('x1_'))}]
    for lim in combos:
        I = c.interp()
        G = Grid()
        r = c.call(I, c.fn(I, m, 'get_lim_indices'), [G.record(I, 'a', LABELS), _dict(I, **lim)])
        want = reference(c, 'indices', lambda J: [G.record(J, 'a', LABELS), _dict(J, **lim)])
        r = I.freeze(r)
        if isinstance(r, tuple) and len(r) == 1:
            r = r[0]
        c.same('kept-indices', loc, r, want, what=', '.join('%s in %s' % (l, txt(b)) for l, b in lim.items()) or 'no limits', key='kept-indices@get_lim_indices')


def arrows(c):
    """Arrows are drawn for the bins with flow within the limits and the cutoff."""
    m = 'strata.view_flowmap'
    loc = c.loc(m, 'get_quiver_data')
    bx, by = bounds('x'), bounds('y')
    n = 0
    for x, y in [(x, by[i % 4]) for i, x in enumerate(bx)] + [(bx[(i + 1) % 4], y) for i, y in enumerate(by)]:
        for clim, colour in ((('M', N('co')), None), (('M', None), 'M'), ((None, None), 'M'), (('U', ZERO), None)):
            n += 1
            if n % 3 and c.tier != 'thorough':
                continue
            I = c.interp()
            G = Grid()
            args = lambda I: [G.record(I, 'a', LABELS), I.list_of(['U', 'V']), I.list_of(['X', 'Y']), colour, clim, x, y]
            r = I.freeze(c.call(I, c.fn(I, m, 'get_quiver_data'), args(I)))
            want = reference(c, 'moving', lambda J: [G.record(J, 'a', LABELS), J.list_of(list(LABELS)), J.list_of(['X', 'Y']), J.list_of(['U', 'V']), colour, clim, x, y])
            what = 'x in %s, y in %s, %s from %s, colour %s' % (txt(x), txt(y), clim[0], clim[1] if clim[1] is None else brief(clim[1]), colour)
            c.same('drawn-bins', loc, r, want, what=what, key='drawn-bins@get_quiver_data')


GROUPS = [flow_limits, flow_cut, map_cut, resample_cut, index_limits, arrows]
