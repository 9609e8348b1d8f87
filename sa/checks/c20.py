"""The sample command: the value of a quantity in one map and the series over
all files (value-flow normal forms) are compared with the reference
definitions (ref.series) for all files, grids, values, cutoffs and limits."""

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, S, Maps, fopts
from ..flows import *

M = 'strata.sample_average'


def cuts():
    return [(None, None), (N('co'), 'M'), (None, 'M'), (N('co'), 'T'), (ZERO, 'U'), (None, 'N')]


def values(c):
    loc = c.loc(M, 'sample_value')
    mu = N('mu', pos=True)
    for label in ('T', 'M', 'U', 'inertial_energy', 'visc_diss', 'flow_angle'):
        for cut, cl in cuts():
            for total in (False, True):
                for layout in ('xy', 'yx') if label == 'visc_diss' or c.tier == 'thorough' else ('xy',):
                    I = c.interp()
                    r = c.call(I, c.fn(I, M, 'sample_value'), [Grid(layout=layout).flow(I, 'a'), label, cut, cl, total, mu], may_fail=True)
                    J = c.interp()
                    w = c.call(J, c.fn(J, 'ref.series', 'value'), [Grid(layout=layout).flow(J, 'a'), label, cut, cl, total, mu])
                    what = '%s of %s, cutoff %s in %s' % ('sum' if total else 'mean', label, 'midpoint' if cut is None else brief(cut), cl)
                    c.same('refused', loc, c.escapes(I), c.escapes(J), what=what, key='refused@sample_value')
                    if total and label == 'flow_angle':
                        continue
                    r, w = I.freeze(r), J.freeze(w)
                    c.same('sampled-value', loc, r[0] if isinstance(r, tuple) else r, w[0], what=what, key='sampled-value@sample_value')
                    c.same('standard-deviation', loc, r[1] if isinstance(r, tuple) and len(r) == 2 else None, w[1], what=what, key='standard-deviation@sample_value')


def slip(c):
    loc = c.loc(M, 'sample_slip_length')
    for kw in ({}, {'floor': N('fl')}, {'floor': N('fl'), 'flow_labels': ('V', 'U')}, {'coord_labels': ('X', 'P')}):
        I = c.interp()
        r = I.freeze(c.call(I, c.fn(I, M, 'sample_slip_length'), [Grid().flow(I, 'a', FIELDS + ('P',))], kw))
        J = c.interp()
        w = J.freeze(c.call(J, c.fn(J, 'ref.series', 'slip_length'), [Grid().flow(J, 'a', FIELDS + ('P',)), kw.get('floor', ZERO), kw.get('coord_labels', ('X', 'Y')), kw.get('flow_labels', ('U', 'V'))]))
        for n, name in enumerate(('sampled-value', 'standard-deviation')):
            c.same(name, loc, r[n] if isinstance(r, tuple) and len(r) == 2 else r, w[n], what='slip length, %s' % sorted(kw), key=name + '@sample_slip_length')


def over(c, what, labels, cut=(None, None), total=False, lims=((None, None), (None, None)), **kw):
    loc = c.loc(M, 'sample_average_files')
    mu, dt = N('mu', pos=True), N('dt')
    I = c.interp()
    Maps(corner=False).install(I)
    o = fopts()
    args = dict(o, dt=dt, quiet=True, verbose=False, viscosity=mu, cutoff=cut[0], cutoff_label=cut[1], **kw)
    if total:
        args['sum'] = True
    if lims[0] != (None, None):
        args['xlim'] = lims[0]
    if lims[1] != (None, None):
        args['ylim'] = lims[1]
    r = c.call(I, c.fn(I, M, 'sample_average_files'), [S('base'), I.list_of(labels)], args)
    J = c.interp()
    Maps(corner=False).install(J)
    w = c.call(J, c.fn(J, 'ref.series', 'over_files'), [S('base'), o['begin'], o['end'], o['ext'], J.list_of(labels), dt, cut[0], cut[1], total, mu, kw.get('slip_floor', ZERO), lims[0], lims[1]])
    r, w = I.freeze(r), J.freeze(w)
    for n, name in enumerate(('times', 'values')):
        c.same(name + '-of-the-series', loc, r[n] if isinstance(r, tuple) and len(r) == 2 else r, w[n], what=what, key='%s-of-the-series@sample_average_files' % name)


def series(c):
    x, y = (N('xa'), N('xb')), (N('ya'), N('yb'))
    over(c, 'one label', ['T'])
    over(c, 'labels in order', ['U', 'T', 'M'])
    over(c, 'sums', ['M', 'N'], total=True)
    over(c, 'cutoff', ['T', 'U'], cut=(N('co'), 'M'))
    over(c, 'midpoint cutoff', ['T', 'U'], cut=(None, 'M'))
    over(c, 'derived quantities', ['inertial_energy', 'flow_angle', 'visc_diss', 'T'])
    over(c, 'derived quantities with a cutoff', ['visc_diss', 'T', 'flow_angle'], cut=(N('co'), 'M'))
    over(c, 'x limits', ['T'], lims=(x, (None, None)))
    over(c, 'y limits', ['T', 'U'], lims=((None, None), (y[0], None)))
    over(c, 'limits at zero', ['T'], lims=((ZERO, None), (None, ZERO)))
    over(c, 'limits and cutoff', ['T'], lims=(x, y), cut=(N('co'), 'M'))
    over(c, 'limits and sums', ['inertial_energy'], lims=(x, y), total=True)
    over(c, 'slip length', ['slip_length', 'U'], slip_floor=N('fl'))
    over(c, 'with output', ['T', 'U'], output=S('out'))


GROUPS = [values, slip, series]
