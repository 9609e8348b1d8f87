"""Sampled quantities of flow maps: the value-flow normal forms of
droplets.sample and of the derived fields of the views are compared with the
reference definitions (ref.sampling) for all grids, orders of bins, labels and
values."""

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, S
from ..flows import *

M = 'droplets.sample'
V = 'strata.view_flowmap'
ALL = FIELDS + ('W', 'P', 'Q')


def ref(c, name, make):
    J = c.interp()
    return J, c.call(J, c.fn(J, 'ref.sampling', name), make(J))


def one(c, rule, target, args, kw, refname, refargs, what, layout='xy', sorts=False):
    """A function of a flow map which returns numbers."""
    loc = c.loc(*target)
    I = c.interp()
    G = Grid(layout=layout)
    flow = G.flow(I, 'a', ALL)
    before = I.freeze(flow)
    I.trace = []
    r = c.call(I, c.fn(I, *target), [flow] + args, kw)
    J, w = ref(c, refname, lambda J: [Grid(layout=layout).flow(J, 'a', ALL) if sorts else Grid(layout=layout).record(J, 'a', ALL)] + refargs)
    c.same(rule, loc, I.freeze(r), J.freeze(w), what=what, key='%s@%s' % (rule, target[1]))
    if not sorts:
        c.same('input-unchanged', loc, I.freeze(flow), before, what=what, key='input-unchanged@%s' % target[1])
    # a flow map without any mass is refused
    c.same('no-exception', loc, c.escapes(I, exc=None), ZERO, what=what, key='no-exception@%s' % target[1]) if target[1] != 'sample_center_of_mass' else None


def mass(c):
    for kw, ra in (({}, ['M', 'X', 'Y']), ({'mass_label': 'W'}, ['W', 'X', 'Y']), ({'coord_labels': ('P', 'Q')}, ['M', 'P', 'Q']), ({'mass_label': 'N', 'coord_labels': ('Y', 'X')}, ['N', 'Y', 'X'])):
        one(c, 'center-of-mass', (M, 'sample_center_of_mass'), [], kw, 'center_of_mass', ra, str(kw))


def energy(c):
    for kw, ra in (({}, ['M', 'U', 'V']), ({'mass_label': 'W'}, ['W', 'U', 'V']), ({'flow_labels': ('P', 'Q')}, ['M', 'P', 'Q'])):
        one(c, 'inertial-energy', (M, 'sample_inertial_energy'), [], kw, 'inertial_energy', ra, str(kw))


def angle(c):
    t = (M, 'sample_flow_angle')
    for labels in (('U', 'V'), ('P', 'Q'), ('V', 'U')):
        kw = {} if labels == ('U', 'V') else {'flow_labels': labels}
        one(c, 'flow-angle', t, [], kw, 'flow_angles', list(labels), str(kw))
        one(c, 'mean-flow-angle', t, [], dict(kw, mean=True), 'mean_angle', list(labels), str(dict(kw, mean=True)))
        for w in ('M', 'W'):
            one(c, 'mean-flow-angle', t, [], dict(kw, mean=True, weight=w), 'weighted_angle', list(labels) + [w], str(dict(kw, mean=True, weight=w)))


def friction(c):
    t = (M, 'sample_viscous_dissipation')
    mu = N('mu', pos=True)
    for layout in ('xy', 'yx'):
        for labels in (('U', 'V'), ('P', 'Q')):
            kw = {} if labels == ('U', 'V') else {'flow_labels': labels}
            one(c, 'viscous-dissipation', t, [mu], kw, 'dissipation', [mu] + list(labels), 'order %s %s' % (layout, kw), layout, True)
            one(c, 'viscous-dissipation', t, [mu], dict(kw, weight_label='W'), 'weighted_dissipation', [mu] + list(labels) + ['W'], 'order %s %s weight' % (layout, kw), layout, True)


def whole(c, rule, target, args, refname, refargs, layout):
    """Derived fields which are added to the (sorted) flow map."""
    loc = c.loc(*target)
    I = c.interp()
    flow = Grid(layout=layout).flow(I, 'a')
    c.call(I, c.fn(I, *target), [flow] + args)
    J, w = ref(c, refname, lambda J: [Grid(layout=layout).flow(J, 'a')] + refargs)
    compare_flows(c, rule, loc, parts(I, flow), wanted(J, w), 'order %s' % layout, '%s@%s' % (rule, target[1]))


def derived(c):
    mu = N('mu', pos=True)
    for layout in ('xy', 'yx'):
        whole(c, 'added-field', (V, 'add_viscous_dissipation'), [mu], 'with_dissipation', [mu], layout)
        whole(c, 'added-field', (V, 'add_density_gradient'), [], 'with_gradient', [], layout)
        whole(c, 'added-field', (V, 'add_evaporation'), [], 'with_evaporation', [], layout)


def record(c, target, args, refname, refargs, layout):
    loc = c.loc(*target)
    I = c.interp()
    data = Grid(layout=layout).record(I, 'a')
    before = I.freeze(data)
    r = I.freeze(c.call(I, c.fn(I, *target), [data] + args))
    J, w = ref(c, refname, lambda J: [Grid(layout=layout).record(J, 'a')] + refargs)
    w = {k: v for k, v, g in J.freeze(w).args[0]}
    got = {l: mk('arr', r.args[0], (('', b),), r.args[2]) for l, b in r.args[1]} if isinstance(r, T) and r.op == 'arr' else None
    what = 'order ' + layout
    if got is None:
        c.ob('added-field', loc, None, what)
        return
    for l in sorted(set(got) | set(w)):
        if l not in got or l not in w:
            c.ob('added-field', loc, False, '%s: field %s is %s' % (what, l, 'missing' if l in w else 'not expected'), 'added-field@' + target[1])
        else:
            c.same('added-field', loc, got[l], w[l], what='%s: field %s' % (what, l), key='added-field@' + target[1])
    c.same('input-unchanged', loc, I.freeze(data), before, what=what, key='input-unchanged@%s' % target[1])


def colours(c):
    x, y = N('cx'), N('cy')
    for layout in ('xy', 'yx'):
        record(c, (V, 'add_absolute_flow'), [], 'with_speed', [], layout)
        record(c, (V, 'add_radial_flow'), [(x, y)], 'with_radial', [x, y], layout)


GROUPS = [mass, energy, angle, friction, derived, colours]
