"""Areas, lengths and contact angles of interfaces: value-flow normal forms of
the measuring functions and of the series the commands make of them are compared
with the reference definitions (ref.shapes)."""

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, S, fopts, search_opts
from ..capture import *
from .. import models
from ..models import EXT, Args

SAMPLE, ANGLE, D = 'strata.interface.sample', 'strata.interface.angle', 'droplets.interface'
READ = '.read_interface_file'


def line(I, name, n):
    ax = new_axis(n, 'i')
    return I.new_arr(ArrVal([[ax]], {None: elem(name, atom(ax[0]))}, ONE))


def points(I, tag, n):
    return line(I, tag + 'x', n), line(I, tag + 'y', n)


def side(I, tag, n):
    ax = new_axis(n, 'i')
    return I.new_arr(ArrVal([[ax]], {'X': elem(tag + 'x', atom(ax[0])), 'Y': elem(tag + 'y', atom(ax[0]))}, ONE))


def sizes(tier):
    out = [('any number of points', scale(Z('m', pos=True), 2)), ('2 points', num(2)), ('4 points', num(4))]
    return out + ([('6 points', num(6))] if tier == 'thorough' else [])


def shapes(c):
    """Area and length of the outline of a droplet."""
    for what, n in sizes(c.tier):
        def make(I):
            return points(I, '', n), {}
        def well(I, r, args):
            return r
        loc = c.loc(SAMPLE, 'get_area_of_interface')
        I, J, K = c.interp(), c.interp(), c.interp()
        r = c.call(I, c.fn(I, SAMPLE, 'get_area_of_interface'), points(I, '', n))
        w = c.call(J, c.fn(J, 'ref.shapes', 'area'), points(J, '', n))
        fails = c.escapes(I, 'TypeError')
        ok = as_num(c.call(K, c.fn(K, 'ref.shapes', 'same_heights'), [points(K, '', n)[1]]))
        if const_value(n) is not None:
            c.same('area-defined-iff-sides-match', loc, fails, not_(ok), what=what)
        c.same('area', loc, I.freeze(r), J.freeze(w), guard=not_(fails), what=what)
        c.spec('length', (SAMPLE, 'calc_length'), ('shapes', 'length'), make, what=what)


def angles(c):
    """The angle of one side, and that of the circle segment."""
    for what, n in (('any number of points', Z('m', pos=True)), ('1 point', ONE), ('3 points', num(3))):
        c.spec('segment-angle', (ANGLE, 'fit_angle_from_segment'), ('shapes', 'fitted'), lambda I: ([side(I, 'l', n), side(I, 'r', n)], {}), what=what)
        loc = c.loc(ANGLE, 'measure_angle')
        for s in ('left', 'right'):
            for h in (N('h'), ZERO):
                I, J = c.interp(), c.interp()
                r = c.call(I, c.fn(I, ANGLE, 'measure_angle'), [side(I, 'e', n), s, h])
                w = c.call(J, c.fn(J, 'ref.shapes', 'measured'), [*points(J, 'e', n), s, h])
                c.same('measured-angle', loc, I.freeze(r), J.freeze(w), what='%s, %s side, height %s' % (what, s, brief(h)))


def halves(c):
    """Both sides of an interface read from its file, from the bottom up."""
    loc = c.loc(ANGLE, 'read_interface_file')
    I, J = c.interp(), c.interp()
    r = c.call(I, c.fn(I, ANGLE, 'read_interface_file'), [S('p')])
    w = [J.unwrap(s[1]) for s in J.get(c.call(J, c.fn(J, 'ref.shapes', 'sides'), [S('p')])).segs]
    if not isinstance(r, tuple) or len(r) != 2:
        c.ob('sides-of-file', loc, None, brief(I.freeze(r), 200))
        return
    for name, x, y in zip(('left', 'right'), r, w):
        got = in_order(I, I.unwrap(x))
        want = in_order(J, y)
        if got is None or want is None:
            c.ob('sides-of-file', loc, None, '%s side: %s' % (name, brief(I.freeze(x), 150)))
            continue
        c.ob('sides-sorted', loc, got[1], '%s side: order %s' % (name, brief(I.freeze(x), 150)))
        # the rows themselves, in whichever order they were before
        (i, n), = got[0].axes
        (j, m), = want[0].axes
        c.same('size-of-sides', loc, n, m, what='%s side' % name)
        for l in 'XY':
            y = subst(want[0].fields[l], {j: atom(i)})
            z = subst(y, {i: sub(sub(n, ONE), atom(i))})
            v = [compare_values(got[0].fields[l], q)[0] for q in (y, z)]
            if Verdict.EQUAL in v:
                c.ob('sides-of-file', loc, True, '%s side, %s' % (name, l))
            else:
                c.same('sides-of-file', loc, got[0].fields[l], y, what='%s side, %s' % (name, l))


def in_order(I, x):
    """Rows before they were sorted, and whether they were sorted by height."""
    if isinstance(x, tuple) and len(x) == 2:
        a, b = [I.arr(I.unwrap(v)) for v in x]
        x = ArrVal(a.dims, {'X': a.body, 'Y': subst(b.body, {v: atom(w) for (v, _), (w, _) in zip(b.axes, a.axes)})}, a.filt, order=a.order)
    elif I.is_ref(x, ViewV) and I.arr(x).is_rec():
        x = I.arr(x)
    else:
        return None
    if x.filt is not ONE or len(x.axes) != 1 or not {'X', 'Y'} <= set(x.fields):
        return None
    if x.order is not None:
        return x, x.order[0] == 'sorted' and bool(x.order[1]) and x.order[1][0] == 'Y'
    (i, n), = x.axes
    found = []
    for b in x.fields.values():
        for t in subterms(b):
            if t.op == 'app' and t.args[0] == 'argsort' and t not in found:
                found.append(t)
    if not found:
        return x, False
    if len(found) > 1:
        return None
    rows = ArrVal(x.dims, {l: subst(b, {found[0]: atom(i)}) for l, b in x.fields.items()})
    key = I.freeze_arr(ArrVal(x.dims, {None: rows.fields['Y']}))
    return rows, compare_values(found[0].args[1], key)[0] == Verdict.EQUAL


def series(c):
    """Times and values of a series of interfaces."""
    paths = [S('p0'), S('p1'), S('p2')]
    for variable in ('area', 'length'):
        for n in (2, 4):
            loc = c.loc(SAMPLE, 'sample_interfaces')
            I, J = c.interp(), c.interp()
            I.hooks['strata.utils.find_datamap_files'] = lambda I, fv, a, k, node: I.list_of(paths)
            def read(I, args, kw):
                p = args[0][1]
                return points(I, single_atom(p).args[0] if p.op == 'num' else p.args[0], num(n))
            capture(I, 'strata.interface.view' + READ, ('fn',), read)
            I.hooks[SAMPLE + '.plot_interface_area'] = lambda I, fv, a, k, node: None
            r = c.call(I, c.fn(I, SAMPLE, 'sample_interfaces'), [S('base'), variable], dict(fopts(begin=ONE, end=INF), delta_t=N('dt'), quiet=True))
            l = J.list_of([points(J, p.args[0], num(n)) for p in paths])
            w = c.call(J, c.fn(J, 'ref.shapes', 'sampled'), [l, variable, N('dt')])
            c.same('series', loc, I.freeze(r), J.freeze(w), what='%s of interfaces with %d points' % (variable, n))


def angle_series(c):
    """The angles of a series of interfaces by both methods."""
    paths = [S('p0'), S('p1'), S('p2')]
    loc = c.loc(ANGLE, 'interface_contact_angle')
    for fit in (False, True):
        for h in (None, N('h'), ZERO):
            I, J = c.interp(), c.interp()
            I.hooks['strata.utils.find_datamap_files'] = lambda I, fv, a, k, node: I.list_of(paths)
            name = lambda p: single_atom(p).args[0] if p.op == 'num' else p.args[0]
            capture(I, ANGLE + READ, ('fn',), lambda I, args, kw: (side(I, name(args[0][1]) + 'l', num(2)), side(I, name(args[0][1]) + 'r', num(2))))
            for f in ('draw_figure', 'write_angle_data'):
                capture(I, '%s.%s' % (ANGLE, f), ())
            r = c.call(I, c.fn(I, ANGLE, 'interface_contact_angle'), [S('base')], dict(fopts(begin=ONE, end=INF), fit=fit, height=h, delta_t=N('dt'), quiet=True))
            e = J.list_of([tuple(points(J, '%s%s' % (p.args[0], s), num(2)) for s in 'lr') for p in paths])
            w = J.freeze(c.call(J, c.fn(J, 'ref.shapes', 'angle_series'), [e, fit, h, N('dt')]))
            what = 'fit %s, height %s' % (fit, None if h is None else brief(h))
            if not isinstance(r, tuple) or len(r) != 2 or not I.is_ref(r[1], DictV):
                c.ob('angles-of-series', loc, None, '%s: %s' % (what, brief(I.freeze(r), 200)))
                continue
            c.same('times-of-series', loc, I.freeze(r[0]), w[0], what=what)
            d = I.get(r[1]).items
            for k, x in zip(('fit', 'left', 'right', 'measured'), w[1:]):
                if k not in d:
                    c.ob('angles-of-series', loc, False, '%s: no entry %r' % (what, k))
                else:
                    c.same('angles-of-series', loc, I.freeze(d[k][0]), x, what='%s, %s' % (what, k))


def few(n):
    def make(I):
        f = lambda s, k: elem(s, num(k), int=True, nonneg=True)
        return I.alloc(GenV(tuple(('lit', (f('ileft', k), f('iright', k))) for k in range(n)), ZERO))
    return make


def dynamic(c):
    """Contact angles of a map at a height over its bottom layer."""
    loc = c.loc(D, 'get_contact_angle')
    for floor in (None, N('floor'), ZERO):
        for n in (0, 1, 2, 3) if c.tier == 'quick' else (0, 1, 2, 3, 4):
            for labels in (None, ('P', 'Q')):
                r = []
                for J, m, name in ((c.interp(), D, 'get_contact_angle'), (c.interp(), 'ref.shapes', 'contact_angle')):
                    capture(J, D + '.get_interface', ('flow', 'label'), lambda I, a, k: few(n)(I))
                    kw = dict(search_opts(), floor=floor)
                    if labels:
                        kw['coord_labels'] = labels
                    flow = Grid().flow(J, 'a', FIELDS + ('P', 'Q'))
                    v = c.call(J, c.fn(J, m, name), [flow, N('h'), 'M'], kw)
                    r.append((J, tuple(J.freeze(J.cases(v, lambda x: models.getitem(J, x, num(k), None))) for k in (0, 1))))
                (I, got), (J, want) = r
                what = 'floor %s, %d layers, labels %s' % (None if floor is None else brief(floor), n, labels)
                c.same('contact-angle', loc, got, want, what=what)
                compare_captured(c, 'interface-of', loc, captured(I), captured(J), what, 'interface-of@' + D)


GROUPS = [angle_series, dynamic, shapes, angles, halves, series]
