"""The container of flow maps: value-flow normal forms of the constructor,
of copies, translations and sorting of FlowData objects for all grids, field
orders, values and information; storage shared between objects is detected on
the abstract heap."""

from .. import models
from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, S, _dict
from ..flows import *

M = 'droplets.flow'
LABELS = ('X', 'Y', 'M', 'U')


def method(c, I, flow, name, args=(), kw=None):
    return c.call(I, models.getattr_(I, flow, name, None), list(args), kw or {})


def field_arr(G, I, tag, l, layout=None):
    g = G
    if layout:
        g = Grid(layout=layout, nx=G.nx, ny=G.ny)
        g.dx, g.dy, g.x0, g.y0 = G.dx, G.dy, G.x0, G.y0
    return I.freeze(g.array(I, tag, l))


def construct(c):
    loc = c.loc(M, '__init__') if c.program.find(M, '__init__') is not None else c.loc(M, 'FlowData')
    for layout in ('xy', 'yx', '2d'):
        for order in (LABELS, ('U', 'Y', 'M', 'X')):
            for way in ('tuples', 'dicts', 'one dict', 'mixed', 'typed'):
                G = Grid(layout=layout)
                I = c.interp()
                f = c.fn(I, M, 'FlowData')
                pair = lambda l: (l, G.array(I, 'a', l))
                kw = {'info': G.info(I)}
                if way == 'tuples' or way == 'typed':
                    args = [pair(l) for l in order]
                elif way == 'dicts':
                    args = [_dict(I, **{l: pair(l)[1]}) for l in order]
                elif way == 'one dict':
                    args = [_dict(I, **{l: pair(l)[1] for l in order})]
                else:
                    args = [pair(order[0]), _dict(I, **{l: pair(l)[1] for l in order[1:]})]
                if way == 'typed':
                    kw['dtype'] = 'float'
                r = c.call(I, f, args, kw)
                p = parts(I, r)
                what = '%s as %s, order %s' % (','.join(order), way, layout)
                if p is None:
                    c.ob('fields-as-given', loc, None, what)
                    continue
                for l in order:
                    i, j = G.axes()
                    dims = ((i, j),) if layout != 'yx' else ((j, i),)
                    want = I.freeze(I.new_arr(ArrVal(dims, {None: G.value('a', l, atom(i[0]), atom(j[0]))})))
                    c.same('fields-as-given', loc, p.get('field ' + l), want, what='%s: %s' % (what, l), key='fields-as-given@FlowData')
                for k, v in (('shape', (G.nx, G.ny)), ('spacing', (G.dx, G.dy)), ('origin', (G.x0, G.y0)), ('num_bins', mul(G.nx, G.ny))):
                    c.same('information-as-given', loc, p[k], v, what='%s: %s' % (what, k), key='information-as-given@FlowData')
                c.same('no-exception', loc, c.escapes(I), ZERO, what=what, key='no-exception@FlowData')


def information(c):
    """Every part of the information is optional; unknown parts are refused."""
    loc = c.loc(M, 'set_info')
    full = {'shape': (Z('nx', pos=True), Z('ny', pos=True)), 'spacing': (N('dx', pos=True), N('dy', pos=True)), 'origin': (N('x0'), N('y0')), 'num_bins': Z('n', pos=True)}
    none = {'shape': (None, None), 'spacing': (None, None), 'origin': (None, None), 'num_bins': None}
    sub_ = [()] + [(k,) for k in sorted(full)] + [tuple(k for k in sorted(full) if k != x) for x in sorted(full)] + [tuple(sorted(full))]
    for ks in sub_:
        I = c.interp()
        G = Grid()
        info = _dict(I, **{k: full[k] for k in ks})
        before = I.freeze(info)
        r = c.call(I, c.fn(I, M, 'FlowData'), [(l, G.array(I, 'a', l)) for l in LABELS], {'info': info})
        p = parts(I, r)
        what = 'info with %s' % (', '.join(ks) or 'nothing')
        if p is None:
            c.ob('information-as-given', loc, None, what)
            continue
        for k in full:
            c.same('information-as-given', loc, p[k], full[k] if k in ks else none[k], what='%s: %s' % (what, k), key='information-as-given@set_info')
        c.same('information-unchanged', loc, I.freeze(info), before, what=what, key='information-unchanged@set_info')
    I = c.interp()
    G = Grid()
    c.call(I, c.fn(I, M, 'FlowData'), [(l, G.array(I, 'a', l)) for l in LABELS], {'info': _dict(I, shape=full['shape'], widths=N('w'))}, may_fail=True)
    c.same('unknown-information-refused', loc, c.escapes(I, 'KeyError'), ONE, key='unknown-information-refused@set_info')
    I = c.interp()
    c.call(I, c.fn(I, M, 'FlowData'), ['X'], {}, may_fail=True)
    c.same('bad-input-refused', c.loc(M, 'set_data'), c.escapes(I, 'TypeError'), ONE, key='bad-input-refused@set_data')


def size(c):
    loc = c.loc(M, 'size')
    for ks, want in ((('shape', 'spacing'), 1), (('shape',), 0), (('spacing',), 0), ((), 0), (('shape', 'spacing', 'origin', 'num_bins'), 1)):
        I = c.interp()
        G = Grid()
        full = {'shape': (G.nx, G.ny), 'spacing': (G.dx, G.dy), 'origin': (G.x0, G.y0), 'num_bins': mul(G.nx, G.ny)}
        r = c.call(I, c.fn(I, M, 'FlowData'), [(l, G.array(I, 'a', l)) for l in LABELS], {'info': _dict(I, **{k: full[k] for k in ks})})
        s = I.freeze(method(c, I, r, 'size'))
        c.same('size-of-system', loc, s, (mul(G.nx, G.dx), mul(G.ny, G.dy)) if want else None, what='info with %s' % (', '.join(ks) or 'nothing'), key='size-of-system@size')


def copies(c):
    loc = c.loc(M, 'copy')
    for layout in ('xy', 'yx'):
        for info in (True, False):
            I = c.interp()
            G = Grid(layout=layout)
            flow = G.flow(I, 'a', LABELS, info=info)
            before = parts(I, flow)
            cp = method(c, I, flow, 'copy')
            compare_flows(c, 'copy-is-equal', loc, parts(I, cp), before, 'order %s, info %s' % (layout, info), 'copy-is-equal@copy')
            if not I.is_ref(cp, InstV):
                continue
            # changing the copy in place leaves the original as it was
            d = I.get(cp).attrs.get('data')
            v = models.getattr_(I, cp, 'data', None)
            fn = c.fn(I, 'ref.limits', 'overwrite')
            c.call(I, fn, [v, 'M', N('new')])
            changed = parts(I, cp)
            c.ob('change-reaches-copy', loc, None if changed is None else compare_values(changed.get('field M'), before.get('field M'))[0] is not Verdict.EQUAL, 'order %s' % layout, 'change-reaches-copy@copy')
            compare_flows(c, 'copy-is-independent', loc, parts(I, flow), before, 'order %s, info %s' % (layout, info), 'copy-is-independent@copy')
            method(c, I, cp, 'sort')
            compare_flows(c, 'copy-is-independent', loc, parts(I, flow), before, 'sorted copy, order %s, info %s' % (layout, info), 'copy-is-independent@copy')


def translations(c):
    loc = c.loc(M, 'translate')
    for label in LABELS:
        I = c.interp()
        G = Grid()
        flow = G.flow(I, 'a', LABELS)
        before = parts(I, flow)
        by = N('by')
        r = method(c, I, flow, 'translate', [label, by])
        p = parts(I, r)
        compare_flows(c, 'translate-leaves-original', loc, parts(I, flow), before, label, 'translate-leaves-original@translate')
        if p is None:
            c.ob('translated-field', loc, None, label)
            continue
        for l in LABELS:
            i, j = G.axes()
            v = G.value('a', l, atom(i[0]), atom(j[0]))
            want = I.freeze(I.new_arr(ArrVal(((i, j),), {None: add(v, by) if l == label else v})))
            c.same('translated-field', loc, p.get('field ' + l), want, what='%s after translating %s' % (l, label), key='translated-field@translate')
        for k in ('shape', 'spacing', 'origin', 'num_bins'):
            c.same('grid-information', loc, p[k], before[k], what='%s after translating %s' % (k, label), key='grid-information@translate')


def sorting(c):
    """Sorting puts all fields in the same order: along the first coordinate, layer by layer of the second."""
    loc = c.loc(M, 'sort')
    for layout in ('xy', 'yx'):
        for kw, target in (({}, 'yx'), ({'coord_labels': ('X', 'Y')}, 'yx'), ({'coord_labels': ('Y', 'X')}, 'xy')):
            I = c.interp()
            G = Grid(layout=layout)
            flow = G.flow(I, 'a', LABELS)
            before = parts(I, flow)
            method(c, I, flow, 'sort', [], kw)
            p = parts(I, flow)
            for l in LABELS:
                c.same('sorted-together', loc, p.get('field ' + l), field_arr(G, I, 'a', l, target), what='%s from order %s to %s' % (l, layout, target), key='sorted-together@sort')
            for k in ('shape', 'spacing', 'origin', 'num_bins'):
                c.same('grid-information', loc, p[k], before[k], what='%s after sorting' % k, key='grid-information@sort')


def access(c):
    loc = c.loc(M, 'get_data')
    for l in LABELS + ('Q',):
        I = c.interp()
        G = Grid()
        flow = G.flow(I, 'a', LABELS)
        r = I.freeze(method(c, I, flow, 'get_data', [l]))
        c.same('field-of-label', loc, r, field_arr(G, I, 'a', l) if l in LABELS else None, what=l, key='field-of-label@get_data')
        c.same('no-exception', loc, c.escapes(I), ZERO, what=l, key='no-exception@get_data')


def limited(c):
    """Selections are new objects: changing one leaves the map as it was."""
    for name, cases in (('lims', ((['M', None, None], {}), (['M', N('lo'), N('hi')], {}), (['X', N('lo'), None], {}))),
                        ('cut', (([], {}), ([], {'xlim': (N('lo'), N('hi'))}), ([], {'ylim': (None, N('hi'))})))):
        loc = c.loc(M, name)
        for args, kw in cases:
            I = c.interp()
            G = Grid()
            flow = G.flow(I, 'a', LABELS)
            before = parts(I, flow)
            what = '%s of %s' % (name, ', '.join(str(x) if not isinstance(x, T) else show(x) for x in args + list(kw)) or 'nothing')
            try:
                r = method(c, I, flow, name, args, kw)
            except Missing as e:
                c.ob('selection-is-independent', loc, None, what + ': ' + str(e), 'selection-is-independent@' + name)
                continue
            same = r is flow or isinstance(r, T) and any(x is flow for x in subterms(r))
            if same:
                c.ob('selection-is-independent', loc, False, what + ': the map itself is returned', 'selection-is-independent@' + name)
                continue
            if not I.is_ref(r, InstV):
                c.ob('selection-is-independent', loc, None, what, 'selection-is-independent@' + name)
                continue
            v = models.getattr_(I, r, 'data', None)
            try:
                c.call(I, c.fn(I, 'ref.limits', 'overwrite'), [v, 'M', N('new')])
            except Missing as e:
                c.ob('selection-is-independent', loc, None, what + ': ' + str(e), 'selection-is-independent@' + name)
                continue
            compare_flows(c, 'selection-is-independent', loc, parts(I, flow), before, what, 'selection-is-independent@' + name)


GROUPS = [construct, information, size, copies, translations, sorting, access, limited]
