"""Contact line cells: which cells belong to a side, where they are put,
which files are averaged together and what is sampled (value-flow normal
forms against ref.contact); the interface search, reading and sampling of one
map are uninterpreted."""

from fractions import Fraction

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, S
from ..flows import *

M = 'strata.contact_line_analysis'
D = 'droplets.contact_line'


def stub(I, name, fn):
    """Replace a function: fn(positional values, values by keyword) -> value."""
    def hook(J, fv, args, kw, node):
        if any(a[0] != 'lit' for a in args):
            return NotImplemented
        return fn([a[1] for a in args], {k: v for k, (v, g) in kw.items.items()})
    I.hooks[name] = hook


def identity(I, flow):
    """What a flow map holds, with the names of its indices fixed."""
    out = []
    for n, v in sorted((parts(I, flow) or {}).items(), key=lambda x: x[0]):
        if isinstance(v, T) and v.op == 'arr':
            m = {}
            for k, (i, size) in enumerate(a for d in v.args[0] for a in d):
                m[i] = sym('index%d' % k, kind='num')
            v = subst_any(v, m)
        out.append((n, v))
    return tuple(out)


def sampled(I, flow, label, spread):
    k = (identity(I, flow), I.freeze(label))
    return (atom(mk('app', 'value', k)), atom(mk('app', 'std', k)) if spread else None)


def sampling(c):
    loc = c.loc(M, 'sample_contact_line_edges')
    for total in (False, True):
        for rolling in (False, True):
            for labels in (('U',), ('T', 'M')):
                for spread in (True, False):
                    for cut in (None, N('co')):
                        sampling_of(c, loc, total, rolling, labels, spread, cut)
    sampling_of(c, loc, False, False, ('T',), True, None, default=True)


def sampling_of(c, loc, total, rolling, labels, spread, cut, default=False):
    what = '%s of %s, %s%s%s' % ('sum' if total else 'mean', '/'.join(labels), 'rolling' if rolling else 'groups', '' if spread else ', no deviation', '' if cut is None else ', cutoff')
    key = '@sample_contact_line_edges'
    mu, dt, av = N('mu', pos=True), N('dt'), Z('av', pos=True)
    if default:
        mu, dt, av, what = num(Fraction('8.44e-4')), ONE, ONE, 'no options'

    def pairs(I):
        return I.list_of([I.list_of([Grid('l%d' % n).flow(I, 'l%d' % n), Grid('r%d' % n).flow(I, 'r%d' % n)]) for n in range(2)])
    I = c.interp()
    given = {}
    I.hooks['strata.utils.find_datamap_files'] = lambda K, fv, a, k, n: K.list_of([S('f0'), S('f1')])

    def edges(pos, kw):
        given['edges'] = [I.freeze(x) for x in pos], {k: I.freeze(v) for k, v in kw.items()}
        return pairs(I)

    def one(pos, kw):
        given.setdefault('sample', []).append(([I.freeze(x) for x in pos[2:]], {k: I.freeze(v) for k, v in kw.items()}))
        return sampled(I, pos[0], pos[1], spread)
    stub(I, M + '.get_averaged_contact_line_edges', edges)
    stub(I, 'strata.sample_average.sample_value', one)
    r = c.call(I, c.fn(I, M, 'sample_contact_line_edges'), [S('base'), I.list_of(list(labels))], {'quiet': True} if default else {
        'average': av, 'rolling': rolling, 'recenter': True, 'dt': dt, 'sum': total, 'viscosity': mu, 'quiet': True,
        'floor': N('fl'), **({} if cut is None else {'cutoff': cut})})
    J = c.interp()
    stub(J, 'ref.contact.sample', lambda pos, kw: sampled(J, pos[0], pos[1], spread))
    w = c.call(J, c.fn(J, 'ref.contact', 'samples'), [pairs(J), J.list_of(list(labels)), total, av, rolling, dt])
    if 'edges' not in given or 'sample' not in given:
        return c.ob('sampled-values', loc, None, 'the sides are found or sampled elsewhere', 'sampled-values' + key)
    r, w = I.freeze(r), J.freeze(w)
    for n, name in enumerate(('times', 'values')):
        c.same('sampled-' + name, loc, r[n] if isinstance(r, tuple) and len(r) == 2 else r, w[n], what=what, key='sampled-' + name + key)
    for pos, kw in given.get('sample', [])[:1]:
        got = dict(zip(('cutoff', 'cutoff_label', 'sum', 'viscosity'), pos))
        got.update(kw)
        for n, v in (('cutoff', cut), ('cutoff_label', 'M'), ('sum', total), ('viscosity', mu)):
            c.same('sampled-with', loc, got.get(n, 'absent'), v, what='%s: %s' % (what, n), key='sampled-with' + key)
    handed(c, loc, given['edges'], cut, av, rolling, None if default else N('fl'), what, key, not default)


def handed(c, loc, given, cut, av, rolling, floor, what, key, recenter=True):
    got = dict(zip(('filenames', 'average', 'rolling', 'recenter', 'weights'), given[0]))
    got.update(given[1])
    for n, v in (('average', av), ('rolling', rolling), ('recenter', recenter), ('cutoff_label', 'M'), ('ylims', (floor, None)), ('cutoff', cut)):
        c.same('searched-with', loc, got.get(n), v, what='%s: %s' % (what, n), key='searched-with' + key)
    w = got.get('weights')
    if isinstance(w, T) and w.op == 'list' and all(x[0] == 'lit' for x in w.args[0]):
        w = tuple(sorted(x[1] for x in w.args[0]))
        c.same('searched-with', loc, w, (('T', 'N'), ('U', 'M'), ('V', 'M')), what='%s: weights' % what, key='searched-with' + key)


def files(c):
    """Files averaged together, per file the side it belongs to."""
    loc = c.loc(M, 'get_grouped_data')
    key = '@get_grouped_data'
    for rolling in (False, True):
        for av in (1, 2, 3):
            for n in range(0, 6 if c.tier == 'quick' else 9):
                names = [S('f%d' % k) for k in range(n)]
                I = c.interp()
                seen, moves = [], []

                def read(pos, kw, I=I):
                    p = I.freeze(pos[0])
                    t = 'm' + str(p)
                    return (Grid(t).data(I, t), info(I, p), None)

                def info(I, p):
                    from ..system import _dict
                    return _dict(I, spacing=('spacing of', p), shape=(Z('nx', pos=True), Z('ny', pos=True)), origin=(N('x0'), N('y0')))

                def cut(pos, kw, I=I, seen=seen):
                    src = identity(I, pos[0])
                    seen.append((I.freeze(pos[1]), {k: I.freeze(v) for k, v in kw.items()}))
                    return (atom(mk('app', 'cells', ('left', src))), atom(mk('app', 'cells', ('right', src))))
                stub(I, 'strata.dataformats.read.read_data_file', read)
                stub(I, D + '.get_contact_line_cells', cut)

                def shifted(pos, kw, I=I, moves=moves):
                    moves.append(1)
                    return atom(mk('app', 'moved', tuple(I.freeze(x) for x in pos)))
                stub(I, M + '.add_adjusted_flow', shifted)
                opts = {'cutoff_label': 'M', 'cutoff': N('co'), 'extract_area': (N('w'), N('h'))}
                gen = c.call(I, c.fn(I, M, 'get_grouped_data'), [I.list_of(names), num(av), rolling, None, True], opts)
                r = c.call(I, c.fn(I, 'ref.contact', 'snapshots'), [gen])
                J = c.interp()

                def whole(pos, kw, J=J):
                    p = J.freeze(pos[0])
                    t = 'm' + str(p)
                    flow = Grid(t).flow(J, t, info=False)
                    src = identity(J, flow)
                    i = J.freeze(info(J, p))
                    return (('spacing of', p),) + tuple(atom(mk('app', 'moved', (atom(mk('app', 'cells', (s, src))), s, i))) for s in ('left', 'right'))
                stub(J, 'ref.contact.read', whole)
                w = c.call(J, c.fn(J, 'ref.contact', 'groups'), [J.list_of(names), num(av), rolling])
                what = '%d files, %s of %d' % (n, 'rolling groups' if rolling else 'groups', av)
                if n and not (seen and moves):
                    c.ob('averaged-together', loc, None, 'the cells are found or moved elsewhere', 'averaged-together' + key)
                    continue
                c.same('averaged-together', loc, I.freeze(r), J.freeze(w), what=what, key='averaged-together' + key)
                if n == 3 and av == 2:
                    for lab, kw in seen:
                        c.same('searched-with', loc, (lab, kw.get('cutoff'), kw.get('extract_area')), ('M', N('co'), (N('w'), N('h'))), what=what, key='searched-with' + key)


def placed(c):
    """Averaged sides: which maps are averaged, and where they are put."""
    loc = c.loc(M, 'get_averaged_contact_line_edges')
    key = '@get_averaged_contact_line_edges'
    for recenter in (False, True):
        for n in (1, 2, 3) if c.tier == 'quick' else (1, 2, 3, 4, 5):
            for groups in (1, 2):
                averaged_of(c, loc, recenter, n, groups, key)


def averaged_of(c, loc, recenter, n, groups, key):
    what = '%d groups of %d%s' % (groups, n, ', recentred' if recenter else '')
    space = [(N('dx%d' % g, pos=True), N('dy%d' % g, pos=True)) for g in range(groups)]
    at = {(t, g, k): (N('%s%dx%d' % (t, g, k)), N('%s%dy%d' % (t, g, k))) for t in 'lr' for g in range(groups) for k in range(n)}
    I = c.interp()
    given, taken = {}, []
    flows = {x: Grid('%s%d%d' % x).flow(I, '%s%d%d' % x) for x in at}
    means = {(t, g): Grid('m%s%d' % (t, g)).flow(I, 'm%s%d' % (t, g)) for g in range(groups) for t in 'lr'}

    def found(pos, kw):
        given['pos'], given['kw'] = [I.freeze(x) for x in pos], {k: I.freeze(v) for k, v in kw.items()}
        rows = [(space[g],) + tuple(I.list_of([(at[t, g, k], flows[t, g, k]) for k in range(n)]) for t in 'lr') for g in range(groups)]
        return I.alloc(GenV(tuple(('lit', r) for r in rows), ZERO))

    def mean(pos, kw):
        rest = dict(zip(('weights', 'exclude_empty_sets'), pos[1:]))
        rest.update(kw)
        maps = literal(I, pos[0])
        of = [x[:2] for x, f in flows.items() if maps and f == maps[0]]
        taken.append((of, maps, {k: I.freeze(v) for k, v in rest.items()}))
        return means[of[0]] if of else I.unknown('mean')
    stub(I, M + '.get_grouped_data', found)
    stub(I, 'droplets.average.average_flow_data', mean)
    before = {x: parts(I, f) for x, f in means.items()}
    weights = I.list_of([('U', 'M'), ('T', 'N')])
    opts = {'quiet': True, 'cutoff': N('co'), 'cutoff_label': 'M'}
    r = c.call(I, c.fn(I, M, 'get_averaged_contact_line_edges'), [I.list_of([S('f0'), S('f1')]), num(n), False, recenter, weights], opts)
    r = c.call(I, c.fn(I, 'ref.contact', 'listed'), [r])
    pairs = [literal(I, x) for x in literal(I, r)]
    if 'pos' not in given or len(taken) != 2 * groups or len(pairs) != groups or any(len(p) != 2 for p in pairs):
        return c.ob('placed', loc, None, what + ': averaged elsewhere', 'placed' + key)
    for of, maps, kw in taken:
        if not of:
            c.ob('averaged-maps', loc, None, '%s: other maps' % what, 'averaged-maps' + key)
            continue
        t, g = of[0]
        want = [flows[t, g, m] for m in range(n)]
        c.ob('averaged-maps', loc, sorted(map(show_val, maps)) == sorted(map(show_val, want)) if len(maps) == n else None, '%s: maps averaged for the side' % what, 'averaged-maps' + key)
        c.same('averaged-maps', loc, kw.get('weights'), I.freeze(weights), what=what + ': weights', key='averaged-maps' + key)
        c.same('averaged-maps', loc, kw.get('exclude_empty_sets'), True, what=what + ': empty maps', key='averaged-maps' + key)
    for g in range(groups):
        J = c.interp()
        grids = [Grid('m%s%d' % (t, g)) for t in 'lr']
        w = c.call(J, c.fn(J, 'ref.contact', 'placed'), [J.list_of([at[t, g, k][0] for k in range(n)]) for t in 'lr'] +
                   [J.list_of([x.array(J, 'm%s%d' % (t, g), l) for x, t in zip(grids, 'lr')]) for l in 'XY'] + [space[g], recenter])
        w = [J.freeze(x) for x in literal(J, w)]
        for side, t in enumerate('lr'):
            got = parts(I, pairs[g][side]) or {}
            for l in sorted(before[t, g]):
                want = w[side]['XY'.index(l[-1])] if l in ('field X', 'field Y') else before[t, g][l]
                c.same('placed', loc, got.get(l), want, what='%s: %s of side %d' % (what, l, side), key='placed' + key)


def adjusted(c):
    loc = c.loc(D, 'adjust_cell_coordinates')
    key = '@adjust_cell_coordinates'
    for labels in (None, ('X', 'P')):
        for side in ('left', 'right'):
            I = c.interp()
            F = FIELDS + ('P',)
            rec = Grid().record(I, 'a', F)
            before = I.freeze(rec)
            r = c.call(I, c.fn(I, D, 'adjust_cell_coordinates'), [rec, side] + ([] if labels is None else [labels]))
            J = c.interp()
            d = Grid().data(J, 'a', F)
            xl, yl = labels or ('X', 'Y')
            w = J.freeze(c.call(J, c.fn(J, 'ref.contact', 'adjusted'), [field(J, d, xl), field(J, d, yl), side]))
            r = I.freeze(r)
            what = side + ('' if labels is None else ', other coordinates')
            c.same('cells-changed', loc, I.freeze(rec), before, what=what, key='cells-changed' + key)
            c.same('offset', loc, r[0] if isinstance(r, tuple) else r, w[0], what=what, key='offset' + key)
            for l, v in ((xl, w[1]), (yl, w[2])):
                c.same('moved', loc, member(r[1], l), v, what='%s %s' % (what, l), key='moved' + key)
            for l in F:
                if l not in (xl, yl):
                    c.same('moved', loc, member(r[1], l), member(before, l), what='%s %s' % (what, l), key='moved' + key)


def moved_maps(c):
    """Maps of the cells of a side: moved, in order of the rows, with their own shape."""
    loc = c.loc(M, 'add_adjusted_flow')
    key = '@add_adjusted_flow'
    for side in ('left', 'right'):
        for nx in range(1, 5 if c.tier == 'quick' else 8):
            for layout in (('xy', 'yx') if nx > 1 else ('xy',)):
                I, J = c.interp(), c.interp()
                g, w = Grid(nx=nx, layout=layout), Grid(nx=nx, layout='yx')
                whole = Grid('whole')
                info = whole.info(I)
                I.get(info).items['spacing'] = ((g.dx, g.dy), ONE)
                r = c.call(I, c.fn(I, M, 'add_adjusted_flow'), [g.record(I, 'a'), side, info])
                r = I.unwrap(I.simp(r)) if isinstance(r, T) else r
                what = '%s, %d columns, %s' % (side, nx, layout)
                if not isinstance(r, tuple) or len(r) != 2 or parts(I, r[1]) is None:
                    c.ob('moved-map', loc, None, what, 'moved-map' + key)
                    continue
                last = mul(num(nx - 1), g.dx)
                off = (add(g.x0, last) if side == 'left' else g.x0, g.y0)
                w.x0, w.y0 = (neg(last) if side == 'left' else ZERO), ZERO
                c.same('moved-map', loc, I.freeze(r[0]), off, what=what + ': offset', key='moved-map' + key)
                want = {'shape': (num(nx), g.ny), 'spacing': (g.dx, g.dy), 'num_bins': mul(num(nx), g.ny), 'origin': off}
                for l in FIELDS:
                    want['field ' + l] = J.freeze(w.array(J, 'a', l))
                compare_flows(c, 'moved-map', loc, parts(I, r[1]), want, what, 'moved-map' + key)


def fused(c):
    loc = c.loc(M, 'fuse_edges')
    key = '@fuse_edges'
    I, J = c.interp(), c.interp()
    pair = [Grid(t).flow(I, t) for t in 'lr']
    before = [parts(I, f) for f in pair]
    c.call(I, c.fn(I, M, 'fuse_edges'), [I.list_of(pair), (N('dx', pos=True), N('dy', pos=True))])
    w = J.freeze(c.call(J, c.fn(J, 'ref.contact', 'fused'), [Grid(t).array(J, t, 'X') for t in 'lr'] + [N('dx', pos=True)]))
    for k, side in enumerate(('left', 'right')):
        got = parts(I, pair[k])
        for n in sorted(got):
            c.same('fused', loc, got[n], w[k] if n == 'field X' else before[k][n], what='%s: %s' % (side, n), key='fused' + key)


def extracting(c):
    """The settings of extracted cells, the files they come from and go to."""
    loc = c.loc(M, 'extract_contact_line_bins')
    key = '@extract_contact_line_bins'
    for fuse in (False, True):
        for rolling in (False, True):
            for cut in (None, N('co')):
                I = c.interp()
                given = {}
                av = Z('av', pos=True)

                def found(J, fv, a, k, n, given=given):
                    given['files'] = [J.freeze(x[1]) for x in a], {l: J.freeze(v) for l, (v, g) in k.items.items()}
                    return J.list_of([S('f0'), S('f1')])
                I.hooks['strata.utils.find_datamap_files'] = found

                def edges(pos, kw, I=I, given=given):
                    given['edges'] = [I.freeze(x) for x in pos], {l: I.freeze(v) for l, v in kw.items()}
                    return I.list_of([I.list_of([Grid('l%d' % n).flow(I, 'l%d' % n), Grid('r%d' % n).flow(I, 'r%d' % n)]) for n in range(2)])
                given['joined'], given['written'] = [], []
                whole = [Grid('w%d' % n) for n in range(2)]

                def joined(pos, kw, I=I, given=given, whole=whole):
                    given['joined'].append([parts(I, f) for f in literal(I, pos[0])])
                    n = len(given['joined']) - 1
                    return whole[n].flow(I, 'w%d' % n)
                stub(I, M + '.get_averaged_contact_line_edges', edges)
                stub(I, M + '.combine_flow_data', joined)
                stub(I, 'strata.dataformats.write.write', lambda pos, kw, given=given, I=I: given['written'].append([I.freeze(x) for x in pos]))
                c.call(I, c.fn(I, M, 'extract_contact_line_bins'), [S('base'), S('out')], {
                    'average': av, 'rolling': rolling, 'recenter': True, 'fuse': fuse, 'quiet': True, 'floor': N('fl'),
                    'begin': Z('begin', nonneg=True), 'ext': '.dat', **({} if cut is None else {'cutoff': cut})})
                what = 'extract%s%s%s' % (', fused' if fuse else '', ', rolling' if rolling else '', '' if cut is None else ', cutoff')
                if not given['joined'] or 'edges' not in given:
                    c.ob('maps-written', loc, None, 'the sides are joined elsewhere', 'maps-written' + key)
                    continue
                handed(c, loc, given['edges'], cut, av, rolling, N('fl'), what, key)
                for n, pair in enumerate(given['joined'][:2]):
                    J = c.interp()
                    sides = [Grid('%s%d' % (t, n)) for t in 'lr']
                    want = [g.array(J, '%s%d' % (t, n), 'X') for g, t in zip(sides, 'lr')]
                    if fuse:
                        want = c.call(J, c.fn(J, 'ref.contact', 'fused'), want + [sides[0].dx])
                    want = J.freeze(tuple(want) if isinstance(want, list) else want)
                    for k, p in enumerate(pair[:2]):
                        c.same('fused-when-asked', loc, (p or {}).get('field X'), want[k], what='%s: map %d' % (what, n), key='fused-when-asked' + key)
                c.same('maps-written', loc, num(len(given['written'])), num(2), what=what, key='maps-written' + key)
                for n, w in enumerate(given['written'][:2]):
                    J = c.interp()
                    want = c.call(J, J.function('strata.dataformats.write', 'flowdata_to_dict'), [whole[n].flow(J, 'w%d' % n)])
                    c.same('maps-written', loc, w[1] if len(w) > 1 else 'absent', J.freeze(want), what='%s: map %d' % (what, n), key='maps-written' + key)
                    c.same('maps-written', loc, w[2] if len(w) > 2 else 'absent', J.freeze(grid_info(J, whole[n])), what='%s: grid of map %d' % (what, n), key='maps-written' + key)


def literal(I, v):
    """Items of a list or tuple with known length."""
    if isinstance(v, tuple):
        return list(v)
    if I.is_ref(v, ListV):
        return [x[1] for x in I.get(v).segs if x[0] == 'lit']
    return []


def grid_info(I, g):
    from ..system import _dict
    return _dict(I, shape=(g.nx, g.ny), spacing=(g.dx, g.dy), origin=(g.x0, g.y0))


def cells_of(c):
    loc = c.loc(D, 'get_contact_line_cells')
    half = num(Fraction(1, 2))
    more = c.tier == 'thorough'
    for labels in (None, ('X', 'P')):
        for layers in (0, 1):
            for opts in ((), ('extract_area',), ('extract_area', 'extract_height')):
                extracted(c, loc, labels, layers, opts)
        extracted(c, loc, labels, 2, (), ZERO, None)
        for layers in (2, 3) if more else (2,):
            for up in (ZERO, half, ONE, add(ONE, half), num(2), num(3))[:6 if more else 4]:
                for ref in (None, ZERO, half, ONE, num(2))[:5 if more else 4]:
                    extracted(c, loc, labels, layers, ('extract_area',) if ref is None else ('extract_area', 'extract_height'), up, ref)


def extracted(c, loc, labels, layers, opts, up=None, ref_up=None):
    """Cells at any place, or (up: height in bins) layers of a regular grid."""
    key = '@get_contact_line_cells'
    F = FIELDS + ('P',)
    xl, yl = labels or ('X', 'Y')
    w, h, eh = N('width', nonneg=True), N('height', nonneg=True), N('extract_height', nonneg=True)
    given = {}
    n = Z('more', pos=True)
    if up is None:
        at = [(Z('l%d' % k, nonneg=True), Z('r%d' % k, nonneg=True)) for k in range(layers)]
        for pair in at:
            n = add(n, add(*pair))

        def value(l, p):
            return elem('a.' + l, p)
    else:
        # cells of layer k: row k of the grid
        cols = [(Z('l%d' % k, nonneg=True), Z('r%d' % k, nonneg=True)) for k in range(layers)]
        dy, low = N('dy', pos=True), N('low')
        rows = add(num(layers), Z('above', nonneg=True))
        for pair in cols:
            n = add(n, add(*pair))
        at = [tuple(add(mul(i, rows), num(k)) for i in pair) for k, pair in enumerate(cols)]
        h = mul(dy, up)
        eh = eh if ref_up is None else mul(dy, ref_up)

        def value(l, i, j):
            if l == xl:
                return elem('a.' + l, i)
            return add(low, mul(dy, j)) if l == yl else elem('a.' + l, i, j)

    def array_of(I, names):
        if up is None:
            i = new_axis(n, 'i')
            dims, body = ((i,),), lambda l: value(l, atom(i[0]))
        else:
            i, j = new_axis(n, 'i'), new_axis(rows, 'j')
            dims, body = ((i, j),), lambda l: value(l, atom(i[0]), atom(j[0]))
        return I.new_arr(ArrVal(dims, {k: body(l) for k, l in names}, dtypes={k: 'float' for k, l in names}))

    I = c.interp()
    flow = Grid().flow(I, 'a', F)
    I.get(flow).attrs['data'] = array_of(I, [(l, l) for l in F])

    def found(pos, kw):
        given['pos'], given['kw'] = [I.freeze(x) for x in pos[1:]], {k: I.freeze(v) for k, v in kw.items()}
        return I.alloc(GenV(tuple(('lit', x) for x in at), ZERO))
    stub(I, 'droplets.interface.get_interface', found)
    kw = {'cutoff': N('co'), 'cutoff_radius': N('cr')}
    for o, v in (('extract_area', (w, h)), ('extract_height', eh)):
        if o in opts:
            kw[o] = v
    if labels:
        kw['coord_labels'] = labels
    before = I.freeze(I.get(flow).attrs['data'])
    r = c.call(I, c.fn(I, D, 'get_contact_line_cells'), [flow, 'M'], kw)
    what = '%d layers%s%s' % (layers, ''.join(', ' + o for o in opts), ', other coordinates' if labels else '')
    if up is not None:
        what += ', height %s, reference at %s bins' % (brief(up), brief(ref_up))
    c.same('map-changed', loc, I.freeze(I.get(flow).attrs['data']), before, what=what, key='map-changed' + key)
    if 'pos' in given:
        got = dict(zip(('label',), given['pos']))
        got.update(given['kw'])
        for o, v in (('label', 'M'), ('cutoff', N('co')), ('cutoff_radius', N('cr'))):
            c.same('searched-with', loc, got.get(o, 'absent'), v, what='%s: %s' % (what, o), key='searched-with' + key)
    if not layers:
        return
    J = c.interp()

    def place(p, k):
        return (value(xl, p), value(yl, p)) if up is None else (value(xl, p, num(k)), value(yl, p, num(k)))
    edges = J.list_of([tuple(place(p, k) for p in pair) for k, pair in enumerate(at if up is None else cols)])
    ref = c.call(J, c.fn(J, 'ref.contact', 'sides'), [array_of(J, [(l, l) for l in F]), array_of(J, [(None, xl)]), array_of(J, [(None, yl)]), edges,
                                                      w if opts else ZERO, h if opts else ZERO, eh if 'extract_height' in opts else ZERO])
    r, ref = I.freeze(r), J.freeze(ref)
    for k, side in enumerate(('left', 'right')):
        c.same('cells-of-a-side', loc, r[k] if isinstance(r, tuple) and len(r) == 2 else r, ref[k], what='%s: %s' % (what, side), key='cells-of-a-side' + key)


def field(I, d, l):
    return I.get(d).items[l][0]


def member(rec, l):
    """Field of a frozen record array."""
    if isinstance(rec, T) and rec.op == 'arr':
        for n, b in rec.args[1]:
            if n == l:
                return mk('arr', rec.args[0], (('', b),), rec.args[2])
    return None


GROUPS = [sampling, files, placed, adjusted, moved_maps, fused, extracting, cells_of]
