"""Spreading of a droplet: the edge of the wetted layer, the edges followed
through the periodic boundary, radius and time (value-flow normal forms) are
compared with the reference definitions (ref.spreading)."""

import itertools

from ..core import *
from ..values import *
from ..inputs import *
from ..system import Z, N, S, Maps, fopts, search_opts, source_of, stub_edges
from ..capture import *

M = 'strata.spreading.collect'
G = 'droplets.interface.get_interface'


def followed(c):
    """One step of following the edges, from every state."""
    loc = c.loc(M, 'check_and_update_periodic_info')
    box = N('box', pos=True)
    left, w, old, ow = N('left'), N('w', pos=True), N('old'), N('ow', pos=True)
    ml, mr = Z('ml'), Z('mr')
    for now, before in itertools.product((1, -1), (None, 1, -1)):
        right = add(left, w) if now > 0 else sub(left, w)
        prev = (None, None) if before is None else (old, add(old, ow) if before > 0 else sub(old, ow))
        turns = (ZERO, ZERO) if before is None else (ml, mr)
        I = c.interp()
        info = c.call(I, c.fn(I, M, 'PeriodicInfo'), list(prev) + list(turns)) if before is not None else c.call(I, c.fn(I, M, 'init_periodic_info'), [])
        r = c.call(I, c.fn(I, M, 'check_and_update_periodic_info'), [info, box, left, right])
        a = c.call(I, c.fn(I, M, 'add_pbc_multipliers_to_edges'), [r, box, left, right])
        J = c.interp()
        x = c.call(J, c.fn(J, 'ref.spreading', 'unwrapped'), [prev + turns, box, left, right])
        b = c.call(J, c.fn(J, 'ref.spreading', 'absolute'), [x, box])
        what = 'left edge %s the right one, before %s' % ('before' if now > 0 else 'behind', {None: 'nothing', 1: 'before it', -1: 'behind it'}[before])
        got, want = I.freeze(r), J.freeze(x)
        if isinstance(got, T) and got.op == 'nt':
            got = got.args[1]
        # both edges moved equally far: the boundary is ambiguous
        g = ONE
        if before is not None:
            g = not_(eq_num(absval(sub(left, prev[0])), absval(sub(right, prev[1]))))
        c.same('state-of-the-edges', loc, got, want, guard=g, what=what, key='state-of-the-edges@' + M)
        c.same('absolute-edges', c.loc(M, 'add_pbc_multipliers_to_edges'), I.freeze(a), J.freeze(b), guard=g, what=what, key='absolute-edges@' + M)


def edges_stub(pattern):
    """Known order of the edges in every map (0: the droplet does not wet)."""
    def stub(I):
        def hook(I, fv, args, kw, node):
            p = source_of(I, args[0][1])
            p = single_atom(p) if isinstance(p, T) and p.op == 'num' else p
            if p is None or p.op != 'sym':
                return NotImplemented
            k = int(p.args[0][1:])
            l, w = N('l%d' % k), N('w%d' % k, pos=True)
            return {'0': (None, None), '<': (l, add(l, w)), '>': (l, sub(l, w))}[pattern[k]]
        I.hooks[M + '.get_spreading_edges'] = hook
    return stub


def columns(c, r):
    """Columns t and r of the returned table: lists of values, else None."""
    if not (isinstance(r, T) and r.op == 'arr' and r.args[2] is ONE and len(r.args[0]) == 1 and len(r.args[0][0]) == 1):
        return None
    (v, s), = r.args[0][0]
    n = const_value(s)
    f = dict(r.args[1])
    if set(f) != {'t', 'r'} or n is None:
        return None
    return tuple(tuple(subst_any(f[l], {v: num(k)}) for k in range(int(n))) for l in 'tr')


def series(c):
    """Several maps in a row: which maps count, times and radii."""
    loc = c.loc(M, 'collect')
    pats = ['<', '>', '0', '<<', '<>', '><', '>>', '0<', '<0', '0<0<', '<0<', '<0>', '00>', '<<<'] + (['<<>', '<><', '>0<', '<0<>'] if c.tier == 'thorough' else [])
    for pat in pats:
        paths = [S('p%d' % i) for i in range(len(pat))]
        dt, t0 = N('dt'), N('t0')
        for save in (None, S('out')) if pat in ('<', '0<', '<<') else (None,):
            I = c.interp()
            Maps(corner=False).install(I)
            edges_stub(pat)(I)
            I.hooks['strata.utils.find_datamap_files'] = lambda I, fv, a, k, node: I.list_of(paths)
            opts = dict(fopts(), dt=dt, t0=t0, quiet=True)
            if save is not None:
                opts['save'] = save
            r = I.freeze(c.call(I, c.fn(I, M, 'collect'), [S('base')], opts))
            J = c.interp()
            Maps(corner=False).install(J)
            edges_stub(pat)(J)
            w = J.freeze(c.call(J, c.fn(J, 'ref.spreading', 'collected'), [J.list_of(paths), dt, t0]))
            got = columns(c, r)
            what = 'maps with edges %s%s' % (' '.join(pat), '' if save is None else ', saved')
            for n, name in enumerate(('times', 'radii')):
                c.same('spreading-' + name, loc, got[n] if got else None, tuple(s[1] for s in w[n].args[0]) if isinstance(w[n], T) else w[n], what=what, key='spreading-%s@collect' % name)


def layers(I):
    """Layers of the interface from the bottom: unknown number and positions."""
    k, n = new_axis(Z('nlayers', nonneg=True), 'k')
    f = lambda s: elem(s, atom(k), int=True, nonneg=True)
    return I.alloc(GenV((('each', k, n, (('lit', (f('ileft'), f('iright'))),)),), ZERO))


def few(n):
    def make(I):
        f = lambda s, k: elem(s, num(k), int=True, nonneg=True)
        return I.alloc(GenV(tuple(('lit', (f('ileft', k), f('iright', k))) for k in range(n)), ZERO))
    return make


PARAMS = ('flow', 'label')


def edges(c):
    """The edges of one map: those of the bottom layer, or of the layer at the floor."""
    loc = c.loc(M, 'get_spreading_edges')
    for floor in (None, N('floor'), ZERO):
        for make, n in ((few(0), 'no layer'), (few(1), 'one layer'), (few(3), 'three layers')) + (((layers, 'any layers'),) if floor is None else ()):
            for labels in (None, ('P', 'Q')):
                opts = search_opts()
                r = []
                for J, m, name in ((c.interp(), M, 'get_spreading_edges'), (c.interp(), 'ref.spreading', 'edges')):
                    capture(J, G, PARAMS, lambda I, a, k: make(I))
                    kw = dict(opts, floor=floor, search_longest_connected=True)
                    if labels:
                        kw['coord_labels'] = labels
                    cr = kw.pop('cutoff_radius')
                    flow = Grid().flow(J, 'a', FIELDS + ('P', 'Q'))
                    r.append((J, J.freeze(c.call(J, c.fn(J, m, name), [flow, 'M', cr], kw))))
                (I, got), (J, want) = r
                what = 'floor %s, %s, labels %s' % (None if floor is None else brief(floor), n, labels)
                c.same('edges-of-the-layer', loc, got, want, what=what, key='edges-of-the-layer@' + M)
                a, b = captured(I), captured(J)
                compare_captured(c, 'interface-search', loc, a, b, what, 'interface-search@' + M, ignore=('flow',))


def search(c):
    """Every map is searched with the options of the caller."""
    loc = c.loc(M, 'collect')
    name = M + '.get_spreading_edges'
    for what, opts in (('no options', {}), ('all options', dict(search_opts(), floor=N('floor'))), ('floor zero', dict(floor=ZERO)), ('some options', dict(cutoff=N('co'), cutoff_bins=Z('cb')))):
        evs = []
        for target in (True, False):
            I = c.interp()
            Maps(corner=False).install(I)
            capture(I, name, ('flow', 'label', 'cutoff_radius'), lambda I, a, k: (N('left'), add(N('left'), N('w', pos=True))))
            paths = [S('p0'), S('p1')]
            I.hooks['strata.utils.find_datamap_files'] = lambda I, fv, a, k, node: I.list_of(paths)
            if target:
                c.call(I, c.fn(I, M, 'collect'), [S('base')], dict(fopts(), quiet=True, dt=N('dt'), **opts))
            else:
                c.call(I, c.fn(I, 'ref.spreading', 'searched'), [I.list_of(paths)], dict(opts))
            evs.append(captured(I, name))
        compare_captured(c, 'edge-search', loc, evs[0], evs[1], what, 'edge-search@collect')


GROUPS = [search, followed, series, edges]
