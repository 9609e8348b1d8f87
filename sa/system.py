"""The surroundings of a command: the data map files it reads."""

from .terms import *
from .values import *
from .inputs import *


class Maps(object):
    """Contents of data map files as functions of the path.

    Every map has the same regular grid (x-major file order) unless own_grid
    is set; values are unknown per path, label and bin.
    """

    def __init__(self, tag='file', own_grid=False, module=None, labels=FIELDS, layout='xy', corner=True, extra=()):
        self.grid = Grid(tag + '.', layout=layout)
        self.tag = tag
        self.own = own_grid
        self.labels = labels
        self.module = module or 'strata.dataformats.gmx_flow_version_1.main'
        self.corner = corner

    def value(self, path, label, i, j):
        i, j = as_num(i), as_num(j)
        g = self.of(path)
        if label == 'X':
            return add(g.x0, mul(g.dx, i))
        if label == 'Y':
            return add(g.y0, mul(g.dy, j))
        return elem('%s.%s' % (self.tag, label), as_num(path), i, j, nonneg=label in NONNEG)

    def of(self, path):
        if not self.own:
            return self.grid
        g = Grid(self.tag + '.', layout=self.grid.layout)
        p = as_num(path)
        for n in ('nx', 'ny', 'dx', 'dy', 'x0', 'y0'):
            f = {'kind': 'array'}
            if n in ('nx', 'ny'):
                f.update(int=True, pos=True)
            elif n in ('dx', 'dy'):
                f.update(pos=True)
            setattr(g, n, elem('%s.%s' % (self.tag, n), p, **f))
        return g

    def read(self, I, path):
        """(data, info, metadata) like read_data_file."""
        g = self.of(path)
        d = I.new_dict()
        for l in self.labels:
            i, j = g.axes()
            I.get(d).items[l] = (I.new_arr(ArrVal(g.dims(i, j), {None: self.value(path, l, atom(i[0]), atom(j[0]))}, dtypes={None: 'float'})), ONE)
        origin = (sub(g.x0, scale(g.dx, Fraction(1, 2))), sub(g.y0, scale(g.dy, Fraction(1, 2)))) if self.corner else (g.x0, g.y0)
        info = g.info(I, origin)
        meta = I.new_dict()
        I.get(meta).items['path'] = (path, ONE)
        I.get(meta).items['module'] = (mod(self.module), ONE)
        return (d, info, meta)

    def install(self, I):
        I.module(self.module)

        def hook(I, fv, args, kw, node):
            path = args[0][1] if args else kw.items['filename'][0]
            return I.cases(path, lambda p: self.read(I, p))
        I.hooks['strata.dataformats.read.read_data_file'] = hook
        return self


# ------------------------------------------------------------------ writers

def S(n, **k):
    return sym(n, kind='str', **k)


def N(n, **k):
    return atom(sym(n, kind='num', **k))


def Z(n, **k):
    return atom(sym(n, kind='num', int=True, **k))


def series(I, name):
    k, n = new_axis(Z('n' + name, pos=True), 'k')
    return I.new_list((('each', k, n, (('lit', elem(name, atom(k))),)),))


def _dict(I, **kw):
    d = I.new_dict()
    for k, v in kw.items():
        I.get(d).items[k] = (v, ONE)
    return d


def _interface(I):
    return _dict(I, X=array(I, 'ix', (Z('nint', pos=True),)), Y=array(I, 'iy', (Z('nint', pos=True),)))


def _header_opts(I):
    return _dict(I, begin=Z('begin'), end=Z('end'), dt=N('dt'), floor=N('floor'), cutoff=N('cutoff'), cutoff_radius=N('cutoff_radius'), cutoff_bins=Z('cutoff_bins'))


def gmx_args(I):
    G = Grid()
    return [S('path'), G.data(I, 'a'), G.info(I)], {}


def simple_args(binary):
    def f(I):
        return [S('path'), Grid().data(I, 'a')], {'binary': binary}
    return f


WRITERS = [
    ('strata.dataformats.gmx_flow_version_1.write', 'write_data', 'gmx', gmx_args),
    ('strata.dataformats.simple.write', 'write_data', 'simple binary', simple_args(True)),
    ('strata.dataformats.simple.write', 'write_data', 'simple plain', simple_args(False)),
    ('strata.sample_average', 'write_header', 'sample header',
     lambda I: ([S('path'), S('base'), I.list_of(['T', 'U']), N('cutoff'), S('cutoff_label'), _header_opts(I)], {})),
    ('strata.contact_line_analysis', 'write_header', 'contact line header',
     lambda I: ([S('path'), S('base'), I.list_of(['T', 'U']), N('cutoff'), S('cutoff_label'), Z('average', pos=True), True, _header_opts(I)], {})),
    ('strata.spreading.collect', 'write_header', 'spreading header', lambda I: ([S('path'), S('base'), _header_opts(I)], {})),
    ('strata.interface.sample', 'write_header', 'interface sample header', lambda I: ([S('path'), S('base'), 'area', N('dt'), _header_opts(I)], {})),
    ('strata.interface.angle', 'write_angle_data', 'angle data',
     lambda I: ([S('path'), S('base'), N('height'), series(I, 't'), _dict(I, measured=series(I, 'am'), left=series(I, 'al'), right=series(I, 'ar'), fit=I.new_list(()))],
                {'begin': Z('begin'), 'end': Z('end'), 'delta_t': N('dt')})),
    ('strata.interface.collect', 'write_interface_data', 'interface data',
     lambda I: ([S('path'), _interface(I), I.list_of([S('f1'), S('f2')]), _header_opts(I)], {})),
    ('strata.spreading.view', 'write_spreading_data', 'spreading data', lambda I: ([S('path'), sym('all_series')], {})),
    ('strata.spreading.fit', 'write_fitting_data', 'fitting data',
     lambda I: ([S('path'), sym('all_series'), (N('l0'), N('l1')), (N('o0'), N('o1'))], {})),
]


# ------------------------------------------------------- stubbed searches

def source_of(I, v, tag='file.'):
    """Path of the data map file a value was read from."""
    for t in subterms(I.freeze(v)):
        if isinstance(t, T) and t.op == 'elem' and str(t.args[0].args[0]).startswith(tag) and len(t.args) > 1:
            return t.args[1]
    return None


def per_file(name, path, **facts):
    return elem(name, as_num(path), **facts)


def stub_edges(I):
    """Result of the droplet edge search: unknown, per file, possibly none."""
    def hook(I, fv, args, kw, node):
        path = source_of(I, args[0][1])
        if path is None:
            return NotImplemented
        found = pred('found', path)
        return (ite(found, per_file('left', path), None), ite(found, per_file('right', path), None))
    I.hooks['strata.spreading.collect.get_spreading_edges'] = hook


def stub_interface(I):
    """Indices of the interface search: unknown, per file and layer."""
    def hook(I, fv, args, kw, node):
        path = source_of(I, args[0][1])
        if path is None:
            return NotImplemented
        k, n = new_axis(per_file('nlayers', path, int=True, pos=True), 'k')
        f = lambda s: elem(s, as_num(path), atom(k), int=True, nonneg=True)
        return I.new_list((('each', k, n, (('lit', (f('ileft'), f('iright'))),)),))
    I.hooks['droplets.interface.get_interface'] = hook


def stub_cells(I, labels=FIELDS):
    """Cells of the two contact line areas: unknown records per file."""
    def hook(I, fv, args, kw, node):
        path = source_of(I, args[0][1])
        if path is None:
            return NotImplemented
        out = []
        for side in ('left', 'right'):
            k, n = new_axis(per_file('ncells.' + side, path, int=True, pos=True), 'k')
            out.append(I.new_arr(ArrVal(((((k, n)),),), {l: elem('cell.%s.%s' % (side, l), as_num(path), atom(k), nonneg=l in NONNEG) for l in labels},
                                        dtypes={l: 'float' for l in labels})))
        return tuple(out)
    I.hooks['droplets.contact_line.get_contact_line_cells'] = hook


def stub_averaged(I):
    """Averaged contact line edges: unknown pairs of maps, one per group of files."""
    def hook(I, fv, args, kw, node):
        flow = I.function('droplets.flow', 'FlowData')
        if flow is None:
            return NotImplemented
        k, n = new_axis(Z('ngroups', nonneg=True), 'k')
        I.loops.append((k, n))
        pair = []
        for side in ('left', 'right'):
            fs = []
            for l in FIELDS:
                v, m = new_axis(elem('nc.' + side, atom(k), int=True, pos=True), 'c')
                fs.append((l, I.new_arr(ArrVal((((v, m),),), {None: elem('avg.%s.%s' % (side, l), atom(k), atom(v), nonneg=l in NONNEG)}, dtypes={None: 'float'}))))
            info = _dict(I, shape=(elem('nc.' + side, atom(k), int=True, pos=True), ONE), spacing=(N('dx', pos=True), N('dy', pos=True)), origin=(ZERO, ZERO))
            pair.append(I.call(flow, fs, {'info': info}))
        item = I.list_of(pair)
        I.loops.pop()
        return I.new_list((('each', k, n, (('lit', item),)),))
    I.hooks['strata.contact_line_analysis.get_averaged_contact_line_edges'] = hook


def stub_coordinates(I):
    """Collected interface of a file: unknown record."""
    def hook(I, fv, args, kw, node):
        path = source_of(I, args[0][1])
        if path is None:
            return NotImplemented
        k, n = new_axis(per_file('npoints', path, int=True, pos=True), 'k')
        a = I.new_arr(ArrVal(((((k, n)),),), {l: elem('int.' + l, as_num(path), atom(k)) for l in 'XY'}, dtypes={l: 'float' for l in 'XY'}))
        return (a, mk('ext', 'pbc'), mk('ext', 'yindex'))
    I.hooks['strata.interface.collect.get_interface_coordinates'] = hook


def fopts(**kw):
    d = dict(begin=Z('b', nonneg=True), end=Z('e'), ext=S('x'))
    d.update(kw)
    return d


def search_opts(**kw):
    d = dict(cutoff=N('co'), cutoff_radius=N('cr', pos=True), cutoff_bins=Z('cb', pos=True))
    d.update(kw)
    return d


class Command(object):
    def __init__(self, name, module, func, args, kw, stubs=(), maps=True):
        self.name, self.module, self.func, self.args, self.kw, self.stubs, self.maps = name, module, func, args, kw, stubs, maps

    def run(self, c, maps=None, extra=None, prepare=None, **more):
        """Evaluate the command; returns (interpreter, value)."""
        I = c.interp()
        if self.maps:
            (maps or Maps()).install(I)
        for s in self.stubs:
            s(I)
        if prepare:
            prepare(I)
        f = c.fn(I, self.module, self.func)
        kw = self.kw(I)
        kw.update(extra(I) if extra else {})
        kw.update(more)
        args = self.args(I)
        I.trace = []
        return I, c.call(I, f, args, kw)


_io = lambda I: [S('base'), S('out')]
_base = lambda I: [S('base')]

COMMANDS = {x.name: x for x in (
    Command('average', 'strata.average', 'average', lambda I: [S('base'), S('out'), num(2)], lambda I: fopts(), (stub_edges,)),
    Command('convert', 'strata.convert', 'convert', _io, lambda I: fopts(ftype='simple')),
    Command('sample', 'strata.sample_average', 'sample_average_files', lambda I: [S('base'), I.list_of(['T', 'U'])],
            lambda I: fopts(output=S('out'), dt=N('dt'))),
    Command('contact_line collect', 'strata.contact_line_analysis', 'extract_contact_line_bins', _io,
            lambda I: fopts(extract_area=(N('ax'), N('ay')), **search_opts()), (stub_cells,)),
    Command('contact_line sample', 'strata.contact_line_analysis', 'sample_contact_line_edges', lambda I: [S('base'), I.list_of(['T', 'U'])],
            lambda I: fopts(save=S('out'), dt=N('dt'), extract_area=(N('ax'), N('ay')), **search_opts()), (stub_cells,)),
    Command('spreading collect', 'strata.spreading.collect', 'collect', _base,
            lambda I: fopts(save=S('out'), floor=N('fl'), dt=N('dt'), t0=N('t0'), **search_opts()), (stub_edges,)),
    Command('spreading view', 'strata.spreading.view', 'view_spreading', lambda I: [I.list_of([S('f1')])],
            lambda I: dict(save_xvg=S('out'), tau=N('tau'), R=N('R')), maps=False),
    Command('spreading fit', 'strata.spreading.fit', 'fit_spreading_data', lambda I: [I.list_of([S('f1')])],
            lambda I: dict(save_xvg=S('out')), maps=False),
    Command('interface collect', 'strata.interface.collect', 'collect_interfaces', _io,
            lambda I: fopts(recenter='com', **search_opts()), (stub_coordinates,)),
    Command('interface view', 'strata.interface.view', 'view_interfaces', _base,
            lambda I: fopts(average=num(2), save_xvg=S('out')), maps=False),
    Command('interface sample', 'strata.interface.sample', 'sample_interfaces', lambda I: [S('base'), 'area'],
            lambda I: fopts(save_xvg=S('out'), delta_t=N('dt')), maps=False),
    Command('interface angle', 'strata.interface.angle', 'interface_contact_angle', _base,
            lambda I: fopts(save_xvg=S('out'), height=N('h'), fit=True, delta_t=N('dt')), maps=False),
)}

_flag = lambda n: sym(n, kind='bool')

# Further configurations of the commands; flags stand for both values.
VARIANTS = {
    'average': [dict(quiet=_flag('quiet'), rolling=_flag('rolling')), dict(quiet=_flag('quiet'), recenter='right'), dict(recenter='com', quiet=True),
                dict(recenter='left', quiet=True), dict(combine=(Z('cx', pos=True), Z('cy', pos=True)), quiet=True), dict(supersample=num(2), quiet=True),
                dict(xlim=(N('x0'), N('x1')), ylim=(None, N('y1')), quiet=True)],
    'convert': [dict(quiet=_flag('quiet')), dict(ftype='gmx', quiet=True), dict(ftype='simple_plain', quiet=True)],
    'sample': [dict(quiet=_flag('quiet'), sum=_flag('sum'), verbose=_flag('verbose')), dict(quiet=True, cutoff=N('co'), cutoff_label='M', xlim=(N('x0'), None))],
    'contact_line collect': [dict(quiet=_flag('quiet'), rolling=_flag('rolling'), recenter=_flag('recenter'), fuse=_flag('fuse'), average=num(2)),
                             dict(quiet=True, floor=N('floor')), dict(quiet=True, fuse=True, average=num(1), prepare=stub_averaged)],
    'contact_line sample': [dict(quiet=_flag('quiet'), rolling=_flag('rolling'), recenter=_flag('recenter'), sum=_flag('sum'), average=num(2))],
    'spreading collect': [dict(quiet=_flag('quiet'))],
    'spreading view': [dict(loglog=_flag('loglog'), quiet=_flag('quiet'))],
    'spreading fit': [dict(quiet=_flag('quiet'))],
    'interface collect': [dict(quiet=_flag('quiet'), recenter='zero'), dict(quiet=True, recenter=None)],
    'interface view': [dict(quiet=_flag('quiet'), average=num(1))],
    'interface sample': [dict(quiet=_flag('quiet')), dict(quiet=True, show=_flag('show'))],
    'interface angle': [dict(quiet=_flag('quiet'), fit=_flag('fit')), dict(quiet=True, fit=True, height=None)],
}


def configurations(names=None):
    """(description, command, options) of every analysed configuration."""
    for n in sorted(names or COMMANDS):
        yield n, COMMANDS[n], {}
        for v in VARIANTS.get(n, ()):
            yield '%s with %s' % (n, ', '.join('%s=%s' % (k, x if isinstance(x, (str, bool)) else 'any') for k, x in sorted(v.items()) if k != 'prepare')), COMMANDS[n], v
