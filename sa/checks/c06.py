"""Choice of the file format. The reader is evaluated on abstract files with
known first bytes and unknown rest, the writer for every format name; the
format functions are replaced by recorders, and the recorded calls (function,
path, data, information, options) are compared with the format which was found
or asked for. The conversion command is evaluated on arbitrary sequences of
files."""

from ..core import *
from ..inputs import *
from ..effects import *
from ..system import *
from .. import text

READ = 'strata.dataformats.read'
WRITE = 'strata.dataformats.write'
GMX, SIMPLE = 'strata.dataformats.gmx_flow_version_1', 'strata.dataformats.simple'


def recorders(I):
    """The format functions record their calls in the trace."""
    def reader(kind):
        def hook(I, fv, args, kw, node):
            p = args[0][1] if args else kw.items['filename'][0]
            I.emit('map_read', node, format=kind, path=I.freeze(p))
            return (mk('app', kind + '.data', p), mk('app', kind + '.info', p))
        return hook

    def writer(kind):
        def hook(I, fv, args, kw, node):
            names = ['path', 'data', 'info' if kind == 'gmx' else 'binary', 'check_label']
            if any(a[0] != 'lit' for a in args):
                return NotImplemented
            d = {n: I.freeze(a[1]) for n, a in zip(names, args)}
            d.update({k: I.freeze(v[0] if isinstance(v, tuple) else v) for k, v in getattr(kw, 'items', {}).items()})
            I.emit('map_written', node, format=kind, **{'arg_' + k: v for k, v in d.items()})
            return None
        return hook
    for kind, m in (('gmx', GMX), ('simple', SIMPLE)):
        I.hooks[m + '.read.read_data'] = reader(kind)
        I.hooks[m + '.write.write_data'] = writer(kind)
        I.hooks[m + '.write.write_data.prepare_path_wrapper'] = writer(kind)


FILES = (
    ('gmx version 1', ['FORMAT GMX_FLOW_1\nORIGIN ', S('rest', text=True)], 'gmx'),
    ('gmx version 2', ['FORMAT GMX_FLOW_2\nORIGIN ', S('rest', text=True)], 'gmx'),
    ('gmx with a short header line', ['FORMAT GMX_FLOW_1', S('rest', text=True)], 'gmx'),
    ('text table', ['X Y N T M U V\n', S('rest', text=True)], 'simple'),
    ('text table with other columns', ['U V M\n', S('rest', text=True)], 'simple'),
    ('binary', ['\x12', S('rest')], 'simple'),
    ('zero', ['\0\0\0\0', S('rest')], 'simple'),
    ('empty', [''], 'simple'),
)


def detection(c):
    where = c.loc(READ, 'read_data_file')
    for what, content, kind in FILES:
        I = c.interp()
        recorders(I)
        f = c.fn(I, READ, 'read_data_file')
        path = S('path')
        I.contents[path] = text.Content([text.join(content)])
        I.trace = []
        r = c.call(I, f, [path])
        calls = [e for e in I.trace if e.kind == 'map_read']
        opened_ = pred('fails', 'open', path, 0)
        for e in calls:
            g = as_num(e.guard)
            fails = [l for l in literals(g) if l.op == 'pred' and l.args[0] == 'fails']
            for l in fails:     # the file can be opened
                g = restrict(g, l, 0)
            if g is ZERO or not sat(g):
                continue
            v = None if has_unknown(g) else e.data['format'] == kind
            c.ob('format-detected', e, v, '%s: read as %s' % (what, e.data['format']), 'format-detected@%s' % what.split()[0])
            c.same('path-read', e, e.data['path'], path, what=what, key='path-read@read_data_file')
        if not calls:
            c.ob('format-detected', where, None, what)
            continue
        got = I.freeze(r)
        fails = [l for l in (literals_of(got)) if l.op == 'pred' and l.args[0] == 'fails']
        for l in fails:
            got = subst(got, {l: ZERO}) if isinstance(got, T) else tuple(subst(x, {l: ZERO}) if isinstance(x, T) else x for x in got)
        if isinstance(got, tuple) and len(got) == 3:
            c.same('data-and-information', where, got[:2], (mk('app', kind + '.data', path), mk('app', kind + '.info', path)), what=what, key='data-and-information@read_data_file')
            m = got[2]
            if isinstance(m, T) and m.op == 'dict':
                d = {k: v for k, v, p in m.args[0]}
                if 'path' in d:
                    c.same('metadata', where, d['path'], path, what=what + ' path', key='metadata-path@read_data_file')
                mod_ = d.get('module')
                if isinstance(mod_, T) and mod_.op == 'mod':
                    c.ob('metadata', where, mod_.args[0].startswith({'gmx': GMX, 'simple': SIMPLE}[kind]), '%s: module %s' % (what, mod_.args[0]), 'metadata-module@read_data_file')
                    usable(c, I, mod_, kind, where)
        else:
            c.ob('data-and-information', where, None, what)


def literals_of(v):
    if isinstance(v, T):
        return [s for s in subterms(v) if s.op == 'pred']
    if isinstance(v, tuple):
        return [l for x in v for l in literals_of(x)]
    return []


def usable(c, I, m, kind, where):
    """The module handed out has the functions commands take from it."""
    for n in ('read_data', 'write_data', 'average_data', 'combine_bins'):
        try:
            v = I.getattr(m, n)
        except Exception:
            v = None
        ok = isinstance(v, T) and v.op in ('func', 'bound')
        if v is None:
            fr = c.program.modules.get(m.args[0])
            ok = fr is None
        c.ob('module-functions', where, True if ok else None, '%s of the %s format' % (n, kind), 'module-functions@%s.%s' % (kind, n))


def sequences(c):
    """read_from_files gives every file in order."""
    I = c.interp()
    recorders(I)
    Maps().install(I)
    f = c.fn(I, READ, 'read_from_files')
    paths = [S('f%d' % n) for n in range(3)]
    I.trace = []
    r = c.call(I, f, list(paths))
    try:
        got = I.freeze(r)
    except Exception:
        got = None
    I2 = c.interp()
    mp = Maps().install(I2)
    want = I2.freeze(I2.list_of([mp.read(I2, p) for p in paths]))
    if not (isinstance(got, T) and got.op == 'list'):
        c.ob('files-in-order', c.loc(READ, 'read_from_files'), None, '')
    else:
        c.same('files-in-order', c.loc(READ, 'read_from_files'), got, want, key='files-in-order@read_from_files')


def dispatch(c):
    where = c.loc(WRITE, 'write')
    for ftype, kind in (('gmx', 'gmx'), (None, 'gmx'), ('default', 'gmx'), ('simple', 'simple'), ('simple_plain', 'simple')):
        what = 'ftype %s' % ftype
        I = c.interp()
        recorders(I)
        f = c.fn(I, WRITE, 'write')
        G = Grid()
        path, data, info = S('path'), G.data(I, 'a'), G.info(I)
        kw = {} if ftype is None else {'ftype': ftype}
        I.trace = []
        c.call(I, f, [path, data, info], kw)
        ev = [e for e in I.trace if e.kind == 'map_written']
        if len(ev) != 1 or ev[0].guard is not ONE:
            raised = [e for e in I.trace if e.kind in ('raise', 'crash') and e.guard is ONE]
            opaque = bool(outside(I))
            c.ob('one-writer-called', raised[0] if raised else where, False if raised and not opaque or not ev and not opaque else None, '%s: %d writers called' % (what, len(ev)), 'one-writer-called@write.%s' % ftype)
            continue
        e = ev[0]
        c.ob('writer-of-the-format', e, e.data['format'] == kind, '%s: written as %s' % (what, e.data['format']), 'writer-of-the-format@write.%s' % ftype)
        if e.data['format'] != kind:
            continue
        c.same('map-written', e, e.data.get('arg_path'), path, what=what + ' path', key='path-written@write')
        c.same('map-written', e, e.data.get('arg_data'), I.freeze(data), what=what + ' data', key='data-written@write')
        if kind == 'gmx':
            c.same('map-written', e, e.data.get('arg_info'), I.freeze(info), what=what + ' info', key='info-written@write')
        else:
            b = e.data.get('arg_binary', ONE)
            c.same('text-or-binary', e, as_num(b) if b in (ONE, ZERO, True, False) else b, ZERO if ftype == 'simple_plain' else ONE, what=what, key='text-or-binary@write.%s' % ftype)
    # the text format stays one whatever else is asked for
    for b in (True, False):
        I = c.interp()
        recorders(I)
        f = c.fn(I, WRITE, 'write')
        G = Grid()
        I.trace = []
        c.call(I, f, [S('path'), G.data(I, 'a'), G.info(I)], {'ftype': 'simple_plain', 'binary': b}, may_fail=True)
        for e in I.trace:
            if e.kind == 'map_written' and e.guard is ONE and e.data['format'] == 'simple':
                v = e.data.get('arg_binary', ONE)
                c.same('text-or-binary', e, as_num(v) if v in (ONE, ZERO, True, False) else v, ZERO, what='simple_plain with binary=%s' % b, key='text-or-binary@write.simple_plain')
    # the options of one call do not change the next one
    for first, second in (('simple_plain', 'simple'), ('simple', None), ('simple_plain', None), (None, 'simple')):
        I = c.interp()
        recorders(I)
        f = c.fn(I, WRITE, 'write')
        G = Grid()
        I.trace = []
        for ft in (first, second):
            kw = {} if ft is None else {'ftype': ft}
            c.call(I, f, [S('path'), G.data(I, 'a'), G.info(I)], kw)
        ev = [e for e in I.trace if e.kind == 'map_written']
        if len(ev) == 2:
            kind = 'gmx' if second is None else 'simple'
            ok = ev[1].data['format'] == kind
            if ok and kind == 'simple':
                ok = ev[1].data.get('arg_binary', ONE) in (ONE, True)
            c.ob('calls-independent', ev[1], ok, '%s after %s' % (second, first), 'calls-independent@write')
        else:
            c.ob('calls-independent', where, None, '%s after %s' % (second, first))
    # unknown formats
    I = c.interp()
    recorders(I)
    f = c.fn(I, WRITE, 'write')
    G = Grid()
    I.trace = []
    c.call(I, f, [S('path'), G.data(I, 'a'), G.info(I)], {'ftype': 'no such format'}, may_fail=True)
    ev = [e for e in I.trace if e.kind in ('map_written', 'open', 'rename', 'tofile')]
    esc = const_value(as_num(c.escapes(I, 'KeyError')))
    c.ob('unknown-format-refused', where, True if esc == 1 and not ev else None if any(has_unknown(as_num(e.guard)) for e in I.trace) else False,
         'an unknown format raises KeyError before anything is written', 'unknown-format-refused@write')


def conversion(c):
    """Every converted file holds the map of its input in the format asked for."""
    for ftype, kind in (('gmx', 'gmx'), ('simple', 'simple'), ('simple_plain', 'simple')):
        what = 'convert to %s' % ftype
        maps = Maps()
        cmd = COMMANDS['convert']
        where = c.loc(cmd.module, cmd.func)
        I, r = cmd.run(c, maps=maps, prepare=recorders, ftype=ftype)
        ev = [e for e in I.trace if e.kind == 'map_written']
        if len(ev) != 1:
            c.ob('map-converted', where, None if ev or bool(outside(I)) else False, '%s: %d writes' % (what, len(ev)), 'map-converted@convert')
            continue
        e = ev[0]
        c.ob('converted-format', e, e.data['format'] == kind, what + ': written as ' + e.data['format'], 'converted-format@convert')
        if kind == 'simple':
            b = e.data.get('arg_binary', ONE)
            c.ob('converted-format', e, b in ((ZERO, False) if ftype == 'simple_plain' else (ONE, True)) if b in (ONE, ZERO, True, False) else None,
                 what, 'converted-text-or-binary@convert')
        src = source_of(I, e.data.get('arg_data'))
        if src is None:
            c.ob('map-converted', e, None, what)
            continue
        J = c.interp()
        mp = Maps()
        d, info, meta = mp.read(J, src)
        c.same('map-converted', e, e.data['arg_data'], J.freeze(d), as_num(e.guard), what=what + ': data', key='data@convert')
        if kind == 'gmx':
            c.same('map-converted', e, e.data.get('arg_info'), J.freeze(info), as_num(e.guard), what=what + ': info', key='info@convert')
        paired(c, I, e, src, what)


def paired(c, I, e, src, what):
    """The k-th input goes to the output with its number."""
    f = c.fn(I, 'strata.utils', 'find_singles_to_singles')
    o = fopts()
    J = c.interp()
    f = c.fn(J, 'ref.files', 'singles_to_singles')
    pairs = J.freeze(c.call(J, f, [S('base'), S('out'), o['begin'], o['end'], o['ext'], o['ext']]))
    segs = pairs.args[0] if isinstance(pairs, T) and pairs.op == 'list' else None
    if not segs or len(segs) != 1 or segs[0][0] != 'each' or len(e.loops) != 1:
        c.ob('output-of-input', e, None, what)
        return
    _, k, size, inner = segs[0]
    v, s = e.loops[0]
    if len(inner) != 1 or inner[0][0] != 'lit':
        c.ob('output-of-input', e, None, what)
        return
    want = subst_any(inner[0][1], {k: atom(v)})
    c.same('output-of-input', e, (src, e.data.get('arg_path')), want, what=what, key='output-of-input@convert')
    c.same('every-input-converted', e, s, size, what=what, key='every-input-converted@convert')


GROUPS = [detection, sequences, dispatch, conversion]
