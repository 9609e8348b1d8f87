"""Simple data map files. The table of values and the text options with which
the writer saves an arbitrary map are taken from its effect trace and compared
with the formats (binary: bin after bin the seven float32 fields in fixed
order; text: the same columns under a header of their names); the readers are
evaluated on abstract files of both formats and on what the writer wrote, and
their data and grid information are compared with the map."""

from ..core import *
from ..inputs import *
from ..effects import *
from ..system import *
from .. import text

W = ('strata.dataformats.simple.write', 'write_data')
R = ('strata.dataformats.simple.read', 'read_data')
ORDER = ('X', 'Y', 'N', 'T', 'M', 'U', 'V')


def grid(**k):
    return Grid(dec=5, step=Fraction(1, 1000), **k)


def pick_field(G, c, i, j):
    v = ZERO
    for n, l in enumerate(ORDER):
        v = add(v, mul(eq_num(c, num(n)), G.value('a', l, i, j)))
    return v


def table(G, flat=False, dtype='float32'):
    i, j = G.axes()
    c = new_axis(num(7), 'c')
    body = pick_field(G, atom(c[0]), atom(i[0]), atom(j[0]))
    dims = ((i, j, c),) if flat else ((i, j), (c,))
    return ArrVal(dims, {None: body}, ONE, {None: dtype})


def saved(c, binary, source='dict', layout='xy'):
    I = c.interp()
    f = c.fn(I, *W)
    path = S('path')
    G = grid(layout=layout)
    d = G.data(I, 'a') if source == 'dict' else G.record(I, 'a')
    I.trace = []
    c.call(I, f, [path, d], {'binary': binary} if binary is not None else {})
    ev = [e for e in I.trace if e.kind in ('tofile', 'savetxt', 'write')]
    return I, G, ev


def writer(c):
    where = c.loc(*W)
    cases = (('dict', 'xy'), ('record', 'xy'), ('record', 'yx'))
    for binary in (True, False, None):
        for source, layout in cases:
            what = '%s of a %s%s' % ('binary' if binary else 'text' if binary is False else 'default', source, ' in y-major order' if layout == 'yx' else '')
            I, G, ev = saved(c, binary, source, layout)
            kind = 'savetxt' if binary is False else 'tofile'
            if any(has_unknown(as_num(e.guard)) for e in ev):
                c.ob('values-written', where, None, what)
                continue
            if len(ev) != 1 or ev[0].kind != kind or ev[0].guard is not ONE:
                opaque = [e for e in I.trace if e.kind == 'ext'] or any(e.kind == 'write' for e in ev)
                c.ob('one-table-written', where, None if opaque else False, '%s: %s' % (what, [e.kind for e in ev]), 'one-table-written@simple')
                continue
            e = ev[0]
            if e.data['arr'] is None:
                c.ob('values-written', e, None, what)
                continue
            arr = e.data['arr']
            got = I.freeze(I.new_arr(arr))
            H = grid()
            c.same('values-written', e, got, frozen(table(H)), what=what, key='values-written@simple.%s' % kind)
            if kind == 'tofile':
                dt = arr.dtypes.get(None)
                c.ob('float32-values', e, None if dt is None else dt == 'float32', '%s: values of type %s' % (what, dt), 'float32-values@simple')
                c.ob('binary-values', e, e.data.get('sep') in (None, ''), what, 'binary-values@simple')
            else:
                k = e.data['kwargs']
                text_options(c, e, k, what)


def text_options(c, e, k, what):
    h = k.get('header')
    c.ob('header-names', e, h.split() == list(ORDER) if isinstance(h, str) else False if h is None else None, '%s: header %r' % (what, h), 'header-names@simple')
    cm = k.get('comments', '# ')
    c.ob('header-names', e, cm.strip() == '' if isinstance(cm, str) else None, '%s: the header line is prefixed by %r' % (what, cm), 'header-prefix@simple')
    d = k.get('delimiter', ' ')
    c.ob('columns-separated', e, d.strip() == '' and d != '' if isinstance(d, str) else None, '%s: delimiter %r' % (what, d), 'columns-separated@simple')
    f = k.get('fmt', '%.18e')
    ok = None
    if isinstance(f, str):
        t = f[f.find('%') + 1:] if f.count('%') == 1 else ''
        conv = t[-1:]
        prec = int(t[:-1].split('.')[1] or 0) if '.' in t and (t[:-1].split('.')[1] or '0').isdigit() else 6
        ok = True if conv in 'fF' and prec >= 6 or conv in 'eEgG' and prec >= 6 else False if conv in ('d', 'i', 'f', 'F', 'e', 'E', 'g', 'G') and t else None
    c.ob('digits-kept', e, ok, '%s: values are formatted as %r' % (what, f), 'digits-kept@simple')


def frozen(a):
    return mk('arr', a.dims, tuple(((l or ''), v) for l, v in a.fields.items()), a.filt)


def reading(c, what, key, G, binary, arr, labels=ORDER):
    if binary:
        # the first values may be bytes which are text, and text has no NUL
        reading_(c, what, key, G, text.Content([], [arr], binary=True), labels)
        reading_(c, what + ', decodable', key, G, text.Content([], [arr], binary=False, head=text.join(('\0', S('rest')))), labels)
    else:
        reading_(c, what, key, G, text.Content([S('content', text=True)], [], binary=False, table=arr), labels)


def reading_(c, what, key, G, content, labels):
    I = c.interp()
    f = c.fn(I, *R)
    path = S('path')
    I.contents[path] = content
    I.trace = []
    r = c.call(I, f, [path])
    got = I.freeze(r)
    where = c.loc(*R)
    if isinstance(got, T) and got.op == 'absent':
        ev = [e for e in I.trace if e.kind in ('raise', 'crash') and not has_unknown(as_num(e.guard))]
        c.ob('reads-the-format', ev[-1] if ev else where, False if ev and not I.notes else None, '%s: reading fails with %s' % (what, ev[-1].data.get('exc') if ev else '?'), 'fails@' + key)
        return
    if not isinstance(got, tuple) or len(got) != 2:
        c.ob('reads-the-format', where, None, what)
        return
    data, info = expected(G, labels)
    c.same('reads-the-format', where, got[0], data, what=what + ': data', key='data@' + key)
    c.same('reads-the-format', where, got[1], info, what=what + ': info', key='info@' + key)
    for e in I.trace:
        if e.kind == 'block' and e.data['dtype'] is not None:
            c.ob('float32-values', e, e.data['dtype'] == 'float32', '%s: values are read as %s' % (what, e.data['dtype']), 'float32-values@' + key)


def expected(G, labels=ORDER):
    i, j = G.axes()
    a, b = atom(i[0]), atom(j[0])
    data = mk('dict', tuple((l, mk('arr', ((i, j),), (('', G.value('a', l, a, b)),), ONE), ONE) for l in labels), None)
    many = lambda n: not_(eq_num(n, ONE))
    info = mk('dict', (('shape', (G.nx, G.ny), ONE), ('spacing', (mul(G.dx, many(G.nx)), mul(G.dy, many(G.ny))), ONE),
                       ('num_bins', mul(G.nx, G.ny), ONE), ('origin', (G.x0, G.y0), ONE)), None)
    return data, info


def record(G, labels, layout=None):
    i, j = G.axes()
    a, b = atom(i[0]), atom(j[0])
    return ArrVal(((i, j),), {l: G.value('a', l, a, b) for l in labels}, ONE, {l: 'float' for l in labels})


def reader(c):
    G = grid()
    reading(c, 'binary', 'simple.binary', G, True, table(G, flat=True))
    reading(c, 'text', 'simple.text', G, False, record(G, ORDER))
    other = ('N', 'V', 'Y', 'M', 'X', 'U', 'T')
    reading(c, 'text with the columns in another order', 'simple.text', G, False, record(G, other), other)
    few = ('X', 'Y', 'U')
    reading(c, 'text with three fields', 'simple.text', G, False, record(G, few), few)
    for nx, ny in ((1, None), (None, 1), (1, 1)):
        G = grid(nx=nx, ny=ny)
        reading(c, 'one %s' % ('bin' if nx and ny else 'column' if nx else 'row'), 'simple.single', G, True, table(G, flat=True))


def roundtrip(c):
    for binary in (True, False):
        I, G, ev = saved(c, binary)
        ev = [e for e in ev if e.kind in ('tofile', 'savetxt')]
        if len(ev) != 1 or ev[0].data['arr'] is None:
            c.ob('round-trip', c.loc(*W), None, 'the table written is not known')
            continue
        arr = ev[0].data['arr']
        if len(arr.dims) != 2:
            c.ob('round-trip', ev[0], None, 'the table written is not known')
            continue
        if binary:
            flat = ArrVal((tuple(arr.dims[0]) + tuple(arr.dims[1]),), {None: arr.body}, arr.filt, {None: 'float32'})
            reading(c, 'round trip', 'simple.roundtrip', grid_like(G), True, flat)
        else:
            h = ev[0].data['kwargs'].get('header')
            cols = arr.dims[1]
            if not isinstance(h, str) or len(cols) != 1 or const_value(cols[0][1]) != len(h.split()):
                c.ob('round-trip', ev[0], None, 'the columns written are not known')
                continue
            rec = ArrVal((arr.dims[0],), {l: subst(arr.body, {cols[0][0]: num(n)}) for n, l in enumerate(h.split())}, arr.filt, {l: 'float' for l in h.split()})
            reading(c, 'round trip of text', 'simple.roundtrip.text', grid_like(G), False, rec)


def grid_like(G):
    return G


GROUPS = [writer, reader, roundtrip]
