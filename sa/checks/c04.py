"""GMX_FLOW files. The byte stream of the writer is reconstructed from its
effect trace for an arbitrary grid (text of literal parts and formatted
values, then binary blocks) and compared with the format; the reader is
evaluated on abstract files of that format, with the header split over reads
at different places, and its result, the position and the type of every block
it reads are compared with the format; and the reader is evaluated on what the
writer wrote."""

from ..core import *
from ..inputs import *
from ..effects import *
from ..system import *
from .. import text
from .. import arrays as A

W = ('strata.dataformats.gmx_flow_version_1.write', 'write_data')
R = ('strata.dataformats.gmx_flow_version_1.read', 'read_data')
TYPES = {'IX': 'uint64', 'IY': 'uint64', 'N': 'float32', 'T': 'float32', 'M': 'float32', 'U': 'float32', 'V': 'float32'}
VALUES = ('N', 'T', 'M', 'U', 'V')
H = Fraction(1, 2)


def selected(M, N=None):
    return not_(eq_num(M, ZERO))


def rounded(v):
    return any(t.op == 'app' and t.args[0] == 'rounded' for t in subterms(v) if isinstance(t, T))


def written(c, G, data=None, check=None):
    I = c.interp()
    f = c.fn(I, *W)
    path = S('path')
    d = data(I) if data else G.data(I, 'a')
    corner = (N('x_corner'), N('y_corner'))
    I.trace = []
    c.call(I, f, [path, d, G.info(I, corner)], {'check_label': check} if check else {})
    head, blocks, late = [], [], False
    known = True
    for e in I.trace:
        if e.kind == 'write' and e.data.get('path') is path:
            v = e.data['value']
            if isinstance(v, T) and v.op == 'bytes':
                v = v.args[0]
            if not isinstance(v, str) and not (isinstance(v, T) and v.op == 'str') or e.guard is not ONE or e.loops:
                known = False
            late = late or bool(blocks)
            head.append(v)
        elif e.kind == 'tofile':
            if e.guard is not ONE or e.loops:
                known = False
            blocks.append((e, e.data['arr'], e.data.get('sep')))
    return I, corner, (text.join([p for v in head for p in text.parts(v)]) if known else None), blocks, late, [e for e in I.trace if e.kind == 'write']


def total_text(t):
    """The text ends with the end of the header: nothing else follows."""
    ps = text.parts(t)
    return not ps or isinstance(ps[-1], str) and ps[-1].endswith(('\0', '\n'))


def block_of(G, label, data=None):
    """The values of a field in all non-empty bins, x-major."""
    i, j = G.axes()
    a, b = atom(i[0]), atom(j[0])
    v = a if label == 'IX' else b if label == 'IY' else G.value('a', label, a, b)
    return mk('arr', ((i, j),), (('', v),), selected(G.value('a', 'M', a, b)))


def frozen(I, arr):
    return I.freeze(I.new_arr(arr))


def writer(c):
    G = Grid()
    I, corner, t, blocks, late, evs = written(c, G)
    where = c.loc(*W)
    mine = [e for e in I.trace if e.kind in ('write', 'tofile', 'savetxt', 'bufwrite')]
    if not outside(I) and not has_unknown(as_num(c.escapes(I))) and (not mine or not evs or t is not None and not blocks and isinstance(t, (T, str)) and total_text(t)):
        c.ob('header-text', where, False, 'no header is written' if not evs else 'no values are written', 'written@gmx')
        return
    if t is None or not isinstance(t, T) or not blocks:
        c.ob('header-text', where, None, 'the bytes written are not known')
        return
    c.ob('header-before-data', where, not late, 'the header is complete before the first block of values', 'header-before-data@gmx')
    end = text.find(t, '\0')
    total = text.length(t)
    if end is None:
        c.ob('header-ends-with-nul', where, None, '')
        return
    c.ob('header-ends-with-nul', where, sub(total, end) is ONE, 'the header ends at its only NUL', 'header-ends-with-nul@gmx')
    head = text.piece(t, ZERO, end) if const_value(end) != -1 else t
    lines = text.splitlines(head)
    if lines is None:
        c.ob('header-text', where, None, '')
        return
    found = {}
    for n, l in enumerate(lines):
        ws = text.words(l)
        if not ws:
            c.ob('header-line', where, False, 'empty header line %d (the reader takes the first word of every line)' % (n + 1), 'header-line@gmx')
            continue
        if isinstance(ws[0], str):
            found.setdefault(ws[0].upper(), []).append((n, ws[1:]))
    c.ob('format-line', where, found.get('FORMAT', [])[:1] == [(0, ['GMX_FLOW_1'])] or found.get('FORMAT', [])[:1] == [(0, ['GMX_FLOW_2'])],
         'the file starts with FORMAT GMX_FLOW_n', 'format-line@gmx')
    for key, kind, want in (('ORIGIN', 'float', corner), ('SHAPE', 'int', (G.nx, G.ny)), ('SPACING', 'float', (G.dx, G.dy))):
        k = 'header-%s@gmx' % key.lower()
        ls = found.get(key, [])
        if not ls:
            c.ob('header-values', where, False, 'no %s line' % key, k)
            continue
        ws = ls[-1][1]
        if len(ws) < 2:
            c.ob('header-values', where, False, '%s line has %d values' % (key, len(ws)), k)
            continue
        for x, w in zip(ws, want):
            v = text.number(x, kind)
            if v is None:
                c.ob('header-values', where, None, key)
            elif rounded(v):
                c.ob('header-values', where, False, '%s is written as %s: digits are lost' % (key, show_val(x)), k)
            else:
                c.same('header-values', where, v, w, what=key, key=k)
    fields = [w for n, w in found.get('FIELDS', [])]
    if len(fields) != 1 or not all(isinstance(w, str) for w in fields[0]):
        c.ob('fields-line', where, False if not fields else None, 'one FIELDS line', 'fields-line@gmx')
        return
    fields = fields[0]
    c.ob('fields-line', where, sorted(fields) == sorted(TYPES), 'FIELDS names ' + ' '.join(fields), 'fields-line@gmx')
    c.ob('one-block-per-field', where, len(blocks) == len(fields), '%d blocks for %d fields' % (len(blocks), len(fields)), 'one-block-per-field@gmx')
    for l, (e, arr, sep) in zip(fields, blocks):
        if l not in TYPES:
            continue
        if sep is not None:
            c.ob('binary-block', e, False, 'written as text', 'binary-block@gmx')
            continue
        got = frozen(I, arr)
        c.same('block-values', e, got, block_of(G, l), what='block ' + l, key='block-values@gmx.%s' % l)
        dt = arr.dtypes.get(None)
        c.ob('block-type', e, None if dt is None else dt == TYPES[l], 'block %s is %s, the format requires %s' % (l, dt, TYPES[l]), 'block-type@gmx.%s' % l)
    ns = [w for n, w in found.get('NUMDATA', [])]
    if not ns or not ns[-1]:
        c.ob('header-values', where, False, 'no NUMDATA line', 'header-numdata@gmx')
    else:
        v = text.number(ns[-1][0], 'int')
        if v is None:
            v = text.number(ns[-1][0], 'float')
        if v is None:
            c.ob('header-values', where, None, 'NUMDATA')
        else:
            c.same('header-values', where, v, numdata(G), what='NUMDATA', key='header-numdata@gmx')


def numdata(G):
    """Number of non-empty bins, as the engine counts the selected elements."""
    return size_of(block_of(G, 'IX'))


def size_of(frozen_arr):
    dims, fields, cond = frozen_arr.args
    return A.total_size(ArrVal(dims, {None: ONE}, cond))


# ------------------------------------------------------------------ reader

def header_text(G, fields, num, extra=True, case=str, origin=None):
    fmt = lambda v: mk('fmt', '%12f', v)
    dec = lambda v: mk('fmt', '%s', v)
    L = []
    L.append([case('FORMAT') + ' GMX_FLOW_1\n'])
    L.append([case('ORIGIN') + ' ', fmt(origin[0]), ' ', fmt(origin[1]), '\n'])
    L.append([case('SHAPE') + ' ', dec(G.nx), ' ', dec(G.ny), '\n'])
    L.append([case('SPACING') + ' ', fmt(G.dx), ' ', fmt(G.dy), '\n'])
    L.append([case('NUMDATA') + ' ', dec(num), '\n'])
    L.append([case('FIELDS') + ' ' + ' '.join(fields) + '\n'])
    if extra:
        L.append(["COMMENT Grid is regular but only non-empty bins are output\n"])
        L.append(["COMMENT 'FIELDS' is the different fields for each bin:\n"])
    return [p for l in L for p in l]


def expected(I, G, corner):
    i, j = G.axes()
    a, b = atom(i[0]), atom(j[0])
    dims = ((i, j),)
    M = G.value('a', 'M', a, b)
    out = {'X': add(corner[0], mul(G.dx, add(a, lit(H)))), 'Y': add(corner[1], mul(G.dy, add(b, lit(H))))}
    for l in VALUES:
        out[l] = mul(selected(M), G.value('a', l, a, b))
    return mk('dict', tuple((l, mk('arr', dims, (('', out[l]),), ONE), ONE) for l in FIELDS), None)


def lit(x):
    return scale(ONE, x)


def info_of(I, G, corner):
    d = I.new_dict()
    it = I.get(d).items
    it['shape'] = ((G.nx, G.ny), ONE)
    it['spacing'] = ((G.dx, G.dy), ONE)
    it['origin'] = (tuple(corner), ONE)
    it['num_bins'] = (mul(G.nx, G.ny), ONE)
    return I.freeze(d)


def reading(c, what, key, pieces, fields, G, corner, num, nuls, blocks=None, start=None):
    """Evaluate read_data on an abstract file and compare."""
    I = c.interp()
    f = c.fn(I, *R)
    path = S('path')
    if blocks is None:
        blocks = []
        for l in fields:
            i, j = G.axes()
            a, b = atom(i[0]), atom(j[0])
            v = a if l == 'IX' else b if l == 'IY' else G.value('a', l, a, b)
            blocks.append(ArrVal(((i, j),), {None: v}, selected(G.value('a', 'M', a, b)), {None: TYPES.get(l)}))
    I.contents[path] = text.Content([text.join(p) for p in pieces], blocks)
    I.trace = []
    r = c.call(I, f, [path])
    where = c.loc(*R)
    got = I.freeze(r)
    bl = [e for e in I.trace if e.kind == 'block']
    esc = c.escapes(I)
    if const_value(as_num(esc)) == 1 or (isinstance(r, T) and r.op == 'absent'):
        crash = [e for e in I.trace if e.kind in ('raise', 'crash')]
        c.ob('reads-the-format', crash[0] if crash else where, None if any(has_unknown(as_num(e.guard)) for e in crash) else False,
             '%s: reading fails with %s' % (what, crash[0].data.get('exc') if crash else 'an exception'), key)
        return
    if not isinstance(got, tuple) or len(got) != 2:
        c.ob('reads-the-format', where, None, what)
        return
    c.same('reads-the-format', where, got[0], expected(I, G, corner), what=what + ': data', key='data@' + key)
    c.same('reads-the-format', where, got[1], info_of(I, G, corner), what=what + ': info', key='info@' + key)
    if not bl:
        c.ob('block-position', where, None, what)
        return
    at = bl[0].data['at']
    if at is not None:
        c.same('block-position', bl[0], at, start, what=what + ': first value', key='position@' + key)
    else:
        c.ob('block-position', bl[0], None, what)
    for l, e in zip(fields, bl):
        dt = e.data['dtype']
        c.ob('block-type', e, None if dt is None else dt == TYPES[l], '%s: block %s is read as %s, the format requires %s' % (what, l, dt, TYPES[l]), 'type-%s@%s' % (l, key))
        if e.data['count'] in (None, -1) and l != fields[-1]:
            c.ob('block-count', e, False, '%s: the values of %s are read to the end of the file' % (what, l), 'count@' + key)
        elif e.data['count'] not in (None, -1) and isinstance(e.data['count'], T):
            c.same('block-count', e, e.data['count'], num, what=what + ': values of ' + l, key='count@' + key)


def splits(head):
    """The header is longer than one read: places where it is cut."""
    whole = head + ['\0']
    rest = [S('binary')]
    out = [('header in one read', [whole + rest])]
    lits = [k for k, p in enumerate(whole) if isinstance(p, str)]
    for k in lits:
        p = whole[k]
        cut = len(p)//2
        if cut:
            out.append(('header cut inside %r' % p.strip()[:12], [whole[:k] + [p[:cut]], [p[cut:]] + whole[k + 1:] + rest]))
    out.append(('header ends at the end of a read', [whole[:-1], ['\0'] + rest]))
    out.append(('header fills a read', [whole, rest]))
    out.append(('header over three reads', [whole[:5], whole[5:9], whole[9:] + rest]))
    return out


def reader(c):
    G = Grid()
    corner = (N('x_corner'), N('y_corner'))
    num = Z('numdata', nonneg=True)
    base = list(TYPES)
    head = header_text(G, base, num, origin=corner)
    start = text.length(text.join(head + ['\0']))
    cases = splits(head)
    if c.tier == 'quick':
        cases = cases[:1] + cases[-3:] + cases[1:-3][::3]
    for what, pieces in cases:
        reading(c, what, 'gmx.read', pieces, base, G, corner, num, 1, start=start)
    other = ['N', 'IY', 'V', 'M', 'IX', 'U', 'T']
    head = header_text(G, other, num, origin=corner)
    reading(c, 'fields in another order', 'gmx.read.order', [head + ['\0', S('binary')]], other, G, corner, num, 1, start=text.length(text.join(head + ['\0'])))
    head = header_text(G, base, num, origin=corner, extra=False)
    head = head[:1] + list(reversed_lines(head[1:]))
    reading(c, 'header lines in another order', 'gmx.read.lines', [head + ['\0', S('binary')]], base, G, corner, num, 1, start=text.length(text.join(head + ['\0'])))


def reversed_lines(ps):
    lines, cur = [], []
    for p in ps:
        cur.append(p)
        if isinstance(p, str) and p.endswith('\n'):
            lines.append(cur)
            cur = []
    return [p for l in reversed(lines) for p in l]


def roundtrip(c):
    """The reader applied to the output of the writer."""
    G = Grid()
    I, corner, t, blocks, late, evs = written(c, G)
    where = c.loc(*W)
    if t is None or not isinstance(t, T) or not blocks:
        c.ob('round-trip', where, None, 'the bytes written are not known')
        return
    end = text.find(t, '\0')
    if end is None or const_value(end) == -1:
        c.ob('round-trip', where, None, 'no end of the header')
        return
    head = text.piece(t, ZERO, end)
    fields = None
    for l in text.splitlines(head) or ():
        ws = text.words(l)
        if ws and ws[0] == 'FIELDS':
            fields = ws[1:]
    if fields is None or not set(fields) <= set(TYPES):
        c.ob('round-trip', where, None, 'no FIELDS line')
        return
    arrs = [b[1] for b in blocks]
    first = text.piece(t, ZERO, add(end, ONE))
    half = text.parts(head)
    k = len(half)//2
    for what, pieces in (('round trip', [text.parts(first) + [S('binary')]]),
                         ('round trip, long header', [half[:k], half[k:] + ['\0', S('binary')]])):
        reading(c, what, 'gmx.roundtrip', pieces, fields, G, corner, numdata(G), 1, blocks=arrs, start=add(end, ONE))


def truncated(c):
    """A header without its end is refused, not read forever."""
    G = Grid()
    I = c.interp()
    f = c.fn(I, *R)
    path = S('path')
    corner = (N('x_corner'), N('y_corner'))
    head = header_text(G, list(TYPES), Z('numdata'), origin=corner)
    I.contents[path] = text.Content([text.join(head), ''], [])
    I.trace = []
    r = c.call(I, f, [path], may_fail=True)
    esc = as_num(c.escapes(I))
    v = const_value(esc)
    c.ob('unterminated-header-refused', c.loc(*R), True if v == 1 else None if has_unknown(esc) or v is None else False,
         'a file which ends before the NUL is refused', 'unterminated-header-refused@gmx')


GROUPS = [writer, reader, roundtrip, truncated]
