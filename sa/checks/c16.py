"""Enumeration and numbering of data map files: the sequences yielded by
strata.utils (file names, existing singles, complete groups, output names) are
put into normal form by the generator/loop summaries and compared with the
reference definitions (ref.files) for every base, number range, extension and
every state of the file system."""

from ..core import *
from ..effects import outside

U = 'strata.utils'


def _opts(end=True):
    base = sym('base', kind='str')
    b = atom(sym('b', kind='num', int=True))
    e = atom(sym('e', kind='num', int=True)) if end else INF
    x = sym('x', kind='str')
    return base, b, e, x


def compare(c, rule, target, kw, refname, refargs, args=(), what=''):
    res = []
    I = c.interp()
    f = c.fn(I, U, target)
    r = c.call(I, f, list(args), kw)
    got = I.freeze(r)
    J = c.interp()
    g = c.fn(J, 'ref.files', refname)
    want = J.freeze(c.call(J, g, refargs))
    c.same(rule, c.loc(U, target), got, want, what=what, key='%s@%s' % (rule, target))


def names(c):
    base, b, e, x = _opts()
    compare(c, 'file-name', 'gen_filenames', {'begin': b, 'end': e, 'ext': x}, 'file_names', [base, b, e, x], [base])
    compare(c, 'file-name', 'gen_filenames', {'end': e}, 'file_names', [base, ONE, e, '.dat'], [base], 'defaults')


def singles(c):
    base, b, e, x = _opts()
    compare(c, 'singles-in-order-to-first-gap', 'find_datamap_files', {'begin': b, 'end': e, 'ext': x}, 'singles', [base, b, e, x], [base])
    compare(c, 'singles-in-order-to-first-gap', 'find_datamap_files', {'begin': b, 'ext': x}, 'singles', [base, b, INF, x], [base], 'no end')
    compare(c, 'singles-in-order-to-first-gap', 'find_datamap_files', {}, 'singles', [base, ONE, INF, '.dat'], [base], 'defaults')


def groups(c):
    base, b, e, x = _opts()
    for n in (1, 2, 3) + ((4,) if c.tier == 'thorough' else ()):
        g = num(n)
        for roll in (False, True):
            compare(c, 'complete-groups', 'find_datamap_files', {'begin': b, 'end': e, 'ext': x, 'group': g, 'rolling': roll},
                    'groups', [base, b, e, x, g, ONE if roll else g], [base], 'group %d rolling %s' % (n, roll))
    compare(c, 'complete-groups', 'find_datamap_files', {'begin': b, 'ext': x, 'group': num(2)},
            'groups', [base, b, INF, x, num(2), num(2)], [base], 'no end')


def outputs(c):
    base, b, e, x = _opts()
    out = sym('out', kind='str')
    y = sym('y', kind='str')
    compare(c, 'single-output-number', 'find_singles_to_singles', {'begin': b, 'end': e, 'ext': x, 'outext': y}, 'singles_to_singles',
            [base, out, b, e, x, y], [base, out])
    compare(c, 'single-output-number', 'find_singles_to_singles', {'begin': b, 'end': e, 'ext': x}, 'singles_to_singles',
            [base, out, b, e, x, x], [base, out], 'outext defaults to ext')
    compare(c, 'single-output-number', 'find_singles_to_singles', {'begin': b, 'end': e}, 'singles_to_singles',
            [base, out, b, e, '.dat', '.dat'], [base, out], 'default extension')
    for n in (1, 2, 3):
        g = num(n)
        for roll in (False, True):
            compare(c, 'group-output-number', 'find_groups_to_singles', {'begin': b, 'end': e, 'ext': x, 'outext': y, 'group': g, 'rolling': roll},
                    'groups_to_singles', [base, out, b, e, x, y, g, roll], [base, out], 'group %d rolling %s' % (n, roll))
    compare(c, 'group-output-number', 'find_groups_to_singles', {'group': num(2)},
            'groups_to_singles', [base, out, ONE, INF, '.dat', '.dat', num(2), False], [base, out], 'defaults')


def directories(quick):
    """Sets of files which exist, by number."""
    yield (1, 2, 3, 4, 5)
    yield (2, 3, 4, 6, 7)
    yield (1, 3, 4, 5, 6)
    yield ()
    if not quick:
        yield (3, 4, 5, 6, 7, 8, 9)
        yield (99998, 99999, 100000, 100001)


def known(c):
    """The same sequences in directories of known files."""
    quick = c.tier == 'quick'
    for have in directories(quick):
        files = {'in/m%05d.dat' % n for n in have}
        first = have[0] if have else 1
        for begin in sorted({1, first, first + 1}):
            for end in sorted({(have or (1,))[-1] + 3, first + 3} | (set() if quick else {first, first + 1, first + 2})):
                kw = {'begin': num(begin), 'end': num(end)}
                e = num(end)
                what = 'files %s, begin %d, end %s' % (', '.join(map(str, have)) or 'none', begin, end)
                scenario(c, 'singles-in-order-to-first-gap', 'find_datamap_files', files, kw, 'singles', ['in/m', num(begin), e, '.dat'], ['in/m'], what)
                scenario(c, 'single-output-number', 'find_singles_to_singles', files, kw, 'singles_to_singles',
                         ['in/m', 'out/n', num(begin), e, '.dat', '.dat'], ['in/m', 'out/n'], what)
                for g in (1, 2, 3):
                    for roll in (False, True):
                        k = dict(kw, group=num(g), rolling=roll)
                        w = '%s, group %d%s' % (what, g, ', rolling' if roll else '')
                        scenario(c, 'complete-groups', 'find_datamap_files', files, k, 'groups',
                                 ['in/m', num(begin), e, '.dat', num(g), num(1 if roll else g)], ['in/m'], w)
                        scenario(c, 'group-output-number', 'find_groups_to_singles', files, k, 'groups_to_singles',
                                 ['in/m', 'out/n', num(begin), e, '.dat', '.dat', num(g), roll], ['in/m', 'out/n'], w)


def scenario(c, rule, target, files, kw, refname, refargs, args, what):
    I = c.interp()
    I.files = files
    f = c.fn(I, U, target)
    got = I.freeze(c.call(I, f, list(args), kw))
    if refname == 'singles' and not outside(I):
        said = [e for e in I.trace if e.kind == 'warn' and e.guard is ONE]
        none = refargs[0] + '%05d' % int(const_value(refargs[1])) + refargs[3] not in files
        if none or not any(has_unknown(as_num(e.guard)) for e in I.trace if e.kind == 'warn'):
            c.ob('nothing-found-is-reported', c.loc(U, target), bool(said) if none else not said, what, 'nothing-found-is-reported@' + target)
    J = c.interp()
    J.files = files
    g = c.fn(J, 'ref.files', refname)
    want = J.freeze(c.call(J, g, refargs))
    c.same(rule, c.loc(U, target), got, want, what=what, key='%s@%s' % (rule, target))


GROUPS = [known, names, singles, groups, outputs]
