"""Preparation of output paths (strata.utils.prepare_path): the effect trace
of the decorator around an arbitrary function is compared with the reference
definitions ref.paths.prepare/backup for every path and every state of the
file system: backup name, when it is moved, directory creation, order of the
effects, arguments passed on; and every function which writes a table or a
data map at a path it is given runs these effects before its first write."""

from ..core import *
from ..inputs import *
from ..effects import *
from ..system import *
from .. import models

from .c01 import path_exists_cases

U = 'strata.utils'


def exists(p):
    return pred('path_exists', p)


def traced(c, opts, args=None):
    I = c.interp()
    deco = c.fn(I, U, 'prepare_path')
    wrapped = c.call(I, deco, [sym('func', kind='func')])
    I.trace = []
    path = sym('path', kind='str')
    r = c.call(I, wrapped, args(path) if args else [path, sym('a')], dict(opts))
    return I, path, r


def names(c):
    """The previous file is moved to the first free #name.K#, only if there
    is one, and nothing else is moved."""
    I, path, r = traced(c, {'opt': sym('opt'), '_pp_verbose': sym('verbose', kind='bool')})
    where = c.loc(U, 'prepare_path')
    J = c.interp()
    ref = c.ref(J, 'paths', 'backup')
    want = canon_path(J.freeze(c.call(J, ref, [path])))
    e0 = exists(path)
    moves = [e for e in I.trace if e.kind == 'rename']
    if not moves:
        opaque = [e for e in I.trace if e.kind == 'ext' and not str(e.data.get('name')).startswith('call of func')]
        c.ob('existing-file-moved', where, None if opaque else False, 'no file is moved', 'existing-file-moved@prepare_path')
        return
    cover = ZERO
    for e in moves:
        v, w = compare(e.data['src'], path, e.guard)
        c.ob('moves-the-conflicting-file', e, v, w, 'moves-the-conflicting-file@prepare_path')
        dst = canon_path(unroll_firsts(e.data['dst']))
        g = mul(e.guard, given_firsts(e.data['dst'], dst))
        r = mul(g, as_num(assume(g, path_exists_cases(dst))))
        r = mul(r, as_num(assume(r, mul(g, e0))))
        free = r is ZERO or not sat(r)
        c.ob('moved-to-a-free-name', e, True if free else None if has_unknown(r) else False, brief(dst), 'moved-to-a-free-name@prepare_path')
        g = mul(e.guard, e0)
        if g is not ZERO and sat(g):
            c.same('backup-name', e, assume(g, dst), assume(g, want), g, key='backup-name@prepare_path')
        cover = or_(cover, e.guard)
    v, w = compare(cover, e0)
    c.ob('moved-if-and-only-if-it-exists', where, v, w, 'moved-if-and-only-if-it-exists@prepare_path')


def directories(c):
    I, path, r = traced(c, {})
    where = c.loc(U, 'prepare_path')
    d = app('dirname', path)
    noname = eq_lit(d, '')
    need = mul(not_(noname), not_(exists(d)))
    made = [e for e in I.trace if e.kind == 'makedirs']

    def same(e):
        return compare_values(assume(mul(need, e.guard), e.data['path']), d, mul(need, e.guard))[0] == Verdict.EQUAL
    v = covered(need, made, same)
    if v is False and any(e.kind == 'ext' and not str(e.data.get('name')).startswith('call of func') for e in I.trace):
        v = None
    c.ob('missing-directory-made', where, v, 'the directory of the path is created when it does not exist', 'missing-directory-made@prepare_path')
    for e in made:
        g = mul(exists(d), not_(noname))
        g = mul(g, as_num(assume(g, e.guard)))
        k = e.data.get('kwargs')
        ok = not sat(g) if g is not ZERO else True
        if not ok and k is not None and 'exist_ok' in show_val(k):
            ok = True
        c.ob('existing-directory-left-alone', e, True if ok else None, 'makedirs of a directory which exists fails', 'existing-directory-left-alone@prepare_path')


def transparent(c):
    """func runs once, after the preparation, with the arguments given."""
    where = c.loc(U, 'prepare_path')
    for opts in ({}, {'opt': sym('opt')}, {'opt': sym('opt'), '_pp_verbose': False}):
        I, path, r = traced(c, opts)
        calls = [e for e in I.trace if e.kind == 'ext' and e.data.get('name') == 'call of func']
        v, w = compare(sum_guards(calls), ONE)
        c.ob('called-once', where, v if calls else False, w or 'the function is called', 'called-once@prepare_path')
        for e in calls:
            a = e.data['args']
            want = (('lit', path), ('lit', sym('a')))
            c.ob('arguments-passed-on', e, a == want if a == want or len(a) != len(want) else compare_values(tuple(x[1] for x in a), tuple(x[1] for x in want))[0], brief(a), 'arguments-passed-on@prepare_path')
            kw = e.data['kwargs']
            J = I
            given = {k: (v, ONE) for k, v in opts.items() if k != '_pp_verbose'}
            d = I.new_dict()
            I.get(d).items.update(given)
            c.ob('keywords-passed-on', e, *same_kwargs(kw, given), key='keywords-passed-on@prepare_path')
            for x in I.trace:
                if x.kind in ('rename', 'makedirs', 'copyfile', 'delete'):
                    c.ob('prepared-before-the-call', x, I.trace.index(x) < I.trace.index(e), x.kind, 'prepared-before-the-call@prepare_path')
        if calls:
            fr = I.freeze(r)
            ok = isinstance(fr, T) and str(fr.args[0] if fr.args else '').find('call of func') >= 0 or 'call of func' in show_val(fr)
            c.ob('value-passed-back', where, True if ok else (False if fr is None else None), brief(fr), 'value-passed-back@prepare_path')


def sum_guards(es):
    r = ZERO
    for e in es:
        r = add(r, e.guard)
    return r


def same_kwargs(kw, given):
    items = kw if isinstance(kw, dict) else None
    if items is None:
        return None, ''
    if set(items) != set(given):
        return False, 'keywords %s where %s are given' % (sorted(map(str, items)), sorted(given))
    for k in items:
        v = items[k][0] if isinstance(items[k], tuple) else items[k]
        d = compare_values(v, given[k][0])
        if d[0] != Verdict.EQUAL:
            return d[0], d[1]
    return True, ''


def verbosity(c):
    """A backup is reported unless that is turned off."""
    where = c.loc(U, 'prepare_path')
    for opts, expect in (({}, True), ({'_pp_verbose': False}, False), ({'_pp_verbose': True}, True)):
        I, path, r = traced(c, opts)
        said = [e for e in I.trace if e.kind in ('print', 'stdwrite')]
        g = sum_guards(said)
        if expect:
            v, w = compare(g, exists(path)) if said else (False, 'nothing is printed')
            c.ob('backup-is-reported', where, v, w, 'backup-is-reported@prepare_path')
        else:
            c.ob('quiet-when-asked', where, g is ZERO or not sat(g), brief(g), 'quiet-when-asked@prepare_path')


def writers(c):
    """Every writer prepares its path before it touches it."""
    for module, func, what, make in WRITERS:
        I = c.interp()
        try:
            f = c.fn(I, module, func)
        except Missing as e:
            c.missing.append(str(e))
            continue
        args, kw = make(I)
        I.trace = []
        c.call(I, f, args, kw)
        path = args[0]
        where = c.loc(module, func)
        first = None
        for n, e in enumerate(I.trace):
            if e.kind == 'open' and e.data.get('path') is path or truncating(e) and e.data.get('path') is path:
                first = n
                break
        if first is None:
            c.ob('writer-prepares-its-path', where, None, '%s: no write found' % what)
            continue
        e0 = exists(path)
        moved = [e for e in I.trace[:first] if e.kind == 'rename']
        v = covered(mul(I.trace[first].guard, e0), moved, lambda e: e.data['src'] is path or compare(e.data['src'], path, mul(e.guard, e0))[0] == Verdict.EQUAL)
        c.ob('writer-prepares-its-path', I.trace[first], v, '%s: an existing file is moved away before it is opened' % what, 'writer-prepares-its-path@%s.%s' % (module, func))
        d = app('dirname', path)
        made = [e for e in I.trace[:first] if e.kind == 'makedirs']
        need = mul(mul(I.trace[first].guard, not_(eq_lit(d, ''))), not_(exists(d)))
        v = covered(need, made, lambda e: compare_values(assume(mul(need, e.guard), e.data['path']), d, mul(need, e.guard))[0] == Verdict.EQUAL)
        c.ob('writer-makes-its-directory', I.trace[first], v, '%s: the directory is made before the file is opened' % what, 'writer-makes-its-directory@%s.%s' % (module, func))


PLACES = (
    # files there, path, directory to make, backup
    ({'.'}, 'out.dat', None, None),
    ({'.', 'out.dat'}, 'out.dat', None, '#out.dat.1#'),
    ({'.', 'out.dat', '#out.dat.1#', '#out.dat.2#'}, 'out.dat', None, '#out.dat.3#'),
    ({'.', 'out.dat', '#out.dat.2#'}, 'out.dat', None, '#out.dat.1#'),
    ({'.', '#out.dat.1#'}, 'out.dat', None, None),
    ({'.', 'out'}, 'out', None, '#out.1#'),
    ({'.', 'd'}, 'd/out.dat', None, None),
    ({'.', 'd', 'd/out.dat', 'out.dat'}, 'd/out.dat', None, 'd/#out.dat.1#'),
    ({'.', 'd', 'd/out.dat', '#out.dat.1#', 'd/#out.dat.1#'}, './d/out.dat', None, 'd/#out.dat.2#'),
    ({'.', 'out.dat'}, 'd/out.dat', 'd', None),
    ({'.'}, 'd/e/out.dat', 'd/e', None),
    ({'.', 'd'}, 'd/e/f/out.dat', 'd/e/f', None),
    ({'/', '/d', '/d/out.dat'}, '/d/out.dat', None, '/d/#out.dat.1#'),
)


def known(c):
    """The same in directories of known files."""
    where = c.loc(U, 'prepare_path')
    norm = models.plain
    for files, path, directory, backup in PLACES:
        I = c.interp()
        I.files = set(files)
        deco = c.fn(I, U, 'prepare_path')
        wrapped = c.call(I, deco, [sym('func', kind='func')])
        I.trace = []
        c.call(I, wrapped, [path, sym('a')])
        what = '%s with %s' % (path, ', '.join(sorted(files)))
        ev = [e for e in I.trace if e.kind in ('makedirs', 'rename', 'delete', 'copyfile')]
        if any(e.guard is not ONE or e.loops or not all(isinstance(e.data.get(k), (str, type(None))) for k in ('path', 'src', 'dst')) for e in ev) or \
                any(not str(e.data.get('name')).startswith('call of func') for e in outside(I)):
            c.ob('known-files', where, None, what)
            continue
        have = set(files)
        made = [e for e in ev if e.kind == 'makedirs']
        for e in made:
            p, opts = e.data['path'], e.data['kwargs']
            ok = bool(p) and (norm(p) not in have or opts.get('exist_ok') in (ONE, True))
            c.ob('existing-directory-left-alone', e, ok, '%s: %r is made' % (what, p), 'existing-directory-left-alone@prepare_path')
            if e.data['name'] == 'os.mkdir':
                up = models.plain(p.rpartition('/')[0] or '.')
                c.ob('missing-directory-made', e, up in have, '%s: %r cannot be made without %r' % (what, p, up), 'missing-directory-made@prepare_path')
            have.add(norm(p) if p else p)
        if directory is not None:
            c.ob('missing-directory-made', where, directory in {norm(e.data['path']) for e in made if e.data['path']}, '%s: %s is made' % (what, directory), 'missing-directory-made@prepare_path')
        moved = [(norm(e.data['src']), norm(e.data['dst'])) for e in ev if e.kind == 'rename']
        want = [(norm(path), backup)] if backup else []
        c.ob('backup-name', where, moved == want and not [e for e in ev if e.kind == 'delete'], '%s: moved are %s, expected %s' % (what, moved, want), 'backup-name@prepare_path')


GROUPS = [known, names, directories, transparent, verbosity, writers]
