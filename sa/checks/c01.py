"""Existing files: effect traces of every output function and of every command
that writes tables or data maps, over all inputs and all states of the file
system. Each operation that destroys the content of a file (opening for
writing, tofile, savetxt, deleting, copying or renaming onto it) must be
preceded, on every path where the file exists, by moving that very file to a
name shown to be free, or concern a file the same run made. A scan of the
syntax trees finds writing operations no analysed root reaches."""

import ast

from ..core import *
from ..inputs import *
from ..effects import *
from ..system import *

WRITE_CALLS = {'tofile', 'savetxt', 'to_csv', 'to_hdf', 'to_excel', 'to_json', 'to_pickle', 'save', 'savez', 'savez_compressed',
               'write_text', 'write_bytes', 'unlink', 'rmtree', 'remove', 'copyfile', 'copy', 'copy2', 'move', 'truncate', 'memmap', 'to_string'}
FILE_WRITERS = WRITE_CALLS - {'copy', 'remove', 'save', 'move', 'to_string'}


def exists(p):
    return pred('path_exists', canon_path(p) if isinstance(p, T) else p)


def same_path(a, b, g):
    if a is b:
        return True
    v, w = compare_values(assume(g, a), assume(g, b), g)
    return v == Verdict.EQUAL


def check_trace(c, I, name, seen):
    before = []
    for e in I.trace:
        p = e.data.get('path')
        if e.kind == 'rename':
            dst = canon_path(unroll_firsts(e.data['dst']))
            g = mul(e.guard, given_firsts(e.data['dst'], dst))
            r = mul(g, as_num(assume(g, path_exists_cases(dst))))
            src = mul(g, exists(e.data['src']))
            r = mul(r, as_num(assume(r, src)))
            ok = r is ZERO or not sat(r)
            if not ok and has_unknown(r):
                ok = None
            c.ob('moved-to-a-free-name', e, ok, '%s: %s' % (name, brief(dst)), 'moved-to-a-free-name@%s' % e.func)
            before.append(e)
        elif truncating(e):
            if not isinstance(p, (T, str)) or has_unknown(p) if isinstance(p, T) else not isinstance(p, str):
                c.ob('existing-file-kept', e, None, '%s: %s' % (name, brief(p)))
                before.append(e)
                continue
            cond = mul(e.guard, exists(p))
            v = covered(cond, before, lambda x: same_path(x.data['src'] if x.kind == 'rename' else x.data.get('path'), p, mul(x.guard, cond)))
            c.ob('existing-file-kept', e, v, '%s: %s of %s without moving the existing file away' % (name, e.kind, brief(p, 60)),
                 'existing-file-kept@%s' % e.func)
            before.append(e)
        elif e.kind == 'delete':
            v = covered(e.guard, [x for x in before if truncating(x)], lambda x: same_path(x.data.get('path'), p, mul(x.guard, e.guard)))
            c.ob('no-file-removed', e, v, '%s: %s is removed' % (name, brief(p, 60)), 'no-file-removed@%s' % e.func)
        elif e.kind == 'copyfile':
            d = e.data.get('dst')
            v = covered(mul(e.guard, exists(d)), before, lambda x: same_path(x.data['src'] if x.kind == 'rename' else x.data.get('path'), d, x.guard))
            c.ob('no-file-copied-over', e, v, '%s: copied onto %s' % (name, brief(d, 60)), 'no-file-copied-over@%s' % e.func)
        elif e.kind == 'ext':
            n = str(e.data.get('name', '')).split('.')[-1]
            if n in FILE_WRITERS:
                a = e.data.get('args') or ()
                p = a[0][1] if a and a[0][0] == 'lit' else None
                if isinstance(p, T) and p.op == 'file':
                    continue    # its opening is an event of its own
                v = None
                if isinstance(p, str) or isinstance(p, T) and p.op in ('sym', 'str', 'atom', 'app', 'ite') and not has_unknown(p):
                    cond = mul(e.guard, exists(p))
                    v = covered(cond, before, lambda x: same_path(x.data['src'] if x.kind == 'rename' else x.data.get('path'), p, mul(x.guard, cond)))
                c.ob('existing-file-kept', e, v, '%s: %s' % (name, e.data.get('name')), 'existing-file-kept@%s' % e.func)
        if e.kind in ('open', 'tofile', 'savetxt', 'ext', 'delete', 'copyfile', 'rename'):
            seen.add((e.module, getattr(e.node, 'lineno', None)))


def path_exists_cases(dst):
    """path_exists of a path with cases."""
    if isinstance(dst, T) and dst.op == 'ite':
        return ite(dst.args[0], path_exists_cases(dst.args[1]), path_exists_cases(dst.args[2]))
    if is_num(dst) and single_atom(dst) is None:
        ls = [l for l in literals(dst)]
        if ls:
            l = ls[0]
            return ite(atom(l), path_exists_cases(restrict(dst, l, 1)), path_exists_cases(restrict(dst, l, 0)))
    return pred('path_exists', dst)


SEEN = set()


def writers(c):
    for module, func, what, make in WRITERS:
        I = c.interp()
        try:
            f = c.fn(I, module, func)
        except Missing as e:
            c.missing.append(str(e))
            continue
        args, kw = make(I)
        I.trace = []
        c.call(I, f, args, kw)
        check_trace(c, I, '%s.%s' % (module, func), SEEN)


def dispatch(c):
    """write(path, ...) for every format."""
    for ftype in ('default', 'gmx', 'simple', 'simple_plain'):
        I = c.interp()
        f = c.fn(I, 'strata.dataformats.write', 'write')
        G = Grid()
        args = [S('path'), G.data(I, 'a'), G.info(I)]
        I.trace = []
        c.call(I, f, args, {'ftype': ftype})
        check_trace(c, I, 'write(ftype=%s)' % ftype, SEEN)


def commands(c):
    for name, cmd, opts in configurations():
        try:
            I, r = cmd.run(c, **opts)
        except Missing as e:
            c.missing.append(str(e))
            continue
        check_trace(c, I, name, SEEN)


def scan(c):
    """Writing operations no root reached."""
    for m in sorted(c.program.modules):
        if m.startswith('ref.'):
            continue
        mod_ = c.program.modules[m]
        for n in ast.walk(mod_.tree):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            writes = False
            if name == 'open' and not isinstance(f, ast.Attribute):
                mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                writes = mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set('wx+'))
            elif isinstance(f, ast.Attribute) and name in FILE_WRITERS:
                writes = True
            elif isinstance(f, ast.Attribute) and name in ('remove', 'move', 'replace', 'rename', 'copy') and isinstance(f.value, ast.Name) and f.value.id in ('os', 'shutil'):
                writes = True
            if writes:
                reached = (m, n.lineno) in SEEN
                c.ob('writing-operation-analysed', '%s:%s' % (m, n.lineno), True if reached else None, name)


GROUPS = [writers, dispatch, commands, scan]
