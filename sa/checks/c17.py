"""The command line: every command of strata.strata is taken from its
decorators (names, types, defaults, number of values) and compared with the
reference table ref.commands.TABLE; every callback is evaluated with a fresh
symbol for each of its options and the call it makes of the analysis function
is captured and compared with the one which is required: each option arrives
unchanged under its keyword, except for the translations listed in REQUIRED.
Keywords which are passed must be known to the function or to the functions
which it calls (closure over the syntax tree)."""

import ast
import os
from ..core import *
from ..effects import outside
from ..refs.commands import TABLE

CLI = 'strata.strata'


# --- declarations ---------------------------------------------------------

def _name(I, t):
    """Name and parent of a command or group."""
    fv = t.args[0]
    for k, a, kw in fv.cli:
        if k in ('command', 'group'):
            name = kw.get('name', a[0] if a else None)
            return (I.freeze(name) if name is not None else fv.name.lower().replace('_', '-')), kw.get('#parent'), k
    return None, None, None


def command_path(I, t):
    name, parent, k = _name(I, t)
    if parent is None or not isinstance(name, str):
        return ''
    up = command_path(I, parent)
    return (up + ' ' + name).strip()


def commands(I):
    """Leaf commands by path."""
    out = {}
    for t in getattr(I, 'cli_funcs', []):
        p = command_path(I, t)
        if p and _name(I, t)[2] == 'command':
            out[p] = t
    return out


def destination(names):
    """Name of the parameter which click passes to the callback."""
    plain = [n for n in names if n.isidentifier()]
    if plain:
        return plain[-1]
    flags = []
    for n in names:
        first = n.split('/', 1)[0].strip() if not n.startswith('/') else n
        pre = len(first) - len(first.lstrip('-'))
        flags.append((pre, first))
    flags.sort(key=lambda x: -min(x[0], 2))
    return flags[0][1].lstrip('-').replace('-', '_').lower()


def _literals(fv):
    """Literal value of `default` by the names of an option, from the syntax."""
    out = {}
    for d in getattr(fv.node, 'decorator_list', []):
        if isinstance(d, ast.Call):
            names = tuple(a.value for a in d.args if isinstance(a, ast.Constant))
            for k in d.keywords:
                if k.arg == 'default':
                    out[names] = k.value
    return out


def type_text(I, names, kw, lits):
    """Type of the values of an option as text, None if it is not known."""
    ty = kw.get('type')
    if kw.get('is_flag') is not None:
        v = I.freeze(kw['is_flag'])
        if v is True or v == ONE:
            return 'flag'
    if any('/' in n for n in names) and ty is None:
        return 'flag'
    if ty is None:
        if 'default' not in kw:
            return 'str'
        d = I.freeze(kw['default'])
        if d is None or isinstance(d, str):
            return 'str'
        n = lits.get(tuple(names))
        if isinstance(n, ast.UnaryOp):
            n = n.operand
        if isinstance(n, ast.Constant):
            return type(n.value).__name__
        return None
    f = I.freeze(ty)
    if isinstance(f, T) and f.op == 'ext':
        return str(f.args[0]).split('.')[-1].replace('>', '')
    if isinstance(f, T) and f.op == 'inst':
        return str(f.args[0]).split('.')[-1]
    if isinstance(f, T) and f.op == 'clicktype':
        name, a, k = f.args
        if name == 'Choice':
            seg = a[0].args[0] if a and isinstance(a[0], T) and a[0].op == 'list' else None
            items = [s[1] for s in seg] if seg is not None else list(a[0]) if a and isinstance(a[0], tuple) else None
            if items is None or not all(isinstance(x, str) for x in items):
                return None
            return 'Choice(%s)' % ','.join(sorted(items))
        if name == 'IntRange':
            b = list(a) + [None] * (2 - len(a))
            d = dict(k)
            lo, hi = d.get('min', b[0]), d.get('max', b[1])
            return 'IntRange(%s,%s)' % (show_val(lo), show_val(hi))
        if name == 'Path':
            return 'Path(%s)' % ('exists' if dict(k).get('exists') in (True, ONE) else '')
        return name
    return None


class Param:
    def __init__(self, kind, names, dest, ty, nargs, default, hidden=False):
        self.kind, self.names, self.dest, self.ty, self.nargs, self.default, self.hidden = kind, names, dest, ty, nargs, default, hidden

    def line(self):
        return '%s %s > %s : %s *%s = %s' % (self.kind, ' '.join(self.names), self.dest, self.ty, self.nargs, self.default)


def parameters(I, t):
    """Declared parameters of a command."""
    out = []
    fv = t.args[0]
    lits = _literals(fv)
    for k, a, kw in reversed(fv.cli):
        if k not in ('option', 'argument'):
            continue
        names = [I.freeze(x) for x in a]
        if not all(isinstance(n, str) for n in names):
            raise Missing('name of an option of %s is not known' % fv.qual)
        if 'expose_value' in kw and I.freeze(kw['expose_value']) not in (True, ONE):
            continue
        ty = type_text(I, names, kw, lits)
        nargs = I.freeze(kw.get('nargs', ONE))
        nargs = show_val(nargs)
        d = kw.get('default', 'none')
        if 'default' in kw:
            d = I.freeze(d)
            if isinstance(d, T) and d.op == 'list':
                d = tuple(s[1] for s in d.args[0])
            if ty == 'flag':
                d = 'False' if d in (False, ZERO, None) else 'True'
            else:
                d = repr(d) if isinstance(d, str) else show_val(d)
        else:
            d = 'False' if ty == 'flag' else 'None'
        out.append(Param(k, names, destination(names), ty, nargs, d))
    return out


# --- what is required of the calls ----------------------------------------

def _end(cases):
    """Every case with a final number and one without."""
    return cases + [('no end', {'end': None}, {'end': INF})]


# command -> library function, positional arguments, options which are not
# passed on, cases (name, given values, required keywords)
REQUIRED = {
    'average': ('strata.average.average', ['base', 'output', 'group'], [], {}, _end(
        [('recenter ' + x, {'recenter': x}, {'recenter': x if x != 'none' else None}) for x in ('none', 'left', 'right', 'com')])),
    'convert': ('strata.convert.convert', ['base', 'output'], [], {}, _end([('', {}, {})])),
    'spreading collect': ('strata.spreading.collect.collect', ['base'], ['nooutput', 'verbose'], {}, _end(
        [('', {}, {}), ('no output', {'nooutput': True}, {'save': None})])),
    'spreading view': ('strata.spreading.view.view_spreading', ['files'], [], {}, [('', {}, {})]),
    'spreading fit': ('strata.spreading.fit.fit_spreading_data', ['files'], ['print'], {}, [('', {}, {})]),
    'interface collect': ('strata.interface.collect.collect_interfaces', ['base', 'output'], [], {}, _end(
        [('recenter ' + x, {'recenter': x}, {'recenter': x if x != 'off' else None}) for x in ('off', 'com', 'zero')])),
    'interface view': ('strata.interface.view.view_interfaces', ['base'], [], {}, _end([('', {}, {})])),
    'interface sample': ('strata.interface.sample.sample_interfaces', ['base', 'variable'], [], {}, [
        ('area', {'variable': 'area', 'ylabel': None}, {'ylabel': 'A (nm^2)'}),
        ('length', {'variable': 'length', 'ylabel': None}, {'ylabel': 'L (nm)'}),
        ('area with label', {'variable': 'area', 'ylabel': 'size'}, {'ylabel': 'size'}),
        ('length with label', {'variable': 'length', 'ylabel': 'size'}, {'ylabel': 'size'}),
        ('no end', {'end': None, 'ylabel': None}, {'end': INF, 'ylabel': 'A (nm^2)'})]),
    'interface angle': ('strata.interface.angle.interface_contact_angle', ['base'], [], {}, _end(
        [('fit', {'fit': True, 'height': None}, {}), ('height', {'fit': False, 'height': num('3/2')}, {}), ('both', {'fit': True, 'height': num('3/2')}, {})])),
    'contact_line collect': ('strata.contact_line_analysis.extract_contact_line_bins', ['base', 'output'], [], {}, _end([('', {}, {})])),
    'contact_line sample': ('strata.contact_line_analysis.sample_contact_line_edges', ['base', 'labels'], ['process'], {}, _end(
        [('mean', {'process': 'mean'}, {'sum': False}), ('sum', {'process': 'sum'}, {'sum': True})])),
    'view contour': ('strata.view_flowmap.view_flowmap_2d', ['*files'], [], {'type': 'contour'}, [('', {}, {})]),
    'view height': ('strata.view_flowmap.view_flowmap_2d', ['*files'], ['drawaxes'], {'type': 'height'}, [
        ('axes', {'drawaxes': True, 'noaxis': False, 'cutoff_label': 'M'}, {'noaxis': False}),
        ('nodrawaxes', {'drawaxes': False, 'noaxis': False, 'cutoff_label': 'U'}, {'noaxis': True}),
        ('noaxis', {'drawaxes': True, 'noaxis': True, 'cutoff_label': 'None'}, {'noaxis': True, 'cutoff_label': None}),
        ('no cutoff label', {'drawaxes': True, 'noaxis': False, 'cutoff_label': None}, {'noaxis': False, 'cutoff_label': None})]),
    'view flow': ('strata.view_flowmap.view_flowfields', ['*files'], [], {'cutoff_label': 'M'}, [
        ('coloured', {'colour': 'T'}, {}), ('no colour', {'colour': 'None'}, {'colour': None})]),
    'sample': ('strata.sample_average.sample_average_files', ['base', 'labels'], ['process'], {}, _end(
        [('mean', {'process': 'mean'}, {'sum': False}), ('sum', {'process': 'sum'}, {'sum': True})])),
}

DROPPED = {'verbose': False, 'nooutput': False, 'print': False, 'process': 'mean', 'drawaxes': True}
SAFE = {'recenter': 'com', 'variable': 'area', 'fit': True, 'cutoff_label': 'M', 'noaxis': False, 'colour': 'T'}


def symbol(p):
    """A fresh value of an option."""
    n = 'o_' + p.dest
    t = p.ty or ''
    if p.nargs == '-1':
        return (sym(n + '1', kind='str'), sym(n + '2', kind='str'))
    if t == 'flag':
        return pred('given', p.dest)
    if t.startswith('Choice') or t == 'str' or t.startswith('Path'):
        return sym(n, kind='str')
    if t.startswith('List'):
        return sym(n)
    if p.nargs not in ('1', '0'):
        return tuple(atom(sym('%s%d' % (n, i), kind='num')) for i in range(int(p.nargs)))
    return atom(sym(n, kind='num', int=t.startswith('Int') or t == 'int'))


class Run:
    def __init__(self, c, path, given, rows=True):
        """Evaluate the callback of a command; given: values by option."""
        self.I = I = c.everything()
        cs = commands(I)
        if path not in cs:
            raise Missing('command %s' % path)
        t = cs[path]
        self.fv = t.args[0]
        self.params = parameters(I, t)
        self.values = {}
        for p in self.params:
            self.values[p.dest] = given[p.dest] if p.dest in given else symbol(p)
        lib = REQUIRED[path][0] if path in REQUIRED else None
        self.calls = []
        self.rows = ((atom(sym('t1', kind='num')), atom(sym('r1', kind='num'))), (atom(sym('t2', kind='num')), atom(sym('r2', kind='num'))))
        mod, name = lib.rsplit('.', 1)
        target = c.fn(I, mod, name)
        tf = target.args[0]
        self.target = tf

        def hook(J, fv, args, kw, node):
            if fv is not tf:
                return NotImplemented
            names = [a.arg for a in fv.node.args.args] if hasattr(fv.node, 'args') else []
            d = {}
            for i, a in enumerate(args):
                d['*%d' % i] = J.freeze(a[1]) if a[0] == 'lit' else a
            for k, (v, g) in kw.items.items():
                if k in names and names.index(k) >= len(args):
                    d['*%d' % names.index(k)] = J.freeze(v)
                d[k] = J.freeze(v)
            for i, a in enumerate(args):
                if i < len(names):
                    d.setdefault(names[i], d['*%d' % i])
            conds = {k: g for k, (v, g) in kw.items.items()}
            J.emit('captured', node, call=lib, args=d, conds=conds, rest=kw.rest)
            return self.rows
        I.hooks[tf.qual] = hook
        I.trace = []
        kw = {p.dest: self.values[p.dest] for p in self.params}
        self.result = c.call(I, t, [], kw)
        self.calls = [e for e in I.trace if e.kind == 'captured' and sat(e.guard)]
        self.loc = '%s:%s %s' % (c.program.modules[CLI].rel, self.fv.node.lineno, self.fv.name)


def mentions(x, v, depth=0):
    """Does a frozen value contain another one?"""
    if x is v or (type(x) is type(v) and x == v):
        return True
    if isinstance(x, T):
        return any(mentions(y, v) for y in x.args)
    if isinstance(x, (tuple, list)):
        return any(mentions(y, v) for y in x)
    if isinstance(x, dict):
        return any(mentions(y, v) for y in x.values())
    args = getattr(x, '__dict__', None)
    return False


def declared(c):
    """Options of the commands: names, types, number of values, defaults."""
    I = c.everything()
    cs = commands(I)
    for path, text in TABLE.items():
        if path not in cs:
            c.ob('command-exists', CLI, False, 'no command "%s"' % path, 'command-exists@' + path)
            continue
        t = cs[path]
        loc = c.loc(CLI, t.args[0].name)
        c.ob('command-exists', loc, True, path, 'command-exists@' + path)
        have = parameters(I, t)
        want = []
        for line in text.split('\n'):
            line = line.strip()
            if line:
                head, tail = line.split(' > ')
                kind, names = head.split(' ')[0], head.split(' ')[1:]
                dest, tail = tail.split(' : ')
                ty, tail = tail.split(' *')
                n, d = tail.split(' = ')
                want.append(Param(kind, names, dest, ty, n, d))
        a = [p.dest for p in have if p.kind == 'argument']
        b = [p.dest for p in want if p.kind == 'argument']
        c.ob('arguments-in-order', loc, a == b, '%s: arguments %s, required %s' % (path, a, b), 'arguments-in-order@' + path)
        seen = {}
        for p in have:
            for n in p.names:
                for f in n.split('/'):
                    if f.startswith('-'):
                        if f in seen:
                            c.ob('flags-are-distinct', loc, False, '%s: %s sets both %s and %s' % (path, f, seen[f], p.dest), 'flags@%s %s' % (path, f))
                        seen[f] = p.dest
        for w in want:
            key = '%s %s' % (path, w.dest)
            flags = [f for n in w.names for f in n.split('/') if f.startswith('-')]
            got = [p for p in have if p.kind == w.kind and (w.kind == 'argument' and p.dest == w.dest
                   or w.kind == 'option' and any(f in n.split('/') for f in flags for n in p.names))]
            if not got:
                c.ob('option-exists', loc, False, '%s: no %s %s' % (path, w.kind, ' '.join(w.names)), 'option-exists@' + key)
                continue
            p = got[0]
            have_flags = [f for n in p.names for f in n.split('/')]
            missing = [f for f in flags if f not in have_flags]
            both = [n for n in w.names if '/' in n]
            order = not both or any(n.split('/')[0] in [x.split('/')[0] for x in both] for n in p.names if '/' in n)
            c.ob('option-exists', loc, not missing and order, '%s: %s' % (key, 'flags %s' % ' '.join(p.names) if not missing and order else
                 '%s not accepted, or meaning of yes and no exchanged' % ' '.join(missing or both)), 'option-exists@' + key)
            ok = True if p.ty == w.ty and p.nargs == w.nargs else None if p.ty is None else False
            if ok is False and p.nargs == w.nargs and 'ParamType' in p.ty:
                ok = None               # a type of its own
            c.ob('option-type', loc, ok, '%s: values %s x %s, required %s x %s' % (key, p.ty, p.nargs, w.ty, w.nargs), 'option-type@' + key)
            if w.dest not in ('title', 'xlabel', 'ylabel'):
                c.ob('documented-default', loc, p.default == w.default, '%s: default %s, documented %s' % (key, p.default, w.default), 'documented-default@' + key)


def passed_on(c):
    """The call which each command makes."""
    for path, (lib, pos, drop, fixed, cases) in REQUIRED.items():
        for what, given, extra in cases:
            g = {k: v for k, v in SAFE.items()}
            g.update(DROPPED)
            g.update(given)
            key = '%s %s' % (path, what)
            try:
                R = Run(c, path, g)
            except Missing as e:
                c.ob('calls-the-analysis', CLI, None, '%s: %s' % (key, e), 'calls-the-analysis@' + key)
                continue
            if len(R.calls) != 1 or R.calls[0].loops:
                bad = not R.calls and not outside(R.I)
                c.ob('calls-the-analysis', R.loc, False if bad else None, '%s: %s is called %d times' % (key, lib, len(R.calls)), 'calls-the-analysis@' + key)
                continue
            e = R.calls[0]
            c.ob('calls-the-analysis', R.loc, True if e.guard in (True, ONE) else False, '%s: %s called if %s' % (key, lib, show_val(e.guard)[:100]), 'calls-the-analysis@' + key)
            d = e.data['args']
            i = 0
            for p in pos:
                vals = R.values[p.lstrip('*')] if p.startswith('*') else (R.values[p],)
                for v in vals:
                    k = '*%d' % i
                    if k in d:
                        c.same('argument-passed-on', R.loc, d[k], v, what='%s: %s' % (key, p), key='argument-passed-on@%s %s' % (key, p))
                    else:
                        c.ob('argument-passed-on', R.loc, False, '%s: %s is not passed' % (key, p), 'argument-passed-on@%s %s' % (key, p))
                    i += 1
            want = dict(fixed)
            plain = [p.lstrip('*') for p in pos]
            for q in R.params:
                if q.dest not in plain and q.dest not in drop:
                    want[q.dest] = R.values[q.dest]
            for k, v in extra.items():
                want[k] = v
            table = set(x.split(' > ')[1].split(' : ')[0] for x in TABLE[path].split('\n') if x.strip())
            for k, v in want.items():
                kk = 'option-passed-on@%s %s' % (key, k)
                if k in d and (k not in e.data['conds'] or e.data['conds'][k] in (True, ONE)):
                    if k in table or k in fixed or k in extra:
                        c.same('option-passed-on', R.loc, d[k], v, what='%s: %s' % (key, k), key=kk)
                    else:
                        new_option(c, R, path, k, d, key)
                elif k in table or k in fixed or k in extra:
                    c.ob('option-passed-on', R.loc, None if e.data.get('rest') is not None or k in d else False, '%s: %s is not passed to %s' % (key, k, lib), kk)
                else:
                    new_option(c, R, path, k, d, key)


def new_option(c, R, path, k, d, key):
    """An option which is not in the table has to be used somehow."""
    v = R.values[k]
    used = mentions(d, v) or any(mentions(list(e.data.values()), v) or mentions(e.guard, v) for e in R.I.trace)
    c.ob('option-takes-effect', R.loc, True if used else None, '%s: %s %s' % (key, k, 'is used' if used else 'is not seen to be used'), 'option-takes-effect@%s %s' % (key, k))


def _defs(program):
    """Function definitions of the analysed modules by name, and the values
    assigned to names in them."""
    funcs, names = {}, {}
    for m in program.modules.values():
        if m.name == CLI or '.tests' in m.name or m.name.startswith('ref'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                funcs.setdefault(n.name, []).append(n)
        for n in m.tree.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names.setdefault(t.id, []).append(n.value)
    return funcs, names


def known_words(program, fn, cache={}):
    """Parameter names, keywords and text constants of a function and all
    functions which it may call (resolved by name: an over-approximation)."""
    funcs, names = _defs(program)
    words, todo, done = set(), [fn], set()
    while todo:
        n = todo.pop()
        if id(n) in done:
            continue
        done.add(id(n))
        docs = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                docs.add(id(x.value))
        for x in ast.walk(n):
            if isinstance(x, ast.arg):
                words.add(x.arg)
            elif isinstance(x, ast.keyword) and x.arg:
                words.add(x.arg)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and id(x) not in docs:
                words.add(x.value)
            elif isinstance(x, (ast.Name, ast.Attribute)):
                i = x.id if isinstance(x, ast.Name) else x.attr
                todo += funcs.get(i, []) + names.get(i, [])
    return words


def understood(c):
    """Every keyword which a command passes is read by what it calls."""
    for path in REQUIRED:
        g = dict(SAFE)
        g.update(DROPPED)
        try:
            R = Run(c, path, g)
        except Missing as e:
            c.ob('keyword-understood', CLI, None, '%s: %s' % (path, e), 'keyword-understood@' + path)
            continue
        mod, name = REQUIRED[path][0].rsplit('.', 1)
        node = c.program.find(mod, name)
        words = known_words(c.program, node if node is not None else R.target.node)
        for e in R.calls:
            for k in e.data['conds']:
                c.ob('keyword-understood', R.loc, k in words, '%s: keyword %s is %sread by %s or what it calls' % (path, k, '' if k in words else 'not ', REQUIRED[path][0]),
                     'keyword-understood@%s:%s' % (path.replace(' ', '_'), k))


def nothing_selected(c):
    """interface angle without a method collects nothing."""
    path = 'interface angle'
    g = dict(SAFE)
    g.update({'fit': False, 'height': None})
    try:
        R = Run(c, path, g)
    except Missing as e:
        c.ob('nothing-selected', CLI, None, str(e), 'nothing-selected')
        return
    c.ob('nothing-selected', R.loc, True if not R.calls else False if R.calls[0].guard in (True, ONE) else None,
         'neither fit nor height: %d calls of the analysis' % len(R.calls), 'nothing-selected')


def printed(c):
    """What the commands print of their results."""
    for path, opt in (('spreading collect', 'verbose'), ('spreading fit', 'print')):
        for on in (True, False):
            g = dict(SAFE)
            g.update(DROPPED)
            g[opt] = on
            key = '%s %s %s' % (path, opt, on)
            try:
                R = Run(c, path, g)
            except Missing as e:
                c.ob('results-printed', CLI, None, '%s: %s' % (key, e), 'results-printed@' + key)
                continue
            said = [e for e in R.I.trace if e.kind in ('print', 'stdwrite')]
            if not on:
                c.ob('results-printed', R.loc, not said, '%s: %d prints' % (key, len(said)), 'results-printed@' + key)
                continue
            order = []
            for e in said:
                for r in R.rows:
                    if all(mentions(list(e.data.values()), x) for x in r):
                        order.append(r)
            bad = [r for r in R.rows if not any(mentions(list(e.data.values()), x) for x in r for e in said)]
            ok = order == list(R.rows)
            c.ob('results-printed', R.loc, True if ok else False if bad and not outside(R.I) else None,
                 '%s: %d of %d rows printed in order' % (key, len(order), len(R.rows)), 'results-printed@' + key)


GROUPS = [declared, passed_on, understood, nothing_selected, printed]
