"""Abstract interpreter: gated value-flow over the whole program.

Statements are interpreted over an abstract state (heap of records holding
value terms).  Branches are joined with gated values, loops are summarised by
closed forms of their loop-carried slots, calls are followed across modules.
Nothing of the analysed program is run.
"""

import ast
import builtins as _pybuiltins

from .terms import *
from .terms import _canon_sign  # noqa
from .values import *
from . import arrays as A


class Dead(Exception):
    """No execution continues past this point."""


class Unsupported(Exception):
    pass


class Event(object):
    __slots__ = ('kind', 'node', 'module', 'func', 'stack', 'guard', 'loops', 'data', 'seq')

    def __init__(self, kind, node, module, func, stack, guard, loops, data, seq):
        self.kind = kind
        self.node = node
        self.module = module
        self.func = func
        self.stack = stack
        self.guard = guard
        self.loops = loops
        self.data = data
        self.seq = seq

    def where(self):
        return '%s:%s (%s)' % (self.module, getattr(self.node, 'lineno', '?'), self.func)

    def __repr__(self):
        return 'Event(%s %s [%s] %s)' % (self.kind, self.where(), show(self.guard), self.data)


class State(object):
    __slots__ = ('heap', 'owned', 'guard', 'rel', 'dead')

    def __init__(self):
        self.heap = {}
        self.owned = set()
        self.guard = ONE
        self.rel = ONE
        self.dead = False

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.guard = self.guard
        s.rel = self.rel
        s.dead = self.dead
        self.owned = set()
        return s


class Loop(object):
    __slots__ = ('k', 'size', 'mark', 'breaks', 'continues', 'node', 'outer_rel')

    def __init__(self, k, size, mark, node):
        self.k = k
        self.size = size
        self.mark = mark
        self.node = node
        self.breaks = []
        self.continues = []


class Frame(object):
    """Activation of a function (interpreter side)."""
    __slots__ = ('oid', 'fv', 'module', 'returns', 'yields', 'loops', 'globals_', 'nonlocals', 'locals_', 'cls_attrs')

    def __init__(self, oid, fv, module):
        self.oid = oid
        self.fv = fv
        self.module = module
        self.returns = []
        self.yields = None
        self.loops = []
        self.globals_ = set()
        self.nonlocals = set()
        self.locals_ = set()


EXC_PARENTS = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'AttributeError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'StopIteration': 'Exception', 'FileNotFoundError': 'OSError', 'PermissionError': 'OSError',
    'IOError': 'Exception', 'OSError': 'Exception', 'UnicodeDecodeError': 'ValueError',
    'AssertionError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'Exception': 'BaseException', 'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'FileExistsError': 'OSError', 'EOFError': 'Exception', 'OverflowError': 'ArithmeticError',
    'GeneratorExit': 'BaseException', 'IsADirectoryError': 'OSError',
}
EXC_PARENTS['EnvironmentError'] = 'Exception'


def exc_matches(name, handler):
    if handler in ('IOError', 'EnvironmentError'):
        handler = 'OSError'
    if name in ('IOError', 'EnvironmentError'):
        name = 'OSError'
    while name is not None:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name)
    return False


ABSENT = mk('absent')


class Interp(object):
    max_depth = 60

    def __init__(self, program, unroll=24):
        self.program = program
        self.unroll = unroll
        self.st = State()
        self.next_oid = 1
        self.modules = {}           # name -> frame oid
        self.module_done = set()
        self.frames = []
        self.collectors = []
        self.trace = []
        self.nloops = 0
        self.quotients = set()      # divisions of measured quantities giving whole numbers
        self.notes = []             # unsupported constructs met
        self.defects = []           # (kind, message, node, module, func, guard)
        self.loops = []             # active loop contexts (k, size)
        self.depth = 0
        self.seq = 0
        self.node = None
        self.folders = False        # whether a path may be a directory
        self.hooks = {}             # qual -> replacement callable
        self.quiet = 0
        self.builtin_cache = {}
        self.born = {}              # oid -> loops active at allocation
        self.steps = 0
        self.max_steps = 3000000
        from . import models
        self.models = models
        models.setup(self)

    # ------------------------------------------------------------- heap

    def alloc(self, rec):
        oid = self.next_oid
        self.next_oid += 1
        self.st.heap[oid] = rec
        self.st.owned.add(oid)
        self.born[oid] = tuple(k for k, s in self.loops)
        return ref(oid)

    def get(self, r):
        return self.st.heap[r.args[0]]

    def w(self, r):
        """Record for writing."""
        oid = r.args[0]
        rec = self.st.heap[oid]
        if oid not in self.st.owned:
            if not hasattr(rec, 'copy'):
                return rec
            rec = rec.copy()
            self.st.heap[oid] = rec
            self.st.owned.add(oid)
        return rec

    def put(self, r, rec):
        self.st.heap[r.args[0]] = rec
        self.st.owned.add(r.args[0])

    def is_ref(self, v, cls_=None):
        if isinstance(v, T) and v.op == 'ref':
            return cls_ is None or isinstance(self.st.heap.get(v.args[0]), cls_)
        return False

    def new_list(self, segs=(), kind='list'):
        return self.alloc(ListV(segs, kind))

    def list_of(self, values):
        return self.new_list([('lit', v) for v in values])

    def new_dict(self, items=None, rest=None):
        return self.alloc(DictV({k: (v, ONE) for k, v in (items or {}).items()}, rest))

    # ------------------------------------------------------------ events

    def emit(self, kind, node=None, **data):
        if self.quiet:
            return
        self.seq += 1
        node = node if node is not None else self.node
        f = self.frames[-1] if self.frames else None
        self.trace.append(Event(kind, node, f.module if f else '', f.fv.qual if f and f.fv else '<module>',
                                tuple(x.fv.qual if x.fv else x.module for x in self.frames),
                                self.st.guard, tuple(self.loops), data, self.seq))

    def note(self, msg, node=None):
        node = node or self.node
        f = self.frames[-1] if self.frames else None
        self.notes.append('%s:%s %s' % (f.module if f else '', getattr(node, 'lineno', '?'), msg))

    def defect(self, kind, msg, node=None, cond=ONE):
        node = node or self.node
        f = self.frames[-1] if self.frames else None
        self.emit('defect', node, what=kind, msg=msg, cond=mul(self.st.guard, cond))

    def unknown(self, what, *args):
        self.note('unknown: ' + what)
        return atom(app_raw('?' + what, *[self.freeze(a) for a in args]))

    def fresh_unknown(self, what):
        self.note('unknown: ' + what)
        return atom(app_raw('?' + what, fresh('u')))

    # ----------------------------------------------------------- guards

    def simp(self, v):
        """Simplify a value by the current guard."""
        if not isinstance(v, T):
            if isinstance(v, tuple):
                return tuple(self.simp(x) for x in v)
            return v
        g = self.st.guard
        if g is ONE:
            return v
        if v.op == 'ite':
            c = self.simp(v.args[0])
            if c is ONE:
                return self.simp(v.args[1])
            if c is ZERO:
                return self.simp(v.args[2])
            if c is not v.args[0]:
                return ite(c, v.args[1], v.args[2])
            return v
        if v.op == 'num':
            for l in literals(v):
                la = atom(l)
                m = mul(g, la)
                if m is g:
                    v = restrict(v, l, 1)
                elif m is ZERO:
                    v = restrict(v, l, 0)
            return v
        return v

    def truth(self, v):
        """Condition (0/1 term) of a value under the guard."""
        c = self._truth(v)
        c = self.simp(c)
        if c is ONE or c is ZERO:
            return c
        g = mul(self.st.guard, c)
        if g is ZERO:
            return ZERO
        if g is self.st.guard:
            return ONE
        if len(literals(g)) > 1 and len(literals(g)) <= 8:
            if not sat(g):
                return ZERO
            if not sat(mul(self.st.guard, not_(c))):
                return ONE
        return c

    def _truth(self, v):
        if isinstance(v, T):
            if v.op == 'ref':
                rec = self.get(v)
                if isinstance(rec, ListV):
                    return self.seg_nonempty(rec.segs)
                if isinstance(rec, DictV):
                    r = ZERO
                    for k, (x, c) in rec.items.items():
                        r = or_(r, c)
                    if rec.rest is not None:
                        r = or_(r, truthy(rec.rest))
                    for k, size, kk, vv in rec.each:
                        r = or_(r, not_(cmp_eq0(size)))
                    return r
                if isinstance(rec, ViewV):
                    a = self.arr(v)
                    if all(dim_size(d) is ONE for d in a.dims) and a.filt is ONE and not a.is_rec():
                        return truthy(subst(a.body, {x: ZERO for x in a.vars()}))
                    return atom(app_raw('?truth', v)) and truthy(self.unknown('truth of array', v))
                if isinstance(rec, InstV):
                    ln = rec.cls.lookup('__len__')
                    if ln is not None:
                        return truthy(self.call(bound(ln, v), [], {}))
                return ONE
            if v.op == 'ite':
                return ite(v.args[0], self._truth(v.args[1]), self._truth(v.args[2]))
            if v.op in ('func', 'class', 'ext', 'mod', 'bound', 'nt', 'type'):
                return ONE
        return truthy(v)

    def assume(self, c):
        """Continue with c true; Dead if impossible."""
        if c is ONE:
            return
        g = mul(self.st.guard, c)
        if g is ZERO:
            self.st.dead = True
            raise Dead()
        self.st.guard = g
        self.st.rel = mul(self.st.rel, c)

    def branch(self, c, f, g):
        """Evaluate f under c and g otherwise; join states and values."""
        if c is ONE:
            return f()
        if c is ZERO:
            return g()
        base = self.st
        a = base.fork()
        b = base.fork()
        va = vb = None
        try:
            self.st = a
            self.assume(c)
            va = f()
            a = self.st
        except Dead:
            a = self.st
            a.dead = True
        try:
            self.st = b
            self.assume(not_(c))
            vb = g()
            b = self.st
        except Dead:
            b = self.st
            b.dead = True
        if a.dead and b.dead:
            self.st = a
            raise Dead()
        if a.dead:
            self.st = b
            return vb
        if b.dead:
            self.st = a
            return va
        self.st = self.merge(c, a, b)
        return self.join(c, va, vb)

    def join(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join(c, x, y) for x, y in zip(a, b))
        return ite(c, a, b)

    def merge(self, c, a, b):
        s = State()
        s.guard = add(a.guard, b.guard) if mul(a.guard, b.guard) is ZERO else or_(a.guard, b.guard)
        s.rel = add(a.rel, b.rel) if mul(a.rel, b.rel) is ZERO else or_(a.rel, b.rel)
        heap = dict(b.heap)
        for oid, ra in a.heap.items():
            rb = heap.get(oid)
            if rb is ra:
                continue
            if rb is None:
                heap[oid] = ra
                continue
            heap[oid] = self.merge_rec(c, ra, rb, (a, b))
            s.owned.add(oid)
        s.heap = heap
        return s

    def merge_rec(self, c, a, b, states=None):
        if isinstance(a, FrameV):
            out = dict()
            keys = list(a.vars)
            keys += [k for k in b.vars if k not in a.vars]
            for k in keys:
                x = a.vars.get(k, UNBOUND)
                y = b.vars.get(k, UNBOUND)
                out[k] = x if x is y else self.join(c, x, y)
            return FrameV(out, a.parent, a.module)
        if isinstance(a, ListV):
            return ListV(self.merge_segs(c, a.segs, b.segs, states), a.kind)
        if isinstance(a, GenV):
            return GenV(self.merge_segs(c, a.segs, b.segs, states), self.join(c, a.pos, b.pos))
        if isinstance(a, DictV):
            items = {}
            keys = list(a.items) + [k for k in b.items if k not in a.items]
            for k in keys:
                if k in a.items and k in b.items:
                    (x, cx), (y, cy) = a.items[k], b.items[k]
                    cond = ite(c, cx, cy) if cx is not cy else cx
                    items[k] = (x if x is y else self.join(c, x, y), cond)
                elif k in a.items:
                    items[k] = (a.items[k][0], mul(c, a.items[k][1]))
                else:
                    items[k] = (b.items[k][0], mul(not_(c), b.items[k][1]))
            rest = a.rest if a.rest is b.rest else ite(c, a.rest, b.rest)
            return DictV(items, rest, a.each if a.each == b.each else a.each + b.each)
        if isinstance(a, (InstV, CellV)):
            out = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                x = a.attrs.get(k, UNBOUND)
                y = b.attrs.get(k, UNBOUND)
                out[k] = x if x is y else self.join(c, x, y)
            return InstV(a.cls, out) if isinstance(a, InstV) else CellV(out)
        if isinstance(a, BufV):
            if a.axes == b.axes and set(a.fields) == set(b.fields):
                r = a.copy()
                r.fields = {l: ite(c, a.fields[l], b.fields[l]) for l in a.fields}
                r.filt = ite(c, a.filt, b.filt)
                if a.order != b.order:
                    r.order = ('ite', c, a.order, b.order)
                return r
            r = a.copy()
            r.fields = {l: atom(app_raw('?merge', l, a.fields[l])) for l in a.fields}
            return r
        if isinstance(a, ViewV):
            if (a.buf, a.field, a.dims, a.mapping) == (b.buf, b.field, b.dims, b.mapping):
                return a
            r = ViewV(a.buf, a.field, a.dims, a.mapping)
            self.note('merge of reshaped view')
            return r
        return a

    def same_each(self, x, y, states):
        """Equal repeated segments up to the bound variable and object identity."""
        if x[0] != 'each' or y[0] != 'each' or x[2] is not y[2] or len(x[3]) != len(y[3]):
            return False
        if states is None:
            return False
        save = self.st
        try:
            self.st = states[0]
            fx = self.freeze_segs(x[3])
            self.st = states[1]
            fy = self.freeze_segs(y[3])
        finally:
            self.st = save
        return fx == subst(fy, {y[1]: atom(x[1])})

    def merge_segs(self, c, a, b, states=None):
        if a == b:
            return a
        if len(a) == len(b) and all(x[0] == 'lit' and y[0] == 'lit' for x, y in zip(a, b)):
            return tuple(('lit', self.join(c, x[1], y[1])) for x, y in zip(a, b))
        n = 0
        while n < len(a) and n < len(b) and (a[n] == b[n] or self.same_each(a[n], b[n], states)):
            n += 1
        out = list(a[:n])
        if a[n:]:
            out.append(('if', c, tuple(a[n:])))
        if b[n:]:
            out.append(('if', not_(c), tuple(b[n:])))
        return tuple(out)

    def fold_states(self, items):
        """Join (state, value) pairs with disjoint rel conditions."""
        items = [x for x in items if not x[0].dead or True]
        s, v = items[-1]
        for s2, v2 in reversed(items[:-1]):
            c = s2.rel
            m = self.merge(c, s2, s)
            v = self.join(c, v2, v)
            s = m
        return s, v

    def cases(self, v, f):
        """Apply f on each case of a gated value."""
        v = self.simp(v)
        if isinstance(v, T) and v.op == 'ite':
            c = self.truth(v.args[0])
            return self.branch(c, lambda: self.cases(v.args[1], f), lambda: self.cases(v.args[2], f))
        if isinstance(v, T) and v.op == 'num':
            ls = literals(v)
            if ls and any(a.op != 'num' and a.op not in INDICATORS for m, c in v.args[0] for a, e in m
                          if self._nonscalar(a)):
                l = ls[0]
                return self.branch(atom(l), lambda: self.cases(restrict(v, l, 1), f),
                                   lambda: self.cases(restrict(v, l, 0), f))
            sa = single_atom(v)
            if sa is not None and sa.op in ('ref', 'none', 'py', 'func', 'ite'):
                return self.cases(self.unwrap(v), f)
        return f(v)

    def _nonscalar(self, a):
        return a.op in ('ref', 'none', 'py', 'func', 'class', 'ite', 'str')

    def unwrap(self, v):
        """num with a single non-numeric atom -> the atom's value."""
        if isinstance(v, T) and v.op == 'num':
            sa = single_atom(v)
            if sa is not None:
                if sa.op == 'none':
                    return None
                if sa.op == 'py':
                    return sa.args[0]
                if sa.op in ('ref', 'func', 'class', 'ite', 'str', 'nt', 'ext', 'bound'):
                    return sa
        return v

    # ----------------------------------------------------------- raising

    def raise_(self, exc, cond=ONE, node=None, value=None, internal=False):
        """Raise exception exc (name) under cond."""
        cond = self.truth(cond) if cond is not ONE else ONE
        if cond is ZERO:
            return
        if internal:
            if has_unknown(cond):
                if all(l.op == 'isnone' and has_unknown(l) for l in literals(cond)):
                    return
                self.emit('maybe', node, exc=exc, value=value, cond=cond)
            else:
                self.emit('crash', node, exc=exc, value=value, cond=cond)
        s = self.st.fork()
        s.guard = mul(s.guard, cond)
        s.rel = mul(s.rel, cond)
        if self.collectors:
            self.collectors[-1].append((exc, value, s, node or self.node, tuple(self.loops)))
        self.emit('raise', node, exc=exc, value=value, cond=cond)
        if cond is ONE:
            self.st.dead = True
            raise Dead()
        self.assume(not_(cond))

    # ----------------------------------------------------------- modules

    def module(self, name):
        """Frame ref of an analysed module (executing its top level once)."""
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if parent in self.program.modules:
                self.module(parent)
                if name in self.modules:
                    return self.modules[name]
        m = self.program.modules[name]
        saved = self.st.guard, self.st.rel
        fr = self.alloc(FrameV({'__name__': name, '__file__': m.rel, '__doc__': None}, None, name))
        self.modules[name] = fr
        sv = (self.frames, self.loops, self.collectors, self.node)
        self.loops = []
        self.collectors = [[]]
        self.born[fr.args[0]] = ()
        g, r = self.st.guard, self.st.rel
        self.st.guard, self.st.rel = ONE, ONE
        f = Frame(fr.args[0], None, name)
        self.frames = list(sv[0]) + [f]
        try:
            self.exec_block(m.tree.body)
        except Dead:
            self.note('module %s terminates' % name)
        self.frames, self.loops, self.collectors, self.node = sv
        self.st.guard, self.st.rel = g, r
        self.st.dead = False
        return fr

    def modvar(self, modname, name):
        fr = self.module(modname)
        return self.get(fr).vars.get(name, UNBOUND)

    def function(self, modname, name):
        """Value of a (possibly dotted) module attribute."""
        parts = name.split('.')
        v = self.modvar(modname, parts[0])
        for p in parts[1:]:
            v = self.getattr(v, p)
        return v

    # -------------------------------------------------------- statements

    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        prev = self.node
        self.node = s
        getattr(self, 'x_' + type(s).__name__, self.x_other)(s)
        self.node = prev

    def x_other(self, s):
        self.note('statement %s' % type(s).__name__, s)

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        self.ev(s.value)

    def x_Import(self, s):
        for al in s.names:
            name = al.name
            top = name.split('.')[0]
            if top in self.program.modules:
                self.module(name)
                v = mod(name if al.asname else top)
            else:
                v = mod(name if al.asname else top)
            self.setvar(al.asname or top, v)

    def x_ImportFrom(self, s):
        cur = self.frames[-1].module
        base = s.module or ''
        if s.level:
            pkg = cur.split('.')
            m = self.program.modules.get(cur)
            if not (m and m.is_pkg):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)]
            base = '.'.join(pkg + ([s.module] if s.module else []))
        if base in self.program.modules or base.split('.')[0] in self.program.modules:
            if base not in self.program.modules:
                self.defect('import', 'module %s does not exist' % base, s)
                for al in s.names:
                    self.setvar(al.asname or al.name, self.unknown('import ' + base))
                return
            fr = self.module(base)
            for al in s.names:
                if al.name == '*':
                    for k, v in list(self.get(fr).vars.items()):
                        if not k.startswith('_'):
                            self.setvar(k, v)
                    continue
                v = self.get(fr).vars.get(al.name, UNBOUND)
                if v is UNBOUND:
                    sub_ = base + '.' + al.name
                    if sub_ in self.program.modules:
                        self.module(sub_)
                        v = mod(sub_)
                    else:
                        self.defect('import', 'cannot import name %s from %s' % (al.name, base), s)
                        v = self.unknown('import ' + al.name)
                self.setvar(al.asname or al.name, v)
        else:
            for al in s.names:
                if al.name == '*':
                    self.note('star import of %s' % base)
                    continue
                self.setvar(al.asname or al.name, ext(base + '.' + al.name))

    def x_FunctionDef(self, s):
        defaults = [self.ev(d) for d in s.args.defaults]
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.ev(d)
        fr = self.frames[-1]
        fv = FuncVal(s, fr.module, ref(fr.oid), s.name, defaults, kwd)
        fv.qual = (fr.fv.qual + '.' if fr.fv else fr.module + '.') + s.name
        fv.uid = (s, fr.oid)
        v = func(fv)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.call(dv, [v], {}, d)
        self.setvar(s.name, v)

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in s.bases]
        cv = ClassVal(s.name, fr.module, [b.args[0] for b in bases if isinstance(b, T) and b.op == 'class'],
                      {}, fr.module + '.' + s.name)
        cv.ext_bases = [b for b in bases if not (isinstance(b, T) and b.op == 'class')]
        # execute the body in a class frame
        cf = self.alloc(FrameV({}, ref(fr.oid), fr.module))
        f = Frame(cf.args[0], fr.fv, fr.module)
        self.frames.append(f)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                decs = [ast.unparse(d) for d in st.decorator_list]
                fv = FuncVal(st, fr.module, ref(fr.oid), st.name,
                             [self.ev(d) for d in st.args.defaults],
                             {a.arg: self.ev(d) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None},
                             cv)
                fv.qual = cv.qual + '.' + st.name
                v = func(fv)
                if 'property' in decs:
                    cv.props.setdefault(st.name, {})['get'] = v
                    self.get(cf).vars[st.name] = v
                    continue
                hit = False
                for d in decs:
                    if d.endswith('.setter'):
                        cv.props.setdefault(d.split('.')[0], {})['set'] = v
                        hit = True
                    elif d.endswith('.getter') or d.endswith('.deleter'):
                        hit = True
                    elif d == 'staticmethod':
                        v = mk('static', v)
                    elif d == 'classmethod':
                        v = mk('classm', v)
                if hit:
                    continue
                self.w(cf).vars[st.name] = v
            else:
                self.exec(st)
        self.frames.pop()
        cv.attrs.update(self.get(cf).vars)
        self.setvar(s.name, cls(cv))

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        f = self.frames[-1]
        f.returns.append((self.st, v, tuple(self.loops)))
        self.st = self.st.fork()
        self.st.dead = True
        raise Dead()

    def x_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'current_exc', None)
            self.raise_(cur[0] if cur else 'Exception', ONE, s, cur[1] if cur else None)
        v = self.ev(s.exc)
        name, val = 'Exception', None
        if isinstance(v, T):
            if v.op == 'exc':
                name, val = v.args[0], v.args[1]
            elif v.op == 'ext':
                name = v.args[0].split('.')[-1]
        self.raise_(name, ONE, s, val)

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if c is ONE:
            return
        self.raise_('AssertionError', not_(c), s)

    def x_Global(self, s):
        self.frames[-1].globals_.update(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                if self.is_ref(o, DictV) and k in self.get(o).items:
                    del self.w(o).items[k]
                else:
                    self.note('del')

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            new = self.augop(s.op, old, self.ev(s.value), s)
            if new is not old:
                self.setvar(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr, s)
            new = self.augop(s.op, old, self.ev(s.value), s)
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            old = self.getitem(o, i, s)
            v = self.ev(s.value)
            if self.is_ref(old, (ViewV, ListV)):
                new = self.augop(s.op, old, v, s)
                self.setitem(o, i, new, s)
            else:
                self.setitem(o, i, self.binop(s.op, old, v, s), s)

    def augop(self, op, old, v, node):
        if isinstance(old, T) and old.op == 'ite':
            return self.cases(old, lambda o: self.augop(op, o, v, node))
        if self.is_ref(old, ViewV):
            new = self.binop(op, old, v, node)
            if self.is_ref(new, ViewV):
                self.models.store(self, old, None, new, node)
                return old
            return new
        if self.is_ref(old, ListV) and isinstance(op, ast.Add):
            self.models.list_extend(self, old, v)
            return old
        return self.binop(op, old, v, node)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.cases(o, lambda o: self.setattr(o, t.attr, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            self.cases(o, lambda o: self.setitem(o, i, v, t))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.note('assign target')

    def unpack(self, t, v):
        v = self.simp(v)
        if isinstance(v, T) and v.op == 'ite':
            # join of tuples of equal length becomes a tuple; otherwise case split
            n = len(t.elts)
            vals = self.cases(v, lambda x: self.unpack_values(t, x))
        else:
            vals = self.unpack_values(t, v)
        for e, x in zip(t.elts, vals):
            self.assign(e, x)

    def unpack_values(self, t, v):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        v = self.unwrap(v)
        if v is None or (isinstance(v, T) and v.op in ('num', 'func', 'class') and not self._opaque(v)):
            self.raise_('TypeError', ONE, t, 'cannot unpack non-iterable %s object' % (
                'NoneType' if v is None else 'numeric'), internal=True)
        segs = self.iter_segs(v)
        flat = self.flat_lits(segs)
        if flat is not None:
            if star:
                i = star[0]
                k = n - i - 1
                mid = self.list_of(flat[i:len(flat) - k])
                return tuple(flat[:i] + [mid] + flat[len(flat) - k:])
            if len(flat) != n:
                self.raise_('ValueError', ONE, t, 'unpacking %d values to %d' % (len(flat), n), internal=True)
            return tuple(flat)
        if star:
            return tuple(self.unknown('unpack', v, num(i)) for i in range(n))
        if segs is not None:
            return tuple(self.seg_index(segs, num(i)) for i in range(n))
        return tuple(self.unknown('unpack', v, num(i)) for i in range(n))

    def _opaque(self, v):
        sa = single_atom(v) if isinstance(v, T) and v.op == 'num' else v
        if sa is None:
            return any(a.op == 'app' and str(a.args[0]).startswith('?') for a in children(v)) or bool(literals(v))
        return sa.op in ('app', 'elem', 'attr') or (sa.op == 'sym' and fact(sa, 'kind') not in ('num',))

    # -- control flow

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        self.emit('if', s, cond=c)
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_While(self, s):
        self.models_loop_while(s)

    def x_For(self, s):
        it = self.ev(s.iter)
        self.cases(it, lambda it: self.run_for(it, s))

    def run_for(self, it, s):
        segs = self.iter_segs(it)
        if segs is None:
            self.note('iteration over unknown %s' % show_val(it))
            k, size = new_axis(fresh('?n', int=True, nonneg=True, kind='num'), 'k')
            segs = (('each', k, size, (('lit', self.unknown('item', it, atom(k))),)),)
        self.for_segs(segs, s)

    def for_segs(self, segs, s):
        state = {'broke': []}
        loop = Loop(None, None, None, s)
        f = self.frames[-1]

        def body(v):
            self.assign(s.target, v)
            self.exec_block(s.body)
        done = self.iterate(segs, body, loop, s)
        if s.orelse:
            # states which fell through run the else block
            try:
                if not self.st.dead:
                    self.exec_block(s.orelse)
            except Dead:
                self.st.dead = True
        self.join_breaks(loop)

    def join_breaks(self, loop):
        items = list((b, None) for b in loop.breaks)
        if items:
            if not self.st.dead:
                items.append((self.st, None))
            self.st, _ = self.fold_states(items)
            self.st.dead = False
        if self.st.dead:
            raise Dead()

    def iterate(self, segs, body, loop, node):
        """Run body over segments; self.st is the fall through state."""
        for seg in segs:
            if self.st.dead:
                return
            if seg[0] == 'lit':
                self.one_iteration(lambda: body(seg[1]), loop)
            elif seg[0] == 'if':
                base = self.st
                c = self.truth(seg[1])
                if c is ZERO:
                    continue
                if c is ONE:
                    self.iterate(seg[2], body, loop, node)
                    continue
                a, b = base.fork(), base.fork()
                self.st = a
                try:
                    self.assume(c)
                    self.iterate(seg[2], body, loop, node)
                except Dead:
                    self.st.dead = True
                a = self.st
                self.st = b
                self.assume(not_(c))
                b = self.st
                if a.dead:
                    self.st = b
                else:
                    self.st = self.merge(c, a, b)
            elif seg[0] == 'each':
                self.generic_loop(seg, body, loop, node)
            else:
                self.note('iterate %s' % (seg[0],))

    def one_iteration(self, f, loop):
        fr = self.frames[-1]
        fr.loops.append(loop)
        saved = loop.continues
        loop.continues = []
        try:
            f()
        except Dead:
            self.st.dead = True
        fr.loops.pop()
        conts = loop.continues
        loop.continues = saved
        if conts:
            items = [(c, None) for c in conts]
            if not self.st.dead:
                items.append((self.st, None))
            self.st, _ = self.fold_states(items)
            self.st.dead = False

    def x_Break(self, s):
        loop = self.frames[-1].loops[-1]
        loop.breaks.append(self.st)
        self.st = self.st.fork()
        self.st.dead = True
        raise Dead()

    def x_Continue(self, s):
        loop = self.frames[-1].loops[-1]
        loop.continues.append(self.st)
        self.st = self.st.fork()
        self.st.dead = True
        raise Dead()

    # -- generic iterations

    def generic_loop(self, seg, body, loop, node):
        from . import loops
        loops.run(self, seg, body, loop, node)

    def models_loop_while(self, s):
        from . import loops
        loops.run_while(self, s)

    def x_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)
        for it in s.items:
            pass

    def x_Try(self, s):
        coll = []
        base_rel = self.st.rel
        self.collectors.append(coll)
        names = []
        for h in s.handlers:
            names.extend(self.handler_names(h) or ['*'])
        self.try_names.append(names)
        try:
            self.exec_block(s.body)
            alive = True
        except Dead:
            self.st.dead = True
            alive = False
        self.try_names.pop()
        self.collectors.pop()
        if alive and s.orelse:
            try:
                self.exec_block(s.orelse)
            except Dead:
                self.st.dead = True
                alive = False
        results = []
        if alive:
            results.append(self.st)
        # exceptions
        bucket = {}
        for exc, val, st, node, lps in coll:
            hit = None
            for n, h in enumerate(s.handlers):
                names = self.handler_names(h)
                if names is None or any(exc_matches(exc, x) for x in names) or exc == 'Any':
                    hit = n
                    break
            if hit is None:
                if self.collectors:
                    self.collectors[-1].append((exc, val, st, node, lps))
                continue
            bucket.setdefault(hit, []).append((exc, val, st))
        for n in sorted(bucket):
            h = s.handlers[n]
            items = bucket[n]
            st, v = self.fold_states([(x[2], x[1]) for x in items])
            st.dead = False
            self.st = st
            saved = getattr(self, 'current_exc', None)
            self.current_exc = (items[0][0], v)
            self.emit('handler', h, excs=tuple(x[0] for x in items))
            try:
                if h.name:
                    self.setvar(h.name, mk('exc', items[0][0], self.freeze(v)))
                self.exec_block(h.body)
                results.append(self.st)
            except Dead:
                pass
            self.current_exc = saved
        if not results:
            self.st.dead = True
            if s.finalbody:
                self.st.dead = False
                try:
                    self.exec_block(s.finalbody)
                except Dead:
                    pass
            self.st.dead = True
            raise Dead()
        self.st, _ = self.fold_states([(r, None) for r in reversed(results)])
        self.st.dead = False
        if s.finalbody:
            self.exec_block(s.finalbody)

    def handler_names(self, h):
        if h.type is None:
            return None
        if isinstance(h.type, ast.Tuple):
            return [ast.unparse(e).split('.')[-1] for e in h.type.elts]
        return [ast.unparse(h.type).split('.')[-1]]

    # --------------------------------------------------------- variables

    def frame_of(self, name, for_store=False):
        f = self.frames[-1]
        if name in f.globals_:
            return self.modules[f.module]
        if name in f.nonlocals:
            r = self.get(ref(f.oid)).parent
            while r is not None:
                if name in self.get(r).vars:
                    return r
                r = self.get(r).parent
        return ref(f.oid)

    def setvar(self, name, v):
        r = self.frame_of(name)
        self.w(r).vars[name] = v

    def getvar(self, name, node=None):
        f = self.frames[-1]
        if name in f.globals_:
            r = self.modules[f.module]
        else:
            r = ref(f.oid)
            if f.fv is not None and name in f.locals_ and name not in f.nonlocals:
                v = self.get(r).vars.get(name, UNBOUND)
                return self.check_bound(v, name, node)
        while r is not None:
            rec = self.get(r)
            if name in rec.vars:
                return self.check_bound(rec.vars[name], name, node)
            r = rec.parent
        m = self.modules.get(f.module)
        if m is not None and name in self.get(m).vars:
            return self.check_bound(self.get(m).vars[name], name, node)
        b = self.models.builtin(self, name)
        if b is not None:
            return b
        self.raise_('NameError', ONE, node, name, internal=True)

    def check_bound(self, v, name, node):
        if v is UNBOUND:
            self.raise_('UnboundLocalError', ONE, node, name, internal=True)
        if isinstance(v, T) and v.op == 'ite':
            v = self.simp(v)
            if v is UNBOUND:
                self.raise_('UnboundLocalError', ONE, node, name, internal=True)
            if isinstance(v, T) and v.op == 'ite' and (v.args[1] is UNBOUND or v.args[2] is UNBOUND):
                c = v.args[0] if v.args[1] is UNBOUND else not_(v.args[0])
                other = v.args[2] if v.args[1] is UNBOUND else v.args[1]
                c = self.truth(c)
                if c is ZERO:
                    return self.check_bound(other, name, node)
                self.raise_('UnboundLocalError', c, node, name, internal=True)
                return self.check_bound(other, name, node)
        return v

    # ------------------------------------------------------- expressions

    def ev(self, e):
        return getattr(self, 'e_' + type(e).__name__, self.e_other)(e)

    def e_other(self, e):
        return self.unknown('expr ' + type(e).__name__)

    def e_Constant(self, e):
        v = e.value
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, bytes):
            return mk('bytes', v.decode('latin1'))
        if v is Ellipsis:
            return mk('ellipsis')
        return v

    def e_Name(self, e):
        return self.getvar(e.id, e)

    def e_Tuple(self, e):
        return self.make_seq(e, tuple_=True)

    def e_List(self, e):
        return self.make_seq(e)

    def e_Set(self, e):
        segs = self.make_segs(e)
        return self.new_list(segs, 'set')

    def make_segs(self, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                s = self.iter_segs(v)
                if s is None:
                    k, size = new_axis(fresh('?n', int=True, nonneg=True, kind='num'), 'k')
                    s = (('each', k, size, (('lit', self.unknown('item', v, atom(k))),)),)
                segs.extend(s)
            else:
                segs.append(('lit', self.ev(x)))
        return segs

    def make_seq(self, e, tuple_=False):
        segs = self.make_segs(e)
        if tuple_:
            if all(x[0] == 'lit' for x in segs):
                return tuple(x[1] for x in segs)
            return self.new_list(segs, 'tuple')
        return self.new_list(segs)

    def e_Dict(self, e):
        d = DictV({})
        r = self.alloc(d)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, r, self.ev(v))
            else:
                kk = self.ev(k)
                self.setitem(r, kk, self.ev(v), e)
        return r

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            if isinstance(v, T) and v.op == 'num' and is_bool(v):
                c = self.simp(v)
            else:
                c = self.truth(v)
            if is_and:
                r = self.branch(c, lambda: go(i + 1), lambda: v)
            else:
                r = self.branch(c, lambda: v, lambda: go(i + 1))
            return r
        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        return self.unary(e.op, v, e)

    def unary(self, op, v, node):
        if isinstance(v, T) and v.op == 'ite':
            return self.cases(v, lambda x: self.unary(op, x, node))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.USub):
            if self.is_ref(v, ViewV):
                return self.models.elementwise(self, lambda a: neg(a), v)
            if isinstance(v, T) and v.op in ('num', 'sym', 'app', 'elem', 'attr'):
                return neg(as_num(v))
            return self.unknown('neg', v)
        if isinstance(op, ast.Invert):
            if self.is_ref(v, ViewV):
                from . import models_np
                return models_np.as_bool(self, self.models.elementwise(self, lambda a: not_(a), v))
            return not_(self.truth(v))
        return self.unknown('unary')

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        return self.models.binop(self, op, a, b, node)

    def e_Compare(self, e):
        left = self.ev(e.left)

        def go(i, left):
            right = self.ev(e.comparators[i])
            r = self.compare(e.ops[i], left, right, e)
            if i == len(e.ops) - 1:
                return r
            c = self.truth(r)
            return self.branch(c, lambda: go(i + 1, right), lambda: ZERO)
        return go(0, left)

    def compare(self, op, a, b, node):
        return self.models.compare_op(self, op, a, b, node)

    def e_Call(self, e):
        fv = self.ev(e.func)
        args, kwargs = self.ev_args(e)
        return self.cases(fv, lambda f: self.call_segs(f, args, kwargs, e))

    def ev_args(self, e):
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                s = self.iter_segs(v)
                if s is None:
                    if v is None or (isinstance(v, T) and v.op == 'num' and not self._opaque(v)):
                        self.raise_('TypeError', ONE, e, 'argument after * must be an iterable', internal=True)
                    k, size = new_axis(fresh('?n', int=True, nonneg=True, kind='num'), 'k')
                    s = (('each', k, size, (('lit', self.unknown('item', v, atom(k))),)),)
                args.extend(s)
            else:
                args.append(('lit', self.ev(x)))
        kw = DictV({})
        for x in e.keywords:
            v = self.ev(x.value)
            if x.arg is not None:
                kw.items[x.arg] = (v, ONE)
            else:
                v = self.simp(v)
                if self.is_ref(v, DictV):
                    d = self.get(v)
                    for k, (val, c) in d.items.items():
                        if k in kw.items and isinstance(k, str):
                            self.raise_('TypeError', c, e, 'multiple values for keyword argument %s' % k, internal=True)
                        kw.items[k] = (val, c)
                    if d.rest is not None:
                        kw.rest = d.rest
                    if d.each:
                        kw.each = tuple(kw.each) + tuple(d.each)
                else:
                    if isinstance(v, T) and v.op == 'ite':
                        vv = self.models.materialise_dict(self, v)
                        for k, x2 in vv.items.items():
                            kw.items[k] = x2
                        kw.rest = vv.rest
                    else:
                        kw.rest = self.unknown('kwargs', v)
        return args, kw

    def call(self, f, args, kwargs, node=None):
        """Call with plain python lists/dicts of values."""
        kw = DictV({k: (v, ONE) for k, v in kwargs.items()})
        return self.cases(f, lambda f: self.call_segs(f, [('lit', a) for a in args], kw, node))

    def call_segs(self, f, args, kw, node=None):
        node = node if node is not None else self.node
        f = self.unwrap(f)
        if isinstance(f, T):
            op = f.op
            if op == 'func':
                return self.call_func(f.args[0], args, kw, node, f)
            if op == 'bound':
                return self.call_bound(f, args, kw, node)
            if op == 'class':
                return self.instantiate(f.args[0], args, kw, node)
            if op == 'static':
                return self.call_segs(f.args[0], args, kw, node)
            if op == 'ref':
                rec = self.get(f)
                if isinstance(rec, InstV):
                    m = rec.cls.lookup('__call__')
                    if m is not None:
                        return self.call_segs(bound(m, f), args, kw, node)
                if isinstance(rec, (ListV, DictV, ViewV)):
                    self.raise_('TypeError', ONE, node, 'object is not callable', internal=True)
            if op == 'num' and not self._opaque(f):
                self.raise_('TypeError', ONE, node, 'number is not callable', internal=True)
        if f is None or isinstance(f, (str, tuple)):
            self.raise_('TypeError', ONE, node, '%s object is not callable' % type(f).__name__, internal=True)
        return self.models.call_ext(self, f, args, kw, node)

    def call_bound(self, f, args, kw, node):
        fn, self_ = f.args
        if isinstance(fn, T) and fn.op == 'func':
            return self.call_segs(fn, [('lit', self_)] + list(args), kw, node)
        if isinstance(fn, T) and fn.op == 'static':
            return self.call_segs(fn.args[0], args, kw, node)
        if isinstance(fn, T) and fn.op == 'classm':
            return self.call_segs(fn.args[0], [('lit', self_)] + list(args), kw, node)
        return self.models.call_method(self, self_, fn, args, kw, node)

    def instantiate(self, cv, args, kw, node):
        if cv.fields is not None:
            vals = {}
            lits = self.flat_lits(args)
            if lits is None:
                segs = tuple(args)
                vals = {n: self.seg_index(segs, num(i)) for i, n in enumerate(cv.fields)}
            else:
                if len(lits) > len(cv.fields):
                    self.raise_('TypeError', ONE, node, 'too many arguments for %s' % cv.name, internal=True)
                for n, v in zip(cv.fields, lits):
                    vals[n] = v
                for k, (v, c) in kw.items.items():
                    if k in cv.fields:
                        vals[k] = v
                    else:
                        self.raise_('TypeError', ONE, node, 'unexpected field %s' % k, internal=True)
                for n in cv.fields:
                    if n not in vals:
                        self.raise_('TypeError', ONE, node, 'missing field %s' % n, internal=True)
            return nt(cv, [vals[n] for n in cv.fields])
        r = self.alloc(InstV(cv, {}))
        init = cv.lookup('__init__')
        if init is not None:
            self.call_segs(bound(init, r), args, kw, node)
        return r

    def call_func(self, fv, args, kw, node, fterm=None):
        hook = self.hooks.get(fv.qual)
        if hook is not None:
            r = hook(self, fv, args, kw, node)
            if r is not NotImplemented:
                return r
        if self.depth > self.max_depth or sum(1 for f in self.frames if f.fv is not None and f.fv.node is fv.node) > 4:
            return self.unknown('recursion ' + fv.qual)
        self.emit('call', node, callee=fv.qual)
        frec = FrameV({}, fv.frame, fv.module)
        if not self.bind(fv, frec, args, kw, node):
            return self.unknown('bind')
        r = self.alloc(frec)
        f = Frame(r.args[0], fv, fv.module)
        f.locals_ = local_names(fv.node)
        is_gen = is_generator(fv.node)
        if is_gen:
            f.yields = self.new_list((), 'list')
        saved_rel = self.st.rel
        self.st.rel = ONE
        saved_node = self.node
        self.frames.append(f)
        self.depth += 1
        coll = []
        self.collectors.append(coll)
        fell = True
        if isinstance(fv.node, ast.Lambda):
            try:
                v = self.ev(fv.node.body)
                f.returns.append((self.st, v, tuple(self.loops)))
            except Dead:
                pass
            fell = False
        else:
            try:
                self.exec_block(fv.node.body)
            except Dead:
                self.st.dead = True
                fell = False
        self.collectors.pop()
        self.depth -= 1
        self.frames.pop()
        self.node = saved_node
        if fell and not self.st.dead:
            f.returns.append((self.st, None, tuple(self.loops)))
        # raised states become relative to the caller
        for exc, val, st, nd, lps in coll:
            st.rel = mul(saved_rel, st.rel)
            if self.collectors:
                self.collectors[-1].append((exc, val, st, nd, lps))
        if not f.returns:
            self.st.dead = True
            self.st.rel = saved_rel
            raise Dead()
        st, v = self.fold_states([(s, v) for s, v, l in f.returns])
        st.dead = False
        self.st = st
        self.st.rel = mul(saved_rel, st.rel)
        if is_gen:
            segs = self.get(f.yields).segs
            v = self.alloc(GenV(segs, ZERO))
        self.emit('return', node, callee=fv.qual, value=v)
        return v

    def bind(self, fv, frec, args, kw, node):
        a = fv.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        nposonly = len(a.posonlyargs)
        vals = {}
        args = list(args)
        i = 0
        # positional
        while i < len(params) and args:
            seg = args[0]
            if seg[0] == 'lit':
                vals[params[i]] = seg[1]
                args.pop(0)
                i += 1
            elif seg[0] == 'if':
                c = self.truth(seg[1])
                if c is ZERO:
                    args.pop(0)
                    continue
                if c is ONE:
                    args[0:1] = list(seg[2])
                    continue
                break
            else:
                break
        if args and i < len(params):
            # symbolic remainder fills parameters
            rest = tuple(args)
            n = self.seg_len(rest)
            j = 0
            while i < len(params):
                if params[i] in kw.items:
                    break
                if i - len(params) + len(fv.defaults) >= 0:
                    d = fv.defaults[i - len(params) + len(fv.defaults)]
                    c = self.truth(lt(num(j), n))
                    vals[params[i]] = d if c is ZERO else self.join(c, self.seg_index(rest, num(j), check=False), d)
                else:
                    vals[params[i]] = self.seg_index(rest, num(j), check=False)
                i += 1
                j += 1
            args = []
            if a.vararg:
                args = list(self.models.seg_slice(self, rest, num(j), None))
        if a.vararg:
            if all(x[0] == 'lit' for x in args):
                frec.vars[a.vararg.arg] = tuple(x[1] for x in args)
            else:
                frec.vars[a.vararg.arg] = self.new_list(args, 'tuple')
        elif args:
            lits = self.flat_lits(args)
            if lits is None or lits:
                self.raise_('TypeError', ONE, node, '%s() takes %d positional arguments' % (fv.name, len(params)),
                            internal=True)
        kwn = [x.arg for x in a.kwonlyargs]
        extra = DictV({})
        for k, (v, c) in kw.items.items():
            if k in params[nposonly:]:
                if k in vals:
                    self.raise_('TypeError', c, node, '%s() got multiple values for argument %s' % (fv.name, k),
                                internal=True)
                    continue
                vals[k] = v if c is ONE else self.join(c, v, ABSENT)
            elif k in kwn:
                vals[k] = v if c is ONE else self.join(c, v, ABSENT)
            elif a.kwarg:
                extra.items[k] = (v, c)
            else:
                self.raise_('TypeError', c, node, "%s() got an unexpected keyword argument %s" % (fv.name, k),
                            internal=True)
        rest_kw = kw.rest
        if rest_kw is not None:
            extra.rest = rest_kw
        extra.each = tuple(kw.each)
        if a.kwarg:
            frec.vars[a.kwarg.arg] = self.alloc(extra)
        nd = len(params) - len(fv.defaults)
        for i, p in enumerate(params):
            d = fv.defaults[i - nd] if i >= nd else ABSENT
            v = vals.get(p, ABSENT)
            v = self.fill_default(v, d, fv, p, node)
            frec.vars[p] = v
        for p in kwn:
            d = fv.kwdefaults.get(p, ABSENT)
            frec.vars[p] = self.fill_default(vals.get(p, ABSENT), d, fv, p, node)
        return True

    def fill_default(self, v, d, fv, p, node):
        if v is ABSENT:
            if d is ABSENT:
                self.raise_('TypeError', ONE, node, '%s() missing required argument %s' % (fv.name, p), internal=True)
            return d
        if isinstance(v, T) and v.op == 'ite' and v.args[2] is ABSENT:
            if d is ABSENT:
                self.raise_('TypeError', not_(v.args[0]), node, '%s() missing required argument %s' % (fv.name, p),
                            internal=True)
                return v.args[1]
            return self.join(v.args[0], v.args[1], d)
        return v

    def e_Lambda(self, e):
        fr = self.frames[-1]
        fv = FuncVal(e, fr.module, ref(fr.oid), '<lambda>', [self.ev(d) for d in e.args.defaults])
        fv.qual = (fr.fv.qual if fr.fv else fr.module) + '.<lambda>'
        return func(fv)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        f = self.frames[-1]
        v = self.snapshot(v)
        rec = self.w(f.yields)
        rec.segs = rec.segs + (('lit', v),)
        return None

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        f = self.frames[-1]

        def go(v):
            segs = self.iter_segs(v)
            if segs is None:
                k, size = new_axis(fresh('?n', int=True, nonneg=True, kind='num'), 'k')
                segs = (('each', k, size, (('lit', self.unknown('item', v, atom(k))),)),)
            rec = self.w(f.yields)
            rec.segs = rec.segs + tuple(segs)
        self.cases(v, go)
        return None

    def snapshot(self, v):
        """Lists yielded by generators are captured by value."""
        if self.is_ref(v, ListV):
            rec = self.get(v)
            return self.alloc(ListV(self.simp_segs(rec.segs), rec.kind))
        if isinstance(v, tuple):
            return tuple(self.snapshot(x) for x in v)
        return v

    def simp_segs(self, segs):
        out = []
        for s in segs:
            if s[0] == 'if':
                c = self.truth(s[1])
                if c is ONE:
                    out.extend(self.simp_segs(s[2]))
                elif c is not ZERO:
                    out.append(('if', s[1], s[2]))
            else:
                out.append(s)
        return tuple(out)

    def e_JoinedStr(self, e):
        r = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                r = self.models.str_cat(r, v.value)
            else:
                x = self.ev(v.value)
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant))
                r = self.models.str_cat(r, self.models.fmt_value(self, spec, x))
        return r

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.cases(o, lambda o: self.getattr(o, e.attr, e))

    def getattr(self, o, name, node=None):
        return self.models.getattr_(self, o, name, node or self.node)

    def setattr(self, o, name, v):
        return self.models.setattr_(self, o, name, v)

    def ev_index(self, e):
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x) for x in e.elts)
        return self.ev(e)

    def e_Slice(self, e):
        return mk('slice', *[self._hash(self.ev(x)) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def _hash(self, v):
        return v

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev_index(e.slice)
        return self.cases(o, lambda o: self.cases(i, lambda i: self.getitem(o, i, e)))

    def getitem(self, o, i, node):
        return self.models.getitem(self, o, i, node)

    def setitem(self, o, i, v, node):
        return self.models.setitem(self, o, i, v, node)

    # -- comprehensions

    def e_ListComp(self, e):
        return self.new_list(self.comp(e, lambda: (('lit', self.ev(e.elt)),)))

    def e_SetComp(self, e):
        return self.new_list(self.comp(e, lambda: (('lit', self.ev(e.elt)),)), 'set')

    def e_GeneratorExp(self, e):
        segs = self.comp(e, lambda: (('lit', self.ev(e.elt)),))
        return self.alloc(GenV(segs, ZERO))

    def e_DictComp(self, e):
        segs = self.comp(e, lambda: (('lit', (self.ev(e.key), self.ev(e.value))),))
        return self.models.dict_from_pairs(self, segs)

    def comp(self, e, elt):
        """Evaluate a comprehension to segments, as a loop appending to a list."""
        out = self.new_list(())
        saved = dict(self.get(ref(self.frames[-1].oid)).vars)
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        f = self.frames[-1]
        added = names - f.locals_
        f.locals_ = f.locals_ | names if f.fv is not None else f.locals_

        def level(i):
            if i == len(e.generators):
                segs = elt()
                rec = self.w(out)
                rec.segs = rec.segs + segs
                return
            g = e.generators[i]
            it = self.ev(g.iter)

            def body(v):
                self.assign(g.target, v)

                def conds(j):
                    if j == len(g.ifs):
                        level(i + 1)
                        return
                    c = self.truth(self.ev(g.ifs[j]))
                    self.branch(c, lambda: conds(j + 1), lambda: None)
                conds(0)

            def run(it):
                segs = self.iter_segs(it)
                if segs is None:
                    self.note('iteration over unknown %s' % show_val(it))
                    k, size = new_axis(fresh('?n', int=True, nonneg=True, kind='num'), 'k')
                    segs = (('each', k, size, (('lit', self.unknown('item', it, atom(k))),)),)
                loop = Loop(None, None, None, e)
                self.iterate(segs, body, loop, e)
                if self.st.dead:
                    raise Dead()
            self.cases(it, run)
        try:
            level(0)
        finally:
            f.locals_ = f.locals_ - added
        rec = self.w(ref(f.oid))
        for n in names:
            if n in saved:
                rec.vars[n] = saved[n]
            else:
                rec.vars.pop(n, None)
        return self.get(out).segs

    # --------------------------------------------------------- sequences

    def iter_segs(self, v):
        """Segments of an iterable, or None if unknown. Consumes iterators."""
        return self.models.iter_segs(self, v)

    def flat_lits(self, segs):
        """Python list of values if the segments are all literal (under the guard)."""
        if segs is None:
            return None
        out = []
        for s in segs:
            if s[0] == 'lit':
                out.append(s[1])
            elif s[0] == 'if':
                c = self.truth(s[1])
                if c is ZERO:
                    continue
                if c is not ONE:
                    return None
                r = self.flat_lits(s[2])
                if r is None:
                    return None
                out.extend(r)
            elif s[0] == 'each':
                n = const_value(s[2])
                if n is None or n > self.unroll:
                    return None
                for i in range(int(n)):
                    r = self.flat_lits(self.inst_segs(s[3], s[1], num(i)))
                    if r is None:
                        return None
                    out.extend(r)
            else:
                return None
        return out

    def seg_len(self, segs):
        n = ZERO
        for s in segs:
            if s[0] == 'lit':
                n = add(n, ONE)
            elif s[0] == 'if':
                n = add(n, mul(s[1], self.seg_len(s[2])))
            elif s[0] == 'each':
                inner = self.seg_len(s[3])
                if s[1] in syms(inner):
                    n = add(n, rsum((s[1],), (s[2],), inner))
                else:
                    n = add(n, mul(s[2], inner))
            elif s[0] == 'mu':
                n = add(n, atom(mk('app', 'mulen', s[1])))
            else:
                return atom(app_raw('?len'))
        return n

    def seg_nonempty(self, segs):
        n = self.seg_len(segs)
        return not_(cmp_eq0(n))

    def seg_index(self, segs, i, check=True):
        """Element at index i (term)."""
        i = as_num(i)
        ci = const_value(i)
        segs = [s for s in segs]
        if ci is not None and ci < 0 and len(segs) >= -ci and all(s[0] == 'lit' for s in segs[int(ci):]):
            return segs[int(ci)][1]
        if check:
            n = self.seg_len(segs)
            s = sign_set(i)
            if s == {'-'}:
                i = add(n, i)
                ci = const_value(i)
        if ci is not None and all(s[0] == 'lit' for s in segs):
            if 0 <= ci < len(segs):
                return segs[int(ci)][1]
            self.raise_('IndexError', ONE, None, 'index out of range')
        pos = ZERO
        for s in segs:
            if s[0] == 'lit':
                d = sub(i, pos)
                c = self.truth(cmp_eq0(d))
                if c is ONE:
                    return s[1]
                if c is ZERO:
                    pos = add(pos, ONE)
                    continue
                rest = segs[segs.index(s) + 1:]
                if any(q in ('IndexError', 'LookupError') for ns in self.try_names for q in ns):
                    return self.branch(c, lambda: s[1], lambda: self.seg_index(rest, sub(d, ONE), check=False))
                if not rest:
                    return s[1]     # the only place left, when it is not outside
                return self.join(c, s[1], self.seg_index(rest, sub(d, ONE), check=False))
            if s[0] == 'if':
                c = self.truth(s[1])
                if c is ZERO:
                    continue
                rest = list(s[2]) + segs[segs.index(s) + 1:]
                if c is ONE:
                    return self.seg_index(rest, sub(i, pos), check=False)
                return self.branch(c, lambda: self.seg_index(rest, sub(i, pos), check=False),
                                   lambda: self.seg_index(segs[segs.index(s) + 1:], sub(i, pos), check=False))
            if s[0] == 'each':
                inner = self.seg_len(s[3])
                rest = segs[segs.index(s) + 1:]
                d = sub(i, pos)
                if inner is ONE:
                    inside = ONE if not rest else self.truth(lt(d, s[2]))
                    if inside is ONE:
                        if check and const_value(s[2]) is None and const_value(d) is not None:
                            pass
                        r = self.inst_segs(s[3], s[1], d)
                        return self.seg_index(r, ZERO, check=False)
                    if inside is ZERO:
                        pos = add(pos, s[2])
                        continue
                    return self.branch(inside,
                                       lambda: self.seg_index(self.inst_segs(s[3], s[1], d), ZERO, check=False),
                                       lambda: self.seg_index(rest, sub(d, s[2]), check=False))
                if s[1] not in syms(inner) and const_value(inner) not in (None, 0):
                    q = floor(div(d, inner))
                    return self.seg_index(self.inst_segs(s[3], s[1], q), sub(d, mul(q, inner)), check=False)
                return self.unknown('list index', mk('segs', self.freeze_segs(segs)), i)
            return self.unknown('list index')
        if not segs:
            self.raise_('IndexError', ONE, None, 'index out of range')
        return self.unknown('list index')

    def inst_segs(self, segs, k, i):
        """Instantiate segments of a loop body at k := i."""
        if i is not None and single_atom(as_num(i)) is k:
            return tuple(segs)
        memo = {}
        return tuple(self.inst(s, k, as_num(i), memo) for s in segs)

    def inst(self, v, k, i, memo):
        """Copy of a value with k := i; objects depending on k are cloned."""
        if isinstance(v, tuple):
            if v and v[0] == 'each' and len(v) == 4 and isinstance(v[1], T):
                if v[1] is k:
                    return ('each', v[1], subst(v[2], {k: i}), v[3])
                n = subst(v[2], {k: i})
                if n is not v[2]:
                    # the bound variable ranges over another set
                    k2 = axis_like(v[1], n)[0]
                    return ('each', k2, n, tuple(self.inst(x, k, i, memo) for x in self.inst_segs(v[3], v[1], atom(k2))))
                return ('each', v[1], n, tuple(self.inst(x, k, i, memo) for x in v[3]))
            return tuple(self.inst(x, k, i, memo) for x in v)
        if not isinstance(v, T):
            return v
        if v.op == 'ref':
            return self.inst_ref(v, k, i, memo)
        refs = term_refs(v)
        if refs:
            m = {k: i}
            for r in refs:
                m[r] = self.inst_ref(r, k, i, memo)
            return subst(v, m)
        return subst(v, {k: i})

    def depends(self, r, k, seen=None):
        """Whether an object belongs to iteration k."""
        return k in self.born.get(r.args[0], ())

    def inst_ref(self, r, k, i, memo):
        if r in memo:
            return memo[r]
        if not self.depends(r, k):
            return r
        rec = self.st.heap.get(r.args[0])
        if rec is None:
            return r
        key = ('inst', r.args[0], k, i)
        nr = self.alloc(None)
        # the clone belongs to the loops of i
        self.born[nr.args[0]] = tuple(x for x, s in self.loops) + tuple(
            x for x in self.born[r.args[0]] if x is not k and x not in [y for y, s in self.loops])
        memo[r] = nr
        self.put(nr, self.inst_rec(rec, k, i, memo))
        return nr

    def inst_rec(self, rec, k, i, memo):
        g = lambda v: self.inst(v, k, i, memo)
        if isinstance(rec, ListV):
            return ListV(tuple(g(s) for s in rec.segs), rec.kind)
        if isinstance(rec, GenV):
            return GenV(tuple(g(s) for s in rec.segs), g(rec.pos))
        if isinstance(rec, DictV):
            return DictV({g(kk): (g(v), g(c)) for kk, (v, c) in rec.items.items()}, g(rec.rest), g(rec.each))
        if isinstance(rec, InstV):
            return InstV(rec.cls, {a: g(v) for a, v in rec.attrs.items()})
        if isinstance(rec, CellV):
            return CellV({a: g(v) for a, v in rec.attrs.items()})
        if isinstance(rec, BufV):
            m = {k: i}
            axes = []
            for v, s in rec.axes:
                n = subst(s, m)
                if n is not s:
                    v2 = axis_like(v, n)[0]
                    memo['axis', v] = v2
                    v = v2
                axes.append((v, n))
            for v, s in rec.axes:
                if ('axis', v) in memo:
                    m[v] = atom(memo['axis', v])
            return BufV({l: subst(b, m) for l, b in rec.fields.items()},
                        tuple(axes), subst(rec.filt, m), rec.dtypes,
                        subst_any(rec.order, m))
        if isinstance(rec, ViewV):
            m = {k: i}
            nb = g(rec.buf)
            dims = []
            mm = dict(m)
            for d in rec.dims:
                nd = []
                for v, s in d:
                    n = subst(s, m)
                    if n is not s:
                        v2 = memo.get(('axis', v))
                        if v2 is None:
                            v2 = axis_like(v, n)[0]
                        mm[v] = atom(v2)
                        v = v2
                    nd.append((v, n))
                dims.append(tuple(nd))
            return ViewV(nb, rec.field, tuple(dims),
                         tuple((memo.get(('axis', v), v), subst(t, mm)) for v, t in rec.mapping), rec.extra)
        if isinstance(rec, FrameV):
            return FrameV({a: g(v) for a, v in rec.vars.items()}, rec.parent, rec.module)
        if isinstance(rec, FileV):
            f = FileV(g(rec.path), rec.mode)
            return f
        return rec

    # ------------------------------------------------------------ arrays

    def arr(self, r):
        """ArrVal of an ndarray object."""
        v = self.get(r)
        b = self.get(v.buf)
        m = dict(v.mapping)
        if all(single_atom(t) is bv for bv, t in v.mapping):
            m = {}
        if v.field is not None:
            fields = {None: subst(b.fields[v.field], m)}
            dt = {None: b.dtypes.get(v.field)}
        else:
            fields = {l: subst(x, m) for l, x in b.fields.items()}
            dt = b.dtypes
        return ArrVal(v.dims, fields, subst(b.filt, m), dt, b.order)

    def new_arr(self, a):
        """Allocate an ndarray object for an ArrVal."""
        axes = a.axes
        buf = self.alloc(BufV(dict(a.fields), tuple(axes), a.filt, dict(a.dtypes), a.order))
        return self.alloc(ViewV(buf, None, tuple(a.dims), tuple((v, atom(v)) for v, s in axes)))

    # ------------------------------------------------------------ freeze

    def freeze(self, v, seen=()):
        """Reference free, hashable snapshot of a value."""
        if isinstance(v, tuple):
            return tuple(self.freeze(x, seen) for x in v)
        if isinstance(v, ArrVal):
            return self.freeze_arr(v)
        if not isinstance(v, T):
            return v
        if v.op == 'ref':
            if v in seen:
                return mk('cycle')
            seen = seen + (v,)
            rec = self.st.heap.get(v.args[0])
            if isinstance(rec, (ListV, GenV)):
                return mk('list', self.freeze_segs(rec.segs, seen))
            if isinstance(rec, DictV):
                return mk('dict', tuple((self.freeze(k, seen), self.freeze(x, seen), c) for k, (x, c) in rec.items.items()),
                          rec.rest if rec.rest is None or isinstance(rec.rest, T) else None)
            if isinstance(rec, ViewV):
                return self.freeze_arr(self.arr(v))
            if isinstance(rec, InstV):
                return mk('inst', rec.cls.qual, tuple((k, self.freeze(x, seen)) for k, x in sorted(rec.attrs.items())))
            if isinstance(rec, FileV):
                return mk('file', self.freeze(rec.path, seen))
            return mk('obj', v.args[0])
        refs = term_refs(v)
        if refs:
            return subst(v, {r: self.freeze(r, seen) for r in refs})
        return v

    def freeze_segs(self, segs, seen=()):
        out = []
        for s in segs:
            if s[0] == 'lit':
                out.append(('lit', self.freeze(s[1], seen)))
            elif s[0] == 'if':
                out.append(('if', s[1], self.freeze_segs(s[2], seen)))
            elif s[0] == 'each':
                out.append(('each', s[1], s[2], self.freeze_segs(s[3], seen)))
            else:
                out.append(s)
        return tuple(out)

    def freeze_arr(self, a):
        return mk('arr', tuple(tuple(d) for d in a.dims), tuple(sorted(
            ((l or '', b) for l, b in a.fields.items()), key=lambda x: x[0])), a.filt)


# ------------------------------------------------------------- helpers

_refs_cache = {}


def term_refs(t):
    """ref terms inside a term."""
    r = _refs_cache.get(t)
    if r is None:
        if t.op == 'ref':
            r = (t,)
        elif t.op == 'sym':
            r = ()
        else:
            s = []
            for c in children(t):
                for x in term_refs(c):
                    if x not in s:
                        s.append(x)
            r = tuple(s)
        _refs_cache[t] = r
    return r


def subst_any(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, tuple):
        return tuple(subst_any(x, m) for x in v)
    return v


_locals_cache = {}


def local_names(node):
    """Names bound in a function body (not in nested scopes)."""
    r = _locals_cache.get(node)
    if r is not None:
        return r
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    if not isinstance(node, ast.Lambda):
        glob = set()

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.add(n.name)
                for d in n.decorator_list:
                    walk(d)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add(al.asname or al.name.split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c)
        for s in node.body:
            walk(s)
        names -= glob
    _locals_cache[node] = names
    return names


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r


def show_val(v):
    if isinstance(v, T):
        return show(v)
    return repr(v)
