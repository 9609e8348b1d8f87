"""Checks: obligations, verdicts, violations, evidence."""

import ast
import json
import os
import signal
import sys
import time

from .terms import *
from .terms import _depth  # noqa
from .values import *
from .prog import Program
from .interp import *
from . import arrays as A

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVENTS = ('write', 'open', 'read', 'close')


class Missing(Exception):
    """An anchored construct is not in the program any more."""


class TimeUp(BaseException):
    """The time of an evaluation or of the whole run is used up."""


CALL_SECONDS, RUN_SECONDS = 200, 720
_START = [time.time()]


def _alarm(*_):
    raise TimeUp()


def arm(seconds=None):
    left = RUN_SECONDS - (time.time() - _START[0])
    signal.setitimer(signal.ITIMER_REAL, max(0.05, min(left, seconds) if seconds else left))


def watch():
    _START[0] = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    arm()


def where_of(e):
    m = e.module
    return '%s:%s' % (m, getattr(e.node, 'lineno', '?'))


def flag(v):
    return (ONE if v else ZERO) if isinstance(v, bool) else v


class Check(object):
    """Context of one check run."""

    def __init__(self, prop, tier='quick', root='/repo'):
        self.prop = prop
        self.tier = tier
        self.program = Program(root)
        self.program.add_refs(os.path.join(VERIF, 'sa', 'refs'))
        self.cuts = {}
        self.obligations = []       # (rule, where, verdict, detail)
        self.violations = []
        self.functions = set()
        self.events = 0
        self.notes = []
        self.assumptions = []
        self.missing = []
        self.errors = []
        self.group = ''
        self._base = None

    # ------------------------------------------------------------ engine

    def interp(self, load=None):
        I = Interp(self.program)
        I.folders = self.prop == 'C02'
        I.collectors = [[]]
        # modules imported inside functions are loaded before any loop
        for m in list(load or ()) + [m for m in sorted(self.program.modules) if not m.startswith('ref.')]:
            try:
                I.module(m)
            except Dead:
                I.collectors = [[]]
        I.trace = []
        I.notes = []
        I.collectors = [[]]
        return I

    def everything(self):
        """All modules loaded (the command line interface)."""
        return self.interp(['strata.strata'])

    def fn(self, I, modname, name):
        try:
            I.module(modname)
            f = I.function(modname, name)
        except Exception:
            f = None
        if f is None:
            raise Missing('%s.%s' % (modname, name))
        I.trace = []
        return f

    def loc(self, modname, name):
        n = self.program.find(modname, name)
        m = self.program.modules.get(modname)
        return '%s:%s %s' % (m.rel if m else modname, n.lineno if n is not None else '?', name)

    def ref(self, I, modname, name):
        return self.fn(I, 'ref.' + modname, name)

    def spec(self, rule, target, refname, make, kw=None, refkw=None, load=(), hooks=None, what='', key=None, guard=ONE, post=None):
        """Obligation: target(module, name) gives the value the reference
        definition ref.<module>.<name> gives, for all inputs of make(I)."""
        loc = self.loc(*target)
        res = []
        for i, (m, n) in enumerate((target, ('ref.' + refname[0], refname[1]))):
            I = self.interp(load)
            if hooks and i == 0:
                hooks(I)
            f = self.fn(I, m, n)
            args, k = make(I)
            I.trace = []
            r = self.call(I, f, args, k)
            if post:
                r = post(I, r, args)
            res.append(I.freeze(r))
        v, w = compare_values(res[0], res[1], guard)
        self.ob(rule, loc, v, (what + ': ' if what else '') + w, key or '%s@%s' % (rule, target[1]))
        return v

    def call(self, I, f, args=(), kw=None, may_fail=False):
        """Value of an abstract call; 'absent' when no normal completion exists."""
        arm(CALL_SECONDS)
        try:
            r = I.call(f, [flag(a) for a in args], {k: flag(v) for k, v in (kw or {}).items()})
        except Dead:
            r = mk('absent')
            if not may_fail:
                self.no_value(I, f)
        except TimeUp:
            arm()
            self.errors.append('%s: time for the evaluation used up' % show_val(f)[:80])
            raise Missing('value of %s in the time given' % show_val(f)[:80])
        arm()
        self.gather(I)
        return r

    def no_value(self, I, f):
        """No execution of the analysed function ends with a value."""
        name = show_val(f)
        if 'ref.' in name or not I.collectors or not I.collectors[0]:
            return
        es = I.collectors[0]
        if has_unknown(self.escapes(I)) or self.escapes(I) is not ONE:
            return
        kinds = sorted({str(e[0]) for e in es})
        node = es[-1][3]
        where = name.replace('func(<func ', '').replace('class(<class ', '').strip('<>)')
        self.ob('completes', where, False, 'every execution ends in %s (line %s)' % (', '.join(kinds), getattr(node, 'lineno', '?')), 'completes@' + where)

    def escapes(self, I, exc=None, under=ONE):
        """Condition under which an exception leaves the analysed call."""
        r = ZERO
        for e in I.collectors[0]:
            if exc is None or e[0] == exc:
                r = or_(r, e[2].guard)
        return r

    def gather(self, I):
        for e in I.trace:
            if e.kind == 'call':
                self.functions.add('%s.%s' % (e.module, e.func) if False else str(e.data.get('name', e.func)))
            self.functions.add(str(e.func))
        for e in I.trace:
            if e.kind == 'exact' and not e.module.startswith('ref.'):
                k = (e.module, e.node.lineno, e.node.col_offset)
                self.cuts[k] = (e.func, e.node, set(e.data['quotients']) | self.cuts.get(k, (0, 0, set()))[2])
        self.events += len(I.trace)
        for n in I.notes:
            n = str(n)[:160]
            if n not in self.notes:
                self.notes.append(n)

    def rounding(self):
        """Whole numbers of steps are rounded, not cut: the floating point
        quotient of two measured lengths may fall just below its value."""
        for (modname, line, col), (func, node, quotients) in sorted(self.cuts.items()):
            m = self.program.modules.get(modname)
            if m is None:
                continue
            cut = unrounded(m.tree, node, quotients)
            self.ob('whole-quotient', '%s:%s %s' % (m.rel, line, func), not cut,
                    'a whole number of steps is cut off without rounding, from a quotient that '
                    'floating point puts just below it' if cut else '', 'whole-quotient@%s' % func)

    # -------------------------------------------------------- obligations

    def ob(self, rule, where, verdict, detail='', key=None):
        """Record an obligation; verdict True / False / None (undecided)."""
        if verdict is Verdict.EQUAL:
            verdict = True
        elif verdict is Verdict.DIFFERENT:
            verdict = False
        elif verdict is Verdict.UNKNOWN:
            verdict = None
        w = where if isinstance(where, str) else where_of(where)
        self.obligations.append((rule, w, verdict, detail))
        if verdict is False:
            k = key or '%s@%s' % (rule, w.split(':')[0])
            if not any(v['key'] == k for v in self.violations):
                self.violations.append({'key': k, 'rule': rule, 'where': w, 'detail': str(detail)[:1500]})
        return verdict

    def same(self, rule, where, got, want, guard=ONE, I=None, key=None, what=''):
        """Obligation: two values are the same."""
        v, w = compare_values(got, want, guard)
        if v != Verdict.EQUAL and guard is not ONE:
            v, w = compare_values(assume(guard, got), assume(guard, want), guard)
        self.ob(rule, where, v, (what + ': ' if what else '') + w, key)
        return v

    def done(self):
        return self.obligations


# -------------------------------------------------------------- rounding

ROUNDS = {'round', 'rint', 'around', 'round_'}
KEEPS = {'abs', 'absolute', 'fabs', 'float', 'array', 'asarray', 'nan_to_num', 'min', 'max', 'copy'}


def called(n):
    f = n.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''


def unrounded(tree, node, quotients):
    """The number cut at node comes from one of the quotients, with no
    rounding on the way."""
    if node in quotients:
        return True
    scope = None
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Module)) and any(x is node for x in ast.walk(f)):
            if scope is None or getattr(f, 'lineno', 0) >= getattr(scope, 'lineno', 0):
                scope = f
    if scope is None:
        return False
    values = {}
    for x in ast.walk(scope):
        pairs = []
        if isinstance(x, ast.Assign):
            pairs = [(t, x.value) for t in x.targets]
        elif isinstance(x, ast.AugAssign):
            pairs = [(x.target, x)]
        elif isinstance(x, (ast.For, ast.comprehension)):
            pairs = [(x.target, x.iter)]
        for t, v in pairs:
            if isinstance(t, (ast.Tuple, ast.List)):
                same = isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts)
                for i, y in enumerate(t.elts):
                    if isinstance(y, ast.Name):
                        values.setdefault(y.id, []).append(v.elts[i] if same else v)
            elif isinstance(t, ast.Name):
                values.setdefault(t.id, []).append(v)
    seen = set()
    found = [False]
    rounded = [False]

    def go(n):
        if id(n) in seen:
            return
        seen.add(id(n))
        if n in quotients:
            found[0] = True
        if isinstance(n, ast.Call):
            f = called(n)
            if f in ROUNDS:
                rounded[0] = True
            if f in KEEPS:
                for x in n.args:
                    go(x)
                if isinstance(n.func, ast.Attribute):
                    go(n.func.value)
            return
        if isinstance(n, ast.Name):
            for v in values.get(n.id, ()):
                go(v)
            return
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                go(x)
    if isinstance(node, ast.Call):
        for x in node.args:
            go(x)
        if isinstance(node.func, ast.Attribute):
            go(node.func.value)
    return found[0] and not rounded[0]


# ------------------------------------------------------------ comparison

def dims_of(t):
    return t.args[0]


def compare_arrays(a, b, guard):
    """Two frozen arrays: same shape and the same value in every element."""
    da, fa, ca = a.args
    db, fb, cb = b.args
    if len(da) != len(db):
        return Verdict.DIFFERENT, '%d dimensional array where %d dimensions are required' % (len(da), len(db))
    res = Verdict.EQUAL
    m = {}
    for x, y in zip(da, db):
        x = [ax for ax in x if ax[1] is not ONE]
        y = [ax for ax in y if ax[1] is not ONE]
        sx = ONE
        for v, s in x:
            sx = mul(sx, s)
        sy = ONE
        for v, s in y:
            sy = mul(sy, s)
        if len(x) == len(y):
            ok = True
            for (v, s), (w, u) in zip(x, y):
                d, _ = compare(s, u, guard)
                if d != Verdict.EQUAL:
                    ok = False
            if ok:
                for (v, s), (w, u) in zip(x, y):
                    m[v] = atom(w)
                continue
        d, w = compare(sx, sy, guard)
        if d != Verdict.EQUAL:
            return d, 'array size: ' + w
        # the same number of elements, another layout
        done = False
        if len(x) == 1 and len(y) >= 1:
            lin = ZERO
            for v, s in y:
                lin = add(mul(lin, s), atom(v))
            m[x[0][0]] = lin
            done = True
        elif len(y) == 1:
            rest = atom(y[0][0])
            for v, s in reversed(x[1:]):
                q = floor(div(rest, s))
                m[v] = sub(rest, mul(s, q))
                rest = q
            m[x[0][0]] = rest
            done = True
        elif len(x) == len(y) and len(x) == 2:
            lin = add(mul(atom(y[0][0]), y[1][1]), atom(y[1][0]))
            q = floor(div(lin, x[1][1]))
            m[x[1][0]] = sub(lin, mul(x[1][1], q))
            m[x[0][0]] = q
            done = True
        if not done:
            return Verdict.UNKNOWN, 'array layout'
    fa, fb = dict(fa), dict(fb)
    if set(fa) != set(fb):
        return Verdict.DIFFERENT, 'fields %s where %s are required' % (','.join(sorted(fa)), ','.join(sorted(fb)))
    for p, q in ((ca, cb),):
        v, w = compare(subst(p, m), q, guard)
        if v == Verdict.DIFFERENT:
            return v, 'selection of elements: ' + w
        if v == Verdict.UNKNOWN:
            res = v
    for k in sorted(fa):
        x = subst(fa[k], m) if isinstance(fa[k], T) else fa[k]
        v, w = compare_values(x, fb[k], mul(guard, as_num(cb)) if cb is not ONE else guard)
        if v == Verdict.DIFFERENT:
            return v, ('field %s: ' % k if k else '') + w
        if v == Verdict.UNKNOWN:
            res = v
    return res, ''


def decided(segs, guard):
    """The segments with the conditions the guard decides left out."""
    out = []
    for s in segs:
        if s[0] == 'if' and guard is not ONE:
            c = as_num(s[1])
            if not sat(mul(guard, c)):
                continue
            if not sat(mul(guard, not_(c))):
                out.extend(decided(s[2], guard))
                continue
        out.append(s)
    return tuple(out)


def align_segs(a, b, guard):
    """Compare two sequences of segments."""
    if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
        a, b = decided(a, guard), decided(b, guard)
    if len(a) != len(b):
        la = all(s[0] == 'lit' for s in a)
        lb = all(s[0] == 'lit' for s in b)
        if la and lb:
            return Verdict.DIFFERENT, '%d items where %d are required' % (len(a), len(b))
        return Verdict.UNKNOWN, 'sequence structure'
    res = Verdict.EQUAL
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return Verdict.UNKNOWN, 'sequence structure'
        if x[0] == 'lit':
            v, w = compare_values(x[1], y[1], guard)
        elif x[0] == 'if':
            v, w = compare(x[1], y[1], guard)
            if v == Verdict.EQUAL:
                v, w = align_segs(x[2], y[2], mul(guard, y[1]))
        elif x[0] == 'each':
            v, w = compare(x[2], y[2], guard)
            if v == Verdict.EQUAL:
                v, w = align_segs(subst_any(x[3], {x[1]: atom(y[1])}), y[3], guard)
            else:
                w = 'number of items: ' + w
        else:
            v, w = (Verdict.EQUAL, '') if x == y else (Verdict.UNKNOWN, '')
        if v == Verdict.DIFFERENT:
            return v, w
        if v == Verdict.UNKNOWN:
            res = v
    return res, ''


def compare_values(a, b, guard=ONE):
    """Compare two frozen values."""
    if a is b:
        return Verdict.EQUAL, ''
    if isinstance(a, T) and a.op == 'ite' or isinstance(b, T) and b.op == 'ite':
        c = a.args[0] if isinstance(a, T) and a.op == 'ite' else b.args[0]
        res = Verdict.EQUAL
        for g, v in ((mul(guard, c), 1), (mul(guard, not_(c)), 0)):
            if g is ZERO or not sat(g):
                continue
            x = _pick_(a, c, v)
            y = _pick_(b, c, v)
            r, w = compare_values(x, y, g)
            if r == Verdict.DIFFERENT:
                return r, w + ' when ' + show(g)
            if r == Verdict.UNKNOWN:
                res = r
        return res, ''
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return Verdict.DIFFERENT, '%d items where %d are required' % (len(a), len(b))
        res = Verdict.EQUAL
        for x, y in zip(a, b):
            v, w = compare_values(x, y, guard)
            if v == Verdict.DIFFERENT:
                return v, w
            if v == Verdict.UNKNOWN:
                res = v
        return res, ''
    if isinstance(a, T) and isinstance(b, T):
        if a.op == 'arr' and b.op == 'arr':
            return compare_arrays(a, b, guard)
        if a.op == 'list' and b.op == 'list':
            return align_segs(a.args[0], b.args[0], guard)
        if a.op == 'dict' and b.op == 'dict':
            return compare_dicts(a, b, guard)
        if a.op == 'inst' and b.op == 'inst':
            if a.args[0] != b.args[0]:
                return Verdict.DIFFERENT, '%s where %s is required' % (a.args[0], b.args[0])
            x, y = dict(a.args[1]), dict(b.args[1])
            res = Verdict.EQUAL
            for k in y:
                if k not in x:
                    return Verdict.UNKNOWN, 'attribute %s' % k
                v, w = compare_values(x[k], y[k], guard)
                if v == Verdict.DIFFERENT:
                    return v, 'attribute %s: %s' % (k, w)
                if v == Verdict.UNKNOWN:
                    res = v
            return res, ''
        if a.op == 'nt' and b.op == 'nt':
            return compare_values(a.args[1], b.args[1], guard)
    struct = ('arr', 'list', 'dict', 'inst', 'nt', 'file', 'obj', 'cycle', 'func', 'bound')
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and x.op in struct or isinstance(x, tuple):
            if isinstance(y, T) and (has_unknown(y) or y.op in ('ref', 'item')):
                return Verdict.UNKNOWN, ''
            if isinstance(x, T) and x.op == 'list' and isinstance(y, tuple):
                segs = x.args[0]
                ys = tuple(('lit', v) for v in y)
                return align_segs(segs, ys, guard) if x is a else align_segs(ys, segs, guard)
            if y is None or isinstance(y, (str, bool)) or isinstance(y, T) and y.op == 'num' and const_value(y) is not None:
                return Verdict.DIFFERENT, '%s where %s is required' % (brief(a), brief(b))
            if isinstance(y, T) and y.op in struct and x.op != y.op and {x.op, y.op} <= {'arr', 'dict', 'inst'}:
                return Verdict.DIFFERENT, '%s where %s is required' % (brief(a), brief(b))
            if isinstance(x, T) and x.op == 'arr' and not x.args[0] and isinstance(y, T):
                f = dict(x.args[1])
                if '' in f and len(f) == 1:
                    return compare_values(f[''], y, guard) if x is a else compare_values(y, f[''], guard)
            return Verdict.UNKNOWN, '%s vs %s' % (brief(a), brief(b))
    return compare(a, b, guard)


def compare_dicts(a, b, guard):
    ia, ib = list(a.args[0]), list(b.args[0])
    da = {k: (v, c) for k, v, c in ia}
    db = {k: (v, c) for k, v, c in ib}
    res = Verdict.EQUAL
    if a.args[1] is not b.args[1]:
        res = Verdict.UNKNOWN
    for k in list(db) + [k for k in da if k not in db]:
        va, c1 = da.get(k, (None, ZERO))
        vb, c2 = db.get(k, (None, ZERO))
        v, w = compare(c1, c2, guard)
        if v == Verdict.DIFFERENT:
            if res == Verdict.UNKNOWN:
                return Verdict.UNKNOWN, ''
            return v, 'key %s present: %s' % (show_key(k), w)
        if v == Verdict.UNKNOWN:
            res = v
            continue
        if c2 is ZERO:
            continue
        v, w = compare_values(va, vb, mul(guard, c2))
        if v == Verdict.DIFFERENT:
            return v, 'key %s: %s' % (show_key(k), w)
        if v == Verdict.UNKNOWN:
            res = v
    return res, ''


def show_key(k):
    return show(k) if isinstance(k, T) else str(k)


def _pick_(t, c, v):
    if isinstance(t, T) and t.op == 'ite' and t.args[0] is c:
        return t.args[1] if v else t.args[2]
    return t


def brief(v, n=160):
    s = show_val(v)
    return s if len(s) <= n else s[:n] + '...'
