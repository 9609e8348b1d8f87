"""Calls captured during an evaluation and their comparison in order."""

from .terms import *
from .values import *
from .core import compare_values, Verdict, brief, subst_any


def capture(I, name, params, result=None, tag=None):
    """Record every call of a function: arguments by parameter name."""
    tag = tag or name

    def hook(I, fv, args, kw, node):
        d = {}
        extra = []
        for i, a in enumerate(args):
            if a[0] != 'lit':
                extra.append(a)
            elif i < len(params):
                d[params[i]] = I.freeze(a[1])
            else:
                extra.append(I.freeze(a[1]))
        for k, (v, g) in kw.items.items():
            d[k] = I.freeze(v)
        I.emit('captured', node, call=tag, args=d, extra=tuple(extra))
        return result(I, args, kw) if result else None
    I.hooks[name] = hook


def captured(I, tag=None):
    return [e for e in I.trace if e.kind == 'captured' and (tag is None or e.data['call'] == tag) and sat(e.guard)]


def aligned(a, b):
    """Map of b's loop variables to a's if both are in loops over the same ranges."""
    if len(a.loops) != len(b.loops):
        return None, 'in %d loops where %d are required' % (len(a.loops), len(b.loops))
    m = {}
    for (k, n), (l, q) in zip(a.loops, b.loops):
        v, w = compare_values(n, subst_any(q, m))
        if v != Verdict.EQUAL:
            return v, 'number of repetitions: %s' % w
        m[l] = atom(k)
    return m, ''


def merged(es):
    """One event where the arguments depend on exclusive conditions."""
    return es


def compare_captured(c, rule, loc, got, want, what, key, ignore=()):
    """Obligations: the same calls in the same order with the same arguments."""
    if len(got) != len(want):
        c.ob(rule, loc, False if not got else None, '%s: %d calls where %d are required' % (what, len(got), len(want)), key)
        return
    for n, (x, y) in enumerate(zip(got, want)):
        m, w = aligned(x, y)
        if not isinstance(m, dict):
            c.ob(rule, loc, m if m is not None else None, '%s: %s' % (what, w), key)
            continue
        g = subst(y.guard, m)
        c.same('called-when-required', loc, x.guard, g, what=what, key='called-when-required@' + key)
        names = sorted((set(x.data['args']) | set(y.data['args'])) - set(ignore))
        for k in names:
            if k not in x.data['args'] or k not in y.data['args']:
                c.ob(rule, loc, None, '%s: argument %s' % (what, k), key)
                continue
            c.same(rule, loc, x.data['args'][k], subst_any(y.data['args'][k], m), guard=g, what='%s: %s' % (what, k), key=key)
