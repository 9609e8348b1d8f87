"""Text tables: the text every command writes to its table is reassembled from
the effect trace (file openings and writes in program order, with their
conditions and loops, for all inputs). Nothing written is truncated again;
description lines are comments; the column legend is written once and before
the rows; every row is one complete line with a number for each announced
column; the numbers are the times and values the command returns."""

from ..core import *
from ..inputs import *
from ..effects import *
from ..system import *


def tables(I):
    """path -> events (open, write) in program order."""
    out = {}
    for e in I.trace:
        if e.kind in ('open', 'write'):
            p = calm(e.data.get('path'))
            if e.kind == 'open' and e.data.get('mode') == 'r' or e.kind == 'write' and e.data.get('mode') == 'r':
                continue
            if p is None:
                continue
            out.setdefault(p, []).append(e)
    return out


def kept(c, name, path, events):
    """No opening destroys text of the same run."""
    n = 0
    for i, e in enumerate(events):
        if not truncating(e):
            continue
        n += 1
        g = calm(e.guard)
        if g is ZERO:
            continue
        bad, unsure = None, False
        for j, w in enumerate(events):
            if w.kind != 'write':
                continue
            common = [k for k, s in e.loops if any(k is v for v, _ in w.loops)]
            if j > i and not common:
                continue
            h = g
            if j > i:
                k = common[-1]
                h = subst(g, {k: add(atom(k), ONE)})
                h = mul(h, calm(w.guard))
            else:
                h = mul(g, calm(w.guard)) if not (set(k for k, _ in w.loops) - set(k for k, _ in e.loops)) else g
            if h is not ZERO and sat(h):
                if has_unknown(h):
                    unsure = True
                else:
                    bad = w
                    break
        c.ob('text-kept', e, False if bad is not None else None if unsure else True,
             '%s: the table is truncated after text was written to it' % name, 'text-kept@%s' % e.func)
    return n


def check_lines(c, name, lines, values=None, where=None):
    legend = None
    rows = 0
    for l in lines:
        k = l.comment()
        if k:
            t = l.text()
            if t.startswith('#') and t.strip('# '):
                last = l
            if k and t.strip('#').strip():
                if rows and not l.loops and t.startswith('#'):
                    c.ob('comments-before-rows', l.event, False, '%s: %s' % (name, t[:80]), 'comments-before-rows@%s' % l.event.func)
                legend = l
            if not l.ended:
                c.ob('line-ended', l.event, False, '%s: %s' % (name, t[:80]), 'line-ended@%s' % l.event.func)
            continue
        if k is None:
            c.ob('rows-are-numbers', l.event, None, '%s: %s' % (name, l.text()[:80]))
            continue
        cols = l.columns()
        if isinstance(l.first(), str) and cols is not None and (not cols or isinstance(cols[0], str)):
            # text which is neither a comment nor a number
            c.ob('description-is-comment', l.event, False, '%s: %s' % (name, l.text()[:80]), 'description-is-comment@%s' % l.event.func)
            continue
        rows += 1
        c.ob('row-ended', l.event, l.ended, '%s: %s' % (name, l.text()[:80]), 'row-ended@%s' % l.event.func)
        if legend is None:
            c.ob('legend-before-rows', l.event, False, '%s: no line announces the columns' % name, 'legend-before-rows@%s' % l.event.func)
        elif cols is None or l.mixed:
            c.ob('columns', l.event, None, '%s: %s' % (name, l.text()[:80]))
        else:
            n = legend_columns(legend.text())
            c.ob('columns', l.event, len(cols) in n, '%s: %d columns, announced are %d: %s' % (name, len(cols), max(n), legend.text()[:80]), 'columns@%s' % l.event.func)
            # the legend is written when the first row is
            if legend.loops and l.loops:
                k = l.loops[-1][0]
                once = legend.guard
                twice = mul(next_iteration(once, k), once)
                c.ob('legend-once', legend.event, True if twice is ZERO or not sat(twice) else None if has_unknown(twice) else False,
                     '%s: %s' % (name, legend.text()[:60]), 'legend-once@%s' % legend.event.func)
                first = mul(first_iteration(l.guard, k), not_(first_iteration(once, k)))
                c.ob('legend-before-rows', legend.event, True if first is ZERO or not sat(first) else None if has_unknown(first) else False,
                     '%s: the first row has no legend' % name, 'legend-before-rows@%s' % legend.event.func)
            if values:
                values(c, name, l, cols)
    return rows


def same_column(c, name, l, what, got, want, guard):
    v, w = compare_values(calm(got), calm(want), guard)
    c.ob('rows-as-returned', l.event, v, '%s: column %s: %s' % (name, what, w), 'rows-as-returned@%s' % l.event.func)


def item(v, k):
    """Element of a returned list at iteration k; None if unknown."""
    if not (isinstance(v, T) and v.op == 'list'):
        return None
    segs = v.args[0]
    if len(segs) != 1 or segs[0][0] != 'each':
        return None
    _, a, n, inner = segs[0]
    while len(inner) == 1 and inner[0][0] == 'if':
        inner = inner[0][2]
    if len(inner) == 1 and inner[0][0] == 'lit':
        return subst_any(inner[0][1], {a: atom(k)})
    return None


def returned(I, r, pick):
    """Comparison of the rows with the returned lists pick(value) = columns."""
    r = I.freeze(r)

    def values(c, name, l, cols):
        if not l.loops:
            return
        k = l.loops[-1][0]
        wants = pick(r)
        if wants is None or len(wants) != len(cols):
            c.ob('rows-as-returned', l.event, None, name)
            return
        for n, (p, w) in enumerate(zip(cols, wants)):
            if w is None:
                continue
            w = w(k) if callable(w) else item(w, k)
            if w is None or not (isinstance(p, T) and p.op == 'fmt'):
                c.ob('rows-as-returned', l.event, None, name)
                continue
            same_column(c, name, l, str(n + 1), p.args[1], w, l.guard)
    return values


def p_two(r):
    """(times, values)"""
    return [r[0], r[1]] if isinstance(r, tuple) and len(r) == 2 else None


def p_sample(std):
    """(times, values per label); the deviations are not returned."""
    def f(r):
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], T) and r[1].op == 'list'):
            return None
        out = [r[0]]
        for s in r[1].args[0]:
            if s[0] != 'lit':
                return None
            out.append(s[1])
            if std:
                out.append(None)
        return out
    return f


def p_edges(r):
    """(times, [[value, std] per label])"""
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], T) and r[1].op == 'list'):
        return None
    out = [r[0]]
    for s in r[1].args[0]:
        if s[0] != 'lit':
            return None

        def get(k, v=s[1]):
            x = item(v, k)
            if isinstance(x, T) and x.op == 'list' and x.args[0] and x.args[0][0][0] == 'lit':
                return x.args[0][0][1]
            return None
        out.append(get)
    return out


RETURNS = {'sample': p_sample, 'interface sample': p_two, 'contact_line sample': p_edges}
CASES = {
    'sample': [({}, p_sample(True)), (dict(sum=True), p_sample(False)), (dict(cutoff=N('co'), cutoff_label='M'), p_sample(True)),
               (dict(xlim=(N('x0'), N('x1'))), p_sample(True))],
    'contact_line sample': [({}, p_edges), (dict(rolling=True, average=num(2)), p_edges), (dict(sum=True, average=num(3)), p_edges)],
    'interface sample': [({}, p_two)],
    'spreading collect': [({}, None)],
    'spreading view': [({}, None)],
    'spreading fit': [({}, None)],
}


def commands(c):
    for n in sorted(CASES):
        for opts, pick in CASES[n]:
            name = n + (' with %s' % ', '.join(sorted(opts)) if opts else '')
            prep = stub_averaged if n == 'contact_line sample' else None
            try:
                I, r = COMMANDS[n].run(c, quiet=True, prepare=prep, **opts)
            except Missing as e:
                c.missing.append(str(e))
                continue
            anything = False
            for path, events in tables(I).items():
                kept(c, name, path, events)
                lines = text_lines([e for e in events if e.kind == 'write'])
                if lines:
                    anything = True
                rows = check_lines(c, name, lines, returned(I, r, pick) if pick and r is not None else None)
                c.ob('has-rows', c.loc(COMMANDS[n].module, COMMANDS[n].func), True if rows else None, name)
            if not anything:
                c.ob('table-written', c.loc(COMMANDS[n].module, COMMANDS[n].func), None, name)


GROUPS = [commands]
