"""Parts of FlowData values for comparisons."""

from .terms import *
from .values import *


def parts(I, r):
    """Frozen parts of a FlowData value: name -> value, one entry per field; None if it is not one."""
    r = I.unwrap(I.simp(r)) if isinstance(r, T) else r
    if not I.is_ref(r, InstV):
        return None
    at = I.get(r).attrs
    out = {}
    rec = I.freeze(at.get('data'))
    if isinstance(rec, T) and rec.op == 'arr':
        for l, b in rec.args[1]:
            out['field %s' % (l or '?')] = mk('arr', rec.args[0], (('', b),), rec.args[2])
    else:
        out['data'] = rec
    for n, a in (('shape', '_shape'), ('spacing', '_bin_spacing'), ('origin', '_origin'), ('num_bins', '_num_bins')):
        out[n] = I.freeze(at.get(a))
    return out


def wanted(I, r):
    """The same for (dict of fields, shape, spacing, origin, number) of a reference definition."""
    r = I.freeze(r)
    out = {}
    for k, v, g in r[0].args[0]:
        out['field %s' % k] = v
    for n, v in zip(('shape', 'spacing', 'origin', 'num_bins'), r[1:]):
        out[n] = v
    return out


def compare_flows(c, rule, where, got, want, what, key):
    if got is None:
        c.ob(rule, where, None, what, key)
        return
    for n in sorted(set(got) | set(want)):
        if n not in want or n not in got:
            c.ob(rule, where, False if n.startswith('field') and not ('data' in got or 'data' in want) else None, '%s: %s is %s' % (what, n, 'missing' if n in want else 'not expected'), key)
            continue
        c.same(rule if n.startswith('field') else 'grid-information', where, got[n], want[n], what='%s: %s' % (what, n), key=key)
