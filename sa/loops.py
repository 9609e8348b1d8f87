"""Loop summaries: closed forms of loop-carried slots."""

from fractions import Fraction
from math import gcd

from .terms import *
from .terms import _depth
from .values import *
from . import arrays as A
from .interp import Dead, Loop, term_refs, UNBOUND, ABSENT, subst_any, local_names
import ast
import itertools
import os

_mu = itertools.count()
INFSIZE = INF
DEBUG = False


def is_mu(t):
    return isinstance(t, T) and t.op == 'app' and t.args[0] in ('mu', 'mulen')


_mus_cache = {}


def mus(t):
    """Set of mu ids in a value (not following refs)."""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= mus(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    r = _mus_cache.get(t)
    if r is None:
        if t.op == 'sym':
            r = frozenset()
        else:
            r = frozenset([t.args[1]]) if is_mu(t) else frozenset()
            for c in children(t):
                r |= mus(c)
        _mus_cache[t] = r
    return r


class Slot(object):
    def __init__(self, kind, oid, key, base):
        self.kind = kind
        self.oid = oid
        self.key = key
        self.base = base
        self.id = 'm%d' % next(_mu)
        self.new = None
        self.at = None          # value at the start of iteration k
        self.final = None       # value after N iterations (as function of N)
        self.axes = ()
        self.solved = False
        self.muval = None

    def __repr__(self):
        return 'Slot(%s %s %s)' % (self.kind, self.oid, self.key)


def unrolled(I, s, limit=8):
    """Unroll a while loop whose condition is decided at every iteration."""
    base = I.st
    marks = (len(I.trace), len(I.notes), [len(f.returns) for f in I.frames], [len(c) for c in I.collectors])
    I.st = base.fork()
    loop = Loop(None, None, None, s)
    ok = False
    try:
        for n in range(limit):
            c = I.truth(I.ev(s.test))
            I.emit('while', s, cond=c)
            if c is ZERO:
                ok = True
                break
            if c is not ONE:
                break
            I.iterate((('lit', None),), lambda _: I.exec_block(s.body), loop, s)
            if I.st.dead:
                ok = True
                break
    except Dead:
        # the condition itself raises
        ok = True
        I.st.dead = True
    if ok:
        if s.orelse and not I.st.dead:
            try:
                I.exec_block(s.orelse)
            except Dead:
                I.st.dead = True
        I.join_breaks(loop)
        return True
    I.st = base
    del I.trace[marks[0]:]
    del I.notes[marks[1]:]
    for f, m in zip(I.frames, marks[2]):
        del f.returns[m:]
    for c_, m in zip(I.collectors, marks[3]):
        del c_[m:]
    return False


def run_while(I, s):
    if unrolled(I, s):
        return
    k, size = new_axis(INF, 'w')
    FACTS.info[k].pop('hi', None)
    loop = Loop(None, None, None, s)
    norm = {}

    def body(_):
        c = I.truth(I.ev(s.test))
        I.emit('while', s, cond=c)
        if c is not ONE:
            out = I.st.fork()
            out.guard = mul(out.guard, not_(c))
            out.rel = mul(out.rel, not_(c))
            if out.rel is not ZERO:
                loop.breaks.append(out)
            I.assume(c)
        I.exec_block(s.body)
    run(I, ('each', k, INF, (('lit', None),)), body, loop, s, infinite=True)
    if s.orelse and not I.st.dead:
        try:
            I.exec_block(s.orelse)
        except Dead:
            I.st.dead = True
    I.join_breaks(loop)


def run(I, seg, body, loop, node, infinite=False):
    _, k, size, inner = seg
    size = I.simp(size)
    if size is ZERO:
        return
    c = const_value(size)
    if c is not None and not infinite and c <= I.unroll:
        for i in range(int(c)):
            if I.st.dead:
                return
            I.iterate(I.inst_segs(inner, k, num(i)), body, loop, node)
        return
    if any(x is k for x, s in I.loops):
        k2 = axis_like(k, size)[0]
        inner = I.inst_segs(inner, k, atom(k2))
        k = k2
    base = I.st
    fr = I.frames[-1]
    slots = {}
    outer_breaks = loop.breaks
    mark = I.next_oid
    closed = {}
    refined = False
    I.nloops += 1
    for attempt in range(8):
        st = base.fork()
        I.st = st
        st.rel = ONE
        loop.breaks = []
        tmark = len(I.trace)
        nmark = len(I.notes)
        rmarks = [len(f.returns) for f in I.frames]
        cmarks = [len(c) for c in I.collectors]
        omark = I.next_oid
        for sl in slots.values():
            install(I, sl)
            if sl.id in closed:
                write_slot(I, I.st, sl, closed[sl.id])
        lmark = I.nloops
        I.loops.append((k, size))
        try:
            I.iterate(inner, body, loop, node)
        except Dead:
            I.st.dead = True
        I.loops.pop()
        end = I.st
        # every state which went around: fallthrough only; exits also reveal writes
        states = [end] if not end.dead else []
        exits = [b for b in loop.breaks]
        for f, m in zip(I.frames, rmarks):
            exits += [r[0] for r in f.returns[m:]]
        new = discover(I, base, states, k, slots, omark)
        if not new:
            for oid in I.renewed:
                I.born[oid] = I.born.get(oid, ()) + (k,)
            if refined or I.nloops == lmark or end.dead:
                break
            # once more with the closed forms of the simple counters, so that
            # inner loops see how they are related
            refined = True
            closed = counters(I, slots, k, size, end)
            if not closed:
                break
        for sl in new.values():
            sl.kvar = k
        slots.update(new)
        # retry with the new loop carried slots
        del I.trace[tmark:]
        del I.notes[nmark:]
        for f, m in zip(I.frames, rmarks):
            del f.returns[m:]
        for c_, m in zip(I.collectors, cmarks):
            del c_[m:]
    else:
        I.note('loop did not stabilise', node)
    breaks = loop.breaks
    loop.breaks = outer_breaks

    # transition values
    for sl in slots.values():
        sl.new = read_slot(I, end, sl) if not end.dead else sl.muval
        if sl.id in closed and not end.dead:
            # in terms of the value at the start of the iteration
            sl.new = add(atom(mk('app', 'mu', sl.id)), sub(sl.new, closed[sl.id]))
    solve(I, slots, k, size, end)
    at = {sl.id: sl for sl in slots.values()}
    R = Rewriter(I, at, 'at')

    # exits
    rets = []
    for f, m in zip(I.frames, rmarks):
        for n in range(m, len(f.returns)):
            rets.append((f, n))
    raises = []
    for c_, m in zip(I.collectors, cmarks):
        for n in range(m, len(c_)):
            raises.append((c_, n))
    changed = set(sl.oid for sl in slots.values())

    # rewrite the states and the trace of the body by the solved slots
    for e in I.trace[tmark:]:
        e.guard = R(e.guard)
        e.loops = tuple((v, R(s)) for v, s in e.loops)
        e.data = {x: R(y) for x, y in e.data.items()}
    I.trace[tmark:] = [e for e in I.trace[tmark:] if e.guard is not ZERO and e.data.get('cond') is not ZERO]
    allstates = [end] + breaks + [f.returns[n][0] for f, n in rets] + [c_[n][2] for c_, n in raises]
    for s in allstates:
        rewrite_state(I, s, R, omark, changed)
    for f, n in rets:
        s, v, l = f.returns[n]
        f.returns[n] = (s, R(v), l)
    for c_, n in raises:
        e, v, s, nd, l = c_[n]
        c_[n] = (e, R(v), s, nd, l)

    for c_ in set(id(c) for c, n in raises):
        for c in I.collectors:
            if id(c) == c_:
                m = min(n for cc, n in raises if cc is c)
                c[m:] = [x for x in c[m:] if x[2].rel is not ZERO]
    raises = [(c, n) for c, m in zip(I.collectors, cmarks) for n in range(m, len(c))]
    conds = [b.rel for b in breaks] + [f.returns[n][0].rel for f, n in rets]
    # exceptions somebody may handle end the loop like a break
    caught = [(c_, n) for c_, n in raises if c_ is not I.collectors[0] and handled(I, c_[n][0])]
    conds += [c_[n][2].rel for c_, n in caught]
    U = ZERO
    for c_ in conds:
        U = or_(U, c_)
    save_rel = base.rel
    if U is ZERO:
        E, J = ZERO, None
    else:
        E, J = first_index(I, k, size, U, infinite or size is INF)
    # normal completion
    if (infinite or size is INF) and U is not ZERO:
        I.st = base.fork()
        I.st.dead = True
    elif infinite and U is ZERO and not any(f.yields is not None for f in I.frames[-1:]):
        I.st = base.fork()
        I.st.dead = True
        I.note('infinite loop', node)
    else:
        normal = end if not end.dead else base.fork()
        I.st = normal
        normal.dead = False
        normal.guard = mul(base.guard, not_(E))
        normal.rel = mul(save_rel, not_(E))
        if normal.guard is ZERO:
            normal.dead = True
        else:
            # the number of completed iterations: the first exit index is the
            # size when there is none
            ja = single_atom(J) if J is not None else None
            n = J if ja is not None and ja.op == 'app' and ja.args[0] == 'first' else size
            finish(I, normal, base, slots, k, n, end)
    after = I.st
    # objects made by the iterations
    for s in [after] + breaks + [f.returns[n][0] for f, n in rets] + [c_[n][2] for c_, n in raises]:
        for oid, rec in end.heap.items():
            if oid >= omark and oid not in s.heap:
                s.heap[oid] = rec
    # exits at iteration J
    for b in breaks:
        if J is None:
            continue
        I.st = b
        cond = ONE if b.rel is U else subst(b.rel, {k: J})
        b.guard = mul(mul(base.guard, E), cond)
        b.rel = mul(mul(save_rel, E), cond)
        exit_state(I, b, slots, k, J)
        b.dead = False
        loop.breaks.append(b)
    for f, n in rets:
        s, v, l = f.returns[n]
        cond = ONE if s.rel is U else subst(s.rel, {k: J})
        I.st = s
        memo = {}
        s.guard = mul(mul(base.guard, E), cond)
        s.rel = mul(mul(save_rel, E), cond)
        exit_state(I, s, slots, k, J, memo)
        v = I.inst(v, k, J, memo)
        f.returns[n] = (I.st, v, l)
    for c_, n in raises:
        e, v, s, nd, l = c_[n]
        if any(c_ is x and n == y for x, y in caught) and J is not None:
            Er, Jr = E, J
            cond = ONE if s.rel is U else subst(s.rel, {k: J})
        else:
            Er, Jr = first_index(I, k, size, s.rel, infinite or size is INF)
            cond = ONE
        I.st = s
        s.guard = mul(mul(base.guard, Er), cond)
        s.rel = mul(mul(save_rel, Er), cond)
        exit_state(I, s, slots, k, Jr)
        c_[n] = (e, subst_any(v, {k: Jr}), s, nd, l)
    I.st = after


def counters(I, slots, k, size, end):
    """Closed forms (at iteration k) of the independent numeric variables."""
    r = {}
    for sl in slots.values():
        if sl.kind not in ('var', 'attr') or not is_num(sl.base) or sl.base is UNBOUND:
            continue
        new = read_slot(I, end, sl)
        if not (isinstance(new, T) and new.op == 'num'):
            continue
        ms = mus(new)
        if ms - {sl.id} or term_refs(new) or has_unknown(new):
            continue
        d = sub(new, atom(mk('app', 'mu', sl.id)))
        if sl.id in mus(d) or k in syms(d):
            continue
        r[sl.id] = add(as_num(sl.base), mul(d, atom(k)))
    return r


def exit_state(I, st, slots, k, J, memo=None):
    if J is None or single_atom(J) is k:
        return
    I.st = st
    memo = {} if memo is None else memo
    for sl in slots.values():
        rec = st.heap.get(sl.oid)
        if rec is None:
            continue
        inst_slot(I, st, sl, k, J, memo)


def inst_slot(I, st, sl, k, J, memo):
    """Substitute k := J in a changed slot of an exit state."""
    v = read_slot(I, st, sl)
    write_slot(I, st, sl, inst_value(I, v, k, J, memo, sl))


def inst_value(I, v, k, J, memo, sl):
    if sl.kind in ('list',):
        return tuple(I.inst(s, k, J, memo) for s in v)
    if sl.kind == 'dicteach':
        return I.inst(v, k, J, memo)
    return I.inst(v, k, J, memo)


# ----------------------------------------------------------------- slots

def install(I, sl):
    """Put the mu value of a slot in the current state."""
    st = I.st
    if sl.kind == 'buf':
        sl.axes = tuple(v for v, s in st.heap[sl.oid].axes)
        sl.muval = atom(mk('app', 'mu', sl.id, *[atom(v) for v in sl.axes]))
    elif sl.kind == 'list':
        sl.muval = (('mu', sl.id),)
    elif sl.kind == 'dicteach':
        sl.muval = sl.base
    elif sl.kind == 'arrvar':
        a = sl.shape
        sl.axes = tuple(v for v, s in a.axes)
        args = [atom(v) for v in sl.axes]
        fields = {l: atom(mk('app', 'mu', sl.id + ('.%s' % l if l is not None else ''), *args)) for l in a.fields}
        sl.muval = I.new_arr(ArrVal(a.dims, fields, a.filt, a.dtypes, a.order))
        sl.muref = sl.muval
    elif sl.kind == 'listvar':
        sl.muval = I.new_list((('mu', sl.id),))
    elif sl.kind == 'ntf':
        t = mk('app', 'mu', sl.id)
        sl.muval = atom(t) if is_num(sl.base) else t
    else:
        t = mk('app', 'mu', sl.id)
        sl.muval = mk('str', (t,)) if is_text(sl.base) else atom(t) if is_num(sl.base) else t
    write_slot(I, st, sl, sl.muval)


def is_text(v):
    return isinstance(v, str) or isinstance(v, T) and v.op == 'str'


def read_slot(I, st, sl):
    rec = st.heap[sl.oid]
    kd = sl.kind
    if kd in ('var', 'arrvar', 'listvar'):
        return rec.vars.get(sl.key, UNBOUND) if isinstance(rec, FrameV) else rec.attrs.get(sl.key, UNBOUND)
    if kd == 'ntf':
        vs = rec.vars if isinstance(rec, FrameV) else rec.attrs
        return nt_field(vs.get(sl.key[0], UNBOUND), sl.key[1])
    if kd == 'attr':
        return rec.attrs.get(sl.key, UNBOUND)
    if kd == 'item':
        return rec.items.get(sl.key, (ABSENT, ZERO))
    if kd == 'elem':
        return rec.segs[sl.key][1] if len(rec.segs) > sl.key and rec.segs[sl.key][0] == 'lit' else mk('app', '?elem')
    if kd == 'list':
        return rec.segs
    if kd == 'pos':
        return rec.pos
    if kd == 'buf':
        return rec.fields[sl.key]
    if kd == 'dicteach':
        return rec.each


def write_slot(I, st, sl, v):
    old, I.st = I.st, st
    r = ref(sl.oid)
    rec = st.heap[sl.oid]
    kd = sl.kind
    if isinstance(rec, GenV):
        rec = GenV(rec.segs, rec.pos)
        I.put(r, rec)
    else:
        rec = I.w(r)
    if kd in ('var', 'arrvar', 'listvar'):
        (rec.vars if isinstance(rec, FrameV) else rec.attrs)[sl.key] = v
    elif kd == 'ntf':
        vs = rec.vars if isinstance(rec, FrameV) else rec.attrs
        name, i = sl.key
        vs[name] = nt_with(vs[name], i, v)
    elif kd == 'attr':
        rec.attrs[sl.key] = v
    elif kd == 'item':
        if isinstance(v, tuple) and len(v) == 2:
            if v[1] is ZERO and v[0] is ABSENT:
                rec.items.pop(sl.key, None)
            else:
                rec.items[sl.key] = v
        else:
            rec.items[sl.key] = (v, ONE)
    elif kd == 'elem':
        segs = list(rec.segs)
        if sl.key < len(segs):
            segs[sl.key] = ('lit', v)
        rec.segs = tuple(segs)
    elif kd == 'list':
        rec.segs = tuple(v)
    elif kd == 'pos':
        rec.pos = v
    elif kd == 'buf':
        rec.fields[sl.key] = v
    elif kd == 'dicteach':
        rec.each = tuple(v)
    I.st = old


def nt_shape(v):
    """Class of a named tuple value (with cases); None if it is not one."""
    if isinstance(v, T) and v.op == 'nt':
        return v.args[0]
    if isinstance(v, T) and v.op == 'ite':
        a, b = nt_shape(v.args[1]), nt_shape(v.args[2])
        return a if a is b else None
    return None


def nt_field(v, i):
    if isinstance(v, T) and v.op == 'ite':
        return ite(v.args[0], nt_field(v.args[1], i), nt_field(v.args[2], i))
    if isinstance(v, T) and v.op == 'nt':
        return v.args[1][i]
    return mk('app', '?field', v if isinstance(v, T) else mk('py', str(v)), i)


def nt_with(v, i, x):
    if isinstance(v, T) and v.op == 'ite':
        v = nt(nt_shape(v), [nt_field(v, j) for j in range(len(nt_shape(v).fields))])
    items = list(v.args[1])
    items[i] = x
    return nt(v.args[0], items)


def renewals(I, base, states, k, have):
    """Lists every iteration replaces by an equal new one (a variable holds
    the only reference): they belong to the iteration."""
    if len(states) != 1:
        return set()
    st = states[0]
    out = {}
    for oid, rec in st.heap.items():
        old = base.heap.get(oid)
        if old is None or old is rec or not isinstance(rec, FrameV) or k in I.born.get(oid, ()):
            continue
        for key, a in old.vars.items():
            b = rec.vars.get(key)
            if a is b or (oid, key) in have or not (isinstance(a, T) and a.op == 'ref' and isinstance(b, T) and b.op == 'ref'):
                continue
            ra, rb = base.heap.get(a.args[0]), st.heap.get(b.args[0])
            if isinstance(ra, ListV) and isinstance(rb, ListV) and ra.kind == rb.kind == 'list' and ra.segs == rb.segs and \
                    k in I.born.get(b.args[0], ()) and (a.args[0], '#list') not in have:
                out[a.args[0]] = (oid, key)
    if not out:
        return set()
    # no other references to the old list
    for oid, rec in base.heap.items():
        if isinstance(rec, FrameV):
            vals = [(x, v) for x, v in rec.vars.items()]
        elif isinstance(rec, (InstV, CellV)):
            vals = [(None, v) for v in rec.attrs.values()]
        elif isinstance(rec, (ListV, GenV)):
            vals = [(None, tuple(s)) for s in rec.segs]
        elif isinstance(rec, DictV):
            vals = [(None, v) for v in rec.items.values()]
        else:
            continue
        for x, v in vals:
            for r in deep_refs(v):
                if r in out and out[r] != (oid, x):
                    out.pop(r)
    return set(out)


def deep_refs(v):
    if isinstance(v, tuple):
        return set(r for x in v for r in deep_refs(x))
    if isinstance(v, T):
        return set(x.args[0] for x in term_refs(v)) | ({v.args[0]} if v.op == 'ref' else set())
    return set()


def discover(I, base, states, k, slots, omark):
    """New loop carried slots: records of the base state which changed."""
    found = {}
    have = set((s.oid, s.key, s.kind) for s in slots.values())
    havek = set((s.oid, s.key) for s in slots.values())

    def addslot(kind, oid, key, basev, **kw):
        if (oid, key) in havek or (oid, key) in found:
            return
        sl = Slot(kind, oid, key, basev)
        for a, b in kw.items():
            setattr(sl, a, b)
        found[oid, key] = sl

    renewed = renewals(I, base, states, k, havek)
    I.renewed = renewed
    for st in states:
        for oid, rec in st.heap.items():
            old = base.heap.get(oid)
            if old is None or old is rec:
                continue
            if k in I.born.get(oid, ()) or oid in renewed:
                continue            # an object of this iteration
            if isinstance(rec, (FrameV, InstV, CellV)):
                ov = old.vars if isinstance(rec, FrameV) else old.attrs
                nv = rec.vars if isinstance(rec, FrameV) else rec.attrs
                for key in list(nv) + [x for x in ov if x not in nv]:
                    a, b = ov.get(key, UNBOUND), nv.get(key, UNBOUND)
                    if a is b or (not isinstance(a, T) and type(a) == type(b) and a == b):
                        continue
                    kind = 'var' if isinstance(rec, FrameV) else 'attr'
                    if isinstance(a, T) and a.op == 'ref' and a.args[0] in renewed:
                        continue
                    if nt_shape(a) is not None and nt_shape(a) is nt_shape(b) and (oid, key) not in havek:
                        for i in range(len(nt_shape(a).fields)):
                            x, y = nt_field(a, i), nt_field(b, i)
                            if not (x is y or not isinstance(x, T) and type(x) == type(y) and x == y):
                                addslot('ntf', oid, (key, i), x)
                        continue
                    if isinstance(a, T) and a.op == 'ref' and isinstance(b, T) and b.op == 'ref':
                        ra, rb = base.heap.get(a.args[0]), st.heap.get(b.args[0])
                        if isinstance(ra, ViewV) and isinstance(rb, ViewV):
                            save, I.st = I.st, base
                            aa = I.arr(a)
                            I.st = st
                            bb = I.arr(b)
                            I.st = save
                            if set(aa.fields) == set(bb.fields) and len(aa.dims) == len(bb.dims) and all(
                                    A.same_size(dim_size(x), dim_size(y)) for x, y in zip(aa.dims, bb.dims)) and \
                                    aa.order == bb.order:
                                addslot('arrvar', oid, key, a, shape=aa)
                                continue
                        if isinstance(ra, ListV) and isinstance(rb, ListV) and ra.kind == rb.kind:
                            if len(rb.segs) >= len(ra.segs) and rb.segs[:len(ra.segs)] == ra.segs and ra.kind == 'list':
                                addslot('listvar', oid, key, a)
                                continue
                    addslot(kind, oid, key, a)
            elif isinstance(rec, DictV):
                for key in list(rec.items) + [x for x in old.items if x not in rec.items]:
                    a = old.items.get(key, (ABSENT, ZERO))
                    b = rec.items.get(key, (ABSENT, ZERO))
                    if a[0] is b[0] and a[1] is b[1]:
                        continue
                    addslot('item', oid, key, a)
                if rec.each != old.each:
                    addslot('dicteach', oid, '#each', old.each)
            elif isinstance(rec, ListV):
                a, b = old.segs, rec.segs
                if a == b:
                    continue
                if len(a) == len(b) and all(x[0] == 'lit' for x in a) and all(x[0] == 'lit' for x in b):
                    for n, (x, y) in enumerate(zip(a, b)):
                        if x != y:
                            addslot('elem', oid, n, x[1])
                else:
                    addslot('list', oid, '#list', a)
            elif isinstance(rec, GenV):
                if rec.pos is not old.pos:
                    addslot('pos', oid, '#pos', old.pos)
            elif isinstance(rec, BufV):
                for l in rec.fields:
                    if l not in old.fields:
                        I.note('array structure changes in loop')
                        continue
                    if rec.fields[l] is not old.fields[l]:
                        addslot('buf', oid, l, old.fields[l])
    return found


# ----------------------------------------------------------------- solving

def solve(I, slots, k, size, end):
    todo = list(slots.values())
    ids = {}
    for sl in todo:
        ids[sl.id] = sl
    rounds = 0
    solved = {}
    while todo:
        rounds += 1
        progress = False
        for sl in list(todo):
            R = Rewriter(I, solved, 'at')
            new = resolve(I, sl, R, end)
            deps = set(x.split('.')[0] for x in slot_mus(I, sl, new, end)) - {sl.id}
            deps = set(d for d in deps if d in ids and d not in solved)
            if deps:
                continue
            solve_one(I, sl, new, k, size, end)
            solved[sl.id] = sl
            todo.remove(sl)
            progress = True
        if not progress:
            # cyclic dependencies: opaque
            for sl in todo:
                opaque(I, sl, k, size)
                solved[sl.id] = sl
            todo = []


def slot_mus(I, sl, new, end):
    return deep_mus(I, new, end)


def deep_mus(I, v, st, seen=None):
    """mu ids reachable from a value (through refs)."""
    seen = set() if seen is None else seen
    if isinstance(v, tuple):
        r = set()
        for x in v:
            r |= deep_mus(I, x, st, seen)
        return r
    if not isinstance(v, T):
        return {v[1]} if False else set()
    r = set(mus(v))
    for rf in term_refs(v):
        if rf in seen:
            continue
        seen.add(rf)
        rec = st.heap.get(rf.args[0])
        if isinstance(rec, (ListV, GenV)):
            r |= deep_mus(I, strip_mu(rec.segs), st, seen)
        elif isinstance(rec, DictV):
            for a, (b, c) in rec.items.items():
                r |= deep_mus(I, (a, b, c), st, seen)
        elif isinstance(rec, (InstV, CellV)):
            for b in rec.attrs.values():
                r |= deep_mus(I, b, st, seen)
        elif isinstance(rec, ViewV):
            b = st.heap.get(rec.buf.args[0])
            for x in b.fields.values():
                r |= mus(x)
            r |= mus(b.filt)
    return r


def strip_mu(segs):
    out = []
    for s in segs:
        if s[0] == 'mu':
            out.append(mk('app', 'mu', s[1]))
        elif s[0] == 'if':
            out.append((s[1], strip_mu(s[2])))
        elif s[0] == 'each':
            out.append((s[2], strip_mu(s[3])))
        else:
            out.append(s[1])
    return tuple(out)


def resolve(I, sl, R, end):
    """The transition value with the already solved slots substituted."""
    v = sl.new
    if sl.kind == 'arrvar' and I.is_ref(v, ViewV):
        save, I.st = I.st, end
        a = I.arr(v)
        I.st = save
        return ('arr', tuple(a.dims), tuple((l, R(b)) for l, b in a.fields.items()), R(a.filt))
    if sl.kind == 'listvar' and I.is_ref(v, ListV):
        return tuple(R(s) for s in end.heap[v.args[0]].segs)
    if sl.kind == 'list':
        return tuple(R(s) for s in v)
    return R(v)


def shift_down(k):
    return sub(atom(k), ONE)


def solve_one(I, sl, new, k, size, end):
    sl.solved = True
    kd = sl.kind
    if kd in ('list', 'listvar'):
        base = sl.base if kd == 'list' else None
        segs = new if isinstance(new, tuple) else None
        if kd == 'listvar':
            base = I.st.heap[sl.base.args[0]].segs if sl.base.args[0] in I.st.heap else ()
        if segs is not None and segs and segs[0] == ('mu', sl.id) and sl.id not in flat_mu(segs[1:]):
            added = segs[1:]
            ones = I.seg_len(added)
            def atv(n):
                if not added:
                    return tuple(base)
                if fact(k, 'hi', None) is None and n is not INF and single_atom(n) is not k:
                    k2 = axis_like(k, n)[0]
                    return tuple(base) + (('each', k2, n, I.inst_segs(added, k, atom(k2))),)
                return tuple(base) + (('each', k, n, added),)
            sl.atv = atv
            sl.lenat = lambda n: add(I.seg_len(base), rsum((k,), (n,), ones) if k in syms(ones) else mul(n, ones))
        elif segs is not None and sl.id not in flat_mu(segs):
            # replaced at every iteration
            sl.atv = None
            sl.repl = segs
            sl.lenat = lambda n: atom(mk('app', '?len', sl.id))
        else:
            I.note('list update in loop not solved')
            u = mk('app', '?list', sl.id)
            sl.atv = lambda n: (('each', fresh('u', int=True, nonneg=True, kind='num'), fresh('?n', int=True, nonneg=True, kind='num'), (('lit', u),)),)
            sl.lenat = lambda n: atom(mk('app', '?len', sl.id))
        return
    if kd == 'dicteach':
        return
    if kd == 'buf':
        f = solve_term(I, sl, new, k, size, sl.id, sl.base, sl.axes)
        sl.at = f
        return
    if kd == 'arrvar':
        sl.fields = {}
        if not (isinstance(new, tuple) and new and new[0] == 'arr'):
            sl.at = None
            opaque(I, sl, k, size)
            return
        save = I.st
        base = sl.shape
        newdims = new[1]
        ren = {}
        for da, db in zip(base.dims, newdims):
            if len(da) == len(db):
                for (v, s), (v2, s2) in zip(da, db):
                    ren[v2] = atom(v)
        for l, b in new[2]:
            mid = sl.id + ('.%s' % l if l is not None else '')
            sl.fields[mid] = solve_term(I, sl, subst(b, ren), k, size, mid, base.fields[l], sl.axes)
        sl.at = True
        return
    if kd == 'item':
        if isinstance(new, tuple) and len(new) == 2:
            val, cond = new
        else:
            val, cond = new, ONE
        f = solve_term(I, sl, val, k, size, sl.id, sl.base[0], ())
        sl.at = f
        sl.cond = cond
        return
    sl.at = solve_term(I, sl, new, k, size, sl.id, sl.base, ())


def flat_mu(segs):
    r = set()
    for s in segs:
        if s[0] == 'mu':
            r.add(s[1])
        elif s[0] == 'if':
            r |= flat_mu(s[2]) | set(mus(s[1]))
        elif s[0] == 'each':
            r |= flat_mu(s[3]) | set(mus(s[2]))
        else:
            r |= set(mus(s[1]))
    return r


def solve_term(I, sl, new, k, size, mid, base, axes):
    """Closed form: function n -> value at the start of iteration n."""
    mu = mk('app', 'mu', mid, *[atom(v) for v in axes]) if axes else mk('app', 'mu', mid)
    mine = lambda t: mid in mus(t)
    if not mine(new):
        dep = k in syms(new) if isinstance(new, (T, tuple)) else False
        hasref = bool(term_refs(new)) if isinstance(new, T) else isinstance(new, tuple)

        def at(n, memo=None):
            n = as_num(n)
            v = new
            if dep or hasref:
                v = I.inst(new, k, sub(n, ONE), {} if memo is None else memo)
            if base is UNBOUND or base is ABSENT:
                return v
            z = cmp_eq0(n)
            return I.join(z, base, v) if z is not ZERO else v
        return at
    if isinstance(new, T) and new.op in ('num',):
        basen = base if is_num(base) else (as_num(base) if not isinstance(base, (str, tuple)) and base is not UNBOUND and base is not ABSENT and base is not None else None)
        matom = atom(mu)
        # mu + g(k)
        if base is ZERO or base is ONE:
            # a flag: both transitions
            v0, v1 = subst(new, {mu: ZERO}), subst(new, {mu: ONE})
            if not mine(v0) and not mine(v1) and is_bool(v0) and is_bool(v1) and not term_refs(v0) and not term_refs(v1):
                from .models import exists
                if base is ZERO and v1 is ONE:
                    return lambda n, memo=None: exists(k, as_num(n), v0)
                if base is ONE and v0 is ZERO:
                    return lambda n, memo=None: not_(exists(k, as_num(n), not_(v1)))
        d = sub(new, matom)
        if basen is not None and not mine(d) and not term_refs(d):
            return lambda n, memo=None: add(basen, rsum((k,), (as_num(n),), d))
        # c*A + (1-c)*mu
        coef, rest = split_linear(new, mu)
        if basen is not None and coef is not None and not mine(coef) and not mine(rest) and is_bool(coef) and not term_refs(rest):
            c = not_(coef)          # update condition
            r = solve_store(I, c, rest, k, size, basen)
            if r is not None:
                return r
            return lambda n, memo=None: last_update(k, n, c, rest, basen)
        if basen is not None and coef is not None and not mine(coef) and rest is ZERO and not term_refs(coef):
            # product
            return lambda n, memo=None: mul(basen, product(k, n, coef))
        mm = minmax_update(new, mu, mine)
        if mm is not None and basen is not None:
            kind, g = mm
            return lambda n, memo=None: minmax_over(kind, k, n, g, basen)
    if isinstance(new, T) and new.op == 'ite':
        c, a, b = new.args
        if not mine(c):
            ua, ub = I.unwrap(a), I.unwrap(b)
            if ub is mu and not mine(a):
                return lambda n, memo=None: last_value(I, k, n, c, a, base, memo)
            if ua is mu and not mine(b):
                return lambda n, memo=None: last_value(I, k, n, not_(c), b, base, memo)
    if isinstance(new, T) and new.op == 'str' and new.args[0][0] is mk('app', 'mu', mid) and not any(mine(p) for p in new.args[0][1:] if isinstance(p, T)) \
            and not term_refs(new) and is_text(base):
        from .models import str_make
        from .text import parts
        added = str_make(list(new.args[0][1:]))

        def text(n, memo=None):
            n = as_num(n)
            if n is ZERO:
                return base
            v = axis_like(k, n)[0]
            return str_make(parts(base) + [mk('app', 'cat', v, n, subst(added, {k: atom(v)}) if isinstance(added, T) else added)])
        return text
    once = set_once(I, new, mu, mine, k) if base is None and not axes else None
    if once is not None:
        return lambda n, memo=None: first_value(I, k, n, once[0], once[1], memo)
    if os.environ.get('SA_LOOPS'):
        print('UNSOLVED', sl.key, base, new)
    I.note('loop carried value not solved: %s' % (sl.key,))
    uid = '?loop'
    return lambda n, memo=None: mk('app', uid, mid, as_num(n)) if not is_num(base) else atom(mk('app', uid, mid, as_num(n), *[atom(v) for v in axes]))


def opaque(I, sl, k, size):
    I.note('cyclic loop carried values: %s' % (sl.key,))
    sl.solved = True
    axes = sl.axes

    def at(n, memo=None):
        t = mk('app', '?loop', sl.id, as_num(n), *[atom(v) for v in axes])
        return atom(t) if is_num(sl.base) or sl.kind == 'buf' else t
    if sl.kind in ('list', 'listvar'):
        u = mk('app', '?list', sl.id)
        sl.atv = lambda n: (('each', fresh('u', int=True, nonneg=True, kind='num'), fresh('?n', int=True, nonneg=True, kind='num'), (('lit', u),)),)
        sl.lenat = lambda n: atom(mk('app', '?len', sl.id))
        return
    if sl.kind == 'arrvar':
        sl.fields = {}
        for l in sl.shape.fields:
            mid = sl.id + ('.%s' % l if l is not None else '')
            sl.fields[mid] = (lambda n, memo=None, mid=mid: atom(mk('app', '?loop', mid, as_num(n), *[atom(v) for v in axes])))
        sl.at = True
        return
    if sl.kind == 'dicteach':
        return
    if sl.kind == 'item':
        sl.cond = sl.base[1] if sl.base[1] is ONE else pred('?item', sl.id)
    sl.at = at


def split_linear(t, mu):
    """t = coef*mu + rest."""
    c, r = {}, {}
    for m, k in t.args[0]:
        dm = dict(m)
        if mu in dm:
            if dm[mu] != 1:
                return None, None
            c[tuple(x for x in m if x[0] is not mu)] = k
        else:
            r[m] = k
    from .terms import _num
    return _num(c), _num(r)


def solve_store(I, c, val, k, size, base):
    """Stores at distinct positions: c holds for at most one k, k = h."""
    h = None
    for m, co in c.args[0]:
        pass
    for l in literals(c):
        if l.op == 'zero' and k in syms(l.args[0]):
            # linear in k?
            p = l.args[0]
            co, rest = split_linear(p, k)
            if co is None or const_value(co) is None or k in syms(rest):
                continue
            # every monomial of c must contain l
            if all(any(a is l for a, e in m) for m, cc in c.args[0]):
                h = scale(neg(rest), 1 / const_value(co))
                lit = l
                break
    if h is None:
        return solve_block(I, c, val, k, size, base)
    cc = restrict(c, lit, 1)
    cc = subst(cc, {k: h})
    vv = subst(restrict(val, lit, 1), {k: h})

    def at(n, memo=None):
        n = as_num(n)
        inside = and_(not_(cmp_lt(h)), lt(h, n), cc)
        if not is_int(h):
            inside = mul(inside, eq_num(floor(h), h))
        return ite(inside, vv, base)
    return at


def solve_block(I, c, val, k, size, base):
    """Stores in consecutive blocks: c confines k to an interval of length
    one, so that a single iteration stores to the element."""
    polys = []
    for l in literals(c):
        if l.op not in ('neg', 'zero') or k not in syms(l.args[0]) or l.args[0] in [q[0] for q in polys]:
            continue
        p = l.args[0]
        co, rest = split_linear(p, k)
        if co is None or k in syms(rest):
            continue
        s = sign_set(co)
        if s not in ({'-'}, {'+'}):
            continue
        x = neg(div(rest, co))          # p has the sign of (k - x), or its negative
        polys.append((p, s == {'-'}, x, is_int(scale(p, abs_lcm(p)))))

    def with_sign(t, p, flip, s):
        """t where k - x has the sign s."""
        if flip:
            s = -s
        if not isinstance(t, T):
            return t
        t = restrict(t, mk('neg', p), 1 if s < 0 else 0)
        return restrict(t, mk('zero', p), 1 if s == 0 else 0)

    def pick(t, p1, f1, s1, p2, f2, s2):
        return with_sign(with_sign(t, p1, f1, s1), p2, f2, s2)

    for p1, f1, x1, n1 in polys:
        for p2, f2, x2, n2 in polys:
            if p1 is p2:
                continue
            gap = const_value(expand_inverses(sub(sub(x1, x2), ONE)))
            if gap != 0:
                continue
            # x1 = x2 + 1; which signs of (k - x1, k - x2) admit a store
            combos = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1)]
            on = [s for s in combos if pick(c, p1, f1, s[0], p2, f2, s[1]) is not ZERO]
            if not on:
                continue
            if set(on) <= {(-1, 1), (0, 1)}:        # x2 < k <= x1
                h, alt, which = floor(x1), (0, 1), x1
            elif set(on) <= {(-1, 0), (-1, 1)}:     # x2 <= k < x1
                h, alt, which = neg(floor(neg(x2))), (-1, 0), x2
            else:
                continue

            def value(t):
                if not isinstance(t, T):
                    return t
                a = subst(pick(t, p1, f1, -1, p2, f2, 1), {k: h})
                b = subst(pick(t, p1, f1, alt[0], p2, f2, alt[1]), {k: h})
                if a is b:
                    return a
                return ite(eq_num(h, which), b, a)
            cc, vv = value(c), value(val)

            def at(n, memo=None):
                return ite(and_(not_(cmp_lt(h)), lt(h, as_num(n)), cc), vv, base)
            return at
    return None


def abs_lcm(p):
    r = 1
    for m, c in p.args[0]:
        d = Fraction(c).denominator
        r = r * d // gcd(r, d)
    return r


def last_update(k, n, c, val, base):
    b, cb = canon_bind(k, mk('pair', c, val))
    c2, v2 = cb.args
    return atom(mk('app', 'last', b, as_num(n), c2, v2, base))


def last_value(I, k, n, c, a, base, memo):
    b, cb = canon_bind(k, c)
    n = as_num(n)
    from .models import exists
    e = exists(k, n, c)
    j = atom(mk('app', 'lastindex', b, n, cb))
    v = I.inst(a, k, j, {} if memo is None else memo)
    return I.join(e, v, base)


def set_once(I, new, mu, mine, k):
    """A value which is None until it is set, and then stays: (condition, value)."""
    c = isnone(atom(mu))
    if c is ZERO or c is ONE or not isinstance(new, T) or new.op != 'ite':
        return None

    def go(v, is_none):
        # the value in a state in which the carried one is (not) None
        v = I.unwrap(v)
        if isinstance(v, T) and v.op == 'ite':
            g = as_num(v.args[0])
            for l in literals(g):
                if l is c or atom(l) is c:
                    g = restrict(g, l, 1 if is_none else 0)
            a, b = go(v.args[1], is_none), go(v.args[2], is_none)
            return a if g is ONE else b if g is ZERO else I.join(g, a, b)
        return None if v is mu and is_none else v
    if go(new, False) is not mu:
        return None
    v = go(new, True)
    conds = []

    def split(v, g):
        if isinstance(v, T) and v.op == 'ite':
            return [x for y, h in ((v.args[1], v.args[0]), (v.args[2], not_(v.args[0]))) for x in split(I.unwrap(y), mul(g, h))]
        return [(v, g)]
    cases = [(x, g) for x, g in split(v, ONE) if g is not ZERO]
    if any(mine(g) or (isinstance(x, T) and mine(x)) for x, g in cases) or any(x is not None and isnone(x) is not ZERO for x, g in cases):
        return None
    some = [(x, g) for x, g in cases if x is not None]
    if not some:
        return None
    val = some[-1][0]
    for x, g in some[-2::-1]:
        val = I.join(g, x, val)
    return add(*[g for x, g in some]), val


def first_value(I, k, n, c, a, memo):
    n = as_num(n)
    from .models import exists
    e = exists(k, n, c)
    if c is ONE:
        j = ZERO
    else:
        b, cb = canon_bind(k, c)
        j = atom(mk('app', 'first', b, n, cb))
    if e is ZERO:
        return None
    return I.join(e, I.inst(a, k, j, {} if memo is None else memo), None)


def product(k, n, coef):
    if k not in syms(coef):
        return power(coef, n) if const_value(n) is not None else atom(mk('app', 'pow', coef, as_num(n)))
    b, cb = canon_bind(k, coef)
    return atom(mk('app', 'prod', b, as_num(n), cb))


def minmax_update(new, mu, mine):
    sa = single_atom(new)
    if sa is not None and sa.op == 'app' and sa.args[0] in ('min', 'max'):
        rest = [x for x in sa.args[1:] if single_atom(x) is not mu]
        if len(rest) == len(sa.args) - 2 and not any(mine(x) for x in rest):
            return sa.args[0], minmax(sa.args[0], *rest)
    ls = [l for l in literals(new) if mine(l)]
    if len(ls) == 1 and ls[0].op == 'neg':
        l = ls[0]
        p = l.args[0]
        yes, no = restrict(new, l, 1), restrict(new, l, 0)
        # p < 0 selects yes
        m = atom(mu)
        for g, other, flip in ((yes, no, False), (no, yes, True)):
            if other is m and not mine(g):
                # selected g when p<0 (or >=0 when flipped)
                d = sub(g, m)
                r = const_value(div(p, d)) if d is not ZERO else None
                if r is None:
                    continue
                less = (r > 0) != flip
                return ('min' if less else 'max'), g
    return None


def minmax_over(kind, k, n, g, base):
    n = as_num(n)
    if k not in syms(g):
        return minmax(kind, base, g)
    r = A._canon_reduce('r' + kind, [(k, n)], g, ONE)
    if base is INF and kind == 'min' or base is neg(INF) and kind == 'max':
        return r
    return minmax(kind, base, r)


def handled(I, exc):
    """A surrounding try has a handler for the exception."""
    from .interp import EXC_PARENTS
    names = set(n for ns in I.try_names for n in ns)
    seen = {'Exception', 'BaseException'}
    while exc and exc not in seen:
        if exc in names:
            return True
        seen.add(exc)
        exc = EXC_PARENTS.get(exc)
    return False


def first_index(I, k, size, U, infinite):
    """(exists, first index) of the exit condition U over k < size."""
    if k not in syms(U):
        if infinite:
            return ONE, ZERO
        return mul(U, not_(cmp_eq0(size))), ZERO
    # linear threshold: U = [p(k) >= 0]
    nU = not_(U)
    la = single_atom(nU)
    lb = single_atom(U)
    p = None
    if la is not None and la.op == 'neg':
        p = neg(la.args[0])          # continue while -p < 0 i.e. exits when la.args[0] >= 0
        q = la.args[0]
        strict = False
    elif lb is not None and lb.op == 'neg':
        q = neg(lb.args[0])          # exits when q > 0
        strict = True
    else:
        q = None
        # exits when [x <= 0] or [x >= 0] as neg + zero
        items = U.args[0]
        if len(items) == 2 and all(c == 1 and len(m) == 1 for m, c in items):
            a, b = items[0][0][0][0], items[1][0][0][0]
            if {a.op, b.op} == {'neg', 'zero'} and a.args[0] is b.args[0]:
                q = neg(a.args[0])
                strict = False
        if q is None and len(items) == 3:
            # 1 - neg - zero : p > 0
            z = [m[0][0] for m, c in items if c == -1 and len(m) == 1]
            if len(z) == 2 and {z[0].op, z[1].op} == {'neg', 'zero'} and z[0].args[0] is z[1].args[0]:
                q = z[0].args[0]
                strict = True
    if q is not None:
        co, rest = split_linear(q, k)
        if co is not None and const_value(co) is not None and const_value(co) > 0 and k not in syms(rest):
            a = const_value(co)
            x = scale(neg(rest), 1 / a)
            j = add(floor(x), ONE) if strict else ceil(x)
            j = minmax('max', ZERO, j)
            if infinite:
                return ONE, j
            return lt(j, size), j
    # several thresholds: continue while all of them hold
    items = nU.args[0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) > 1 and all(a.op == 'neg' and e == 1 for a, e in items[0][0]):
        js = []
        for a, e in items[0][0]:
            if k not in syms(a):
                break
            ex, j = first_index(I, k, size, not_(atom(a)), True)
            x = single_atom(j)
            if ex is not ONE or x is not None and x.op == 'app' and x.args[0] == 'first':
                break
            js.append(j)
        else:
            j = minmax('min', *js)
            if infinite:
                return ONE, j
            return lt(j, size), j
    # equality: U = [p(k) == 0], counting loops
    b, cb = canon_bind(k, U)
    if infinite:
        e = ONE
    else:
        from .models import exists
        e = exists(k, size, U)
    j = mk('app', 'first', b, size, cb)
    return e, atom(j)


def finish(I, st, base, slots, k, size, end):
    """Write the final values in the state after all iterations."""
    I.st = st
    memo = {}
    for sl in slots.values():
        if sl.kind == 'dicteach':
            rec = I.w(ref(sl.oid))
            old = sl.base
            out = list(old)
            for e in rec.each[len(old):]:
                if e[0] is None:
                    out.append((k, size) + tuple(e[2:]))
                else:
                    out.append(('nest', (k, size)) + tuple(e))
            rec.each = tuple(out)
            continue
        v = value_at(I, sl, k, size, memo, st)
        write_slot(I, st, sl, v)


def value_at(I, sl, k, n, memo, st):
    if sl.kind == 'list':
        if sl.atv is None:
            v = tuple(I.inst(s, k, sub(n, ONE), memo) for s in sl.repl)
            z = cmp_eq0(as_num(n))
            return v if z is ZERO else I.merge_segs(z, sl.base, v)
        return sl.atv(n)
    if sl.kind == 'listvar':
        if sl.atv is None:
            return I.new_list(tuple(I.inst(s, k, sub(n, ONE), memo) for s in sl.repl))
        return I.new_list(sl.atv(n))
    if sl.kind == 'arrvar':
        a = sl.shape
        fields = {}
        for l in a.fields:
            mid = sl.id + ('.%s' % l if l is not None else '')
            fields[l] = sl.fields[mid](n)
        return I.new_arr(ArrVal(a.dims, fields, a.filt, a.dtypes, a.order))
    if sl.kind == 'item':
        v = sl.at(n, memo)
        z = cmp_eq0(as_num(n))
        cond = sl.cond if sl.base[1] is sl.cond else ite(z, sl.base[1], sl.cond)
        if k in syms(cond):
            cond = subst(cond, {k: sub(n, ONE)})
        return (v, cond)
    return sl.at(n, memo) if sl.kind != 'buf' else sl.at(n)


# --------------------------------------------------------------- rewriting

class Rewriter(object):
    """Replace mu values by the solved values at the start of iteration k."""

    def __init__(self, I, slots, mode):
        self.I = I
        self.slots = slots
        self.cache = {}
        self.byid = {}
        for sl in slots.values():
            self.byid[sl.id] = sl
            if sl.kind == 'arrvar' and sl.at is not None:
                for mid in sl.fields:
                    self.byid[mid] = sl

    def f(self, t):
        if is_mu(t):
            sl = self.byid.get(t.args[1])
            if sl is None or not sl.solved:
                return None
            k = atom(self.k(sl))
            if t.args[0] == 'mulen':
                return sl.lenat(k)
            if sl.kind == 'arrvar':
                v = sl.fields[t.args[1]](k)
                return subst(v, {a: b for a, b in zip(sl.axes, t.args[2:]) if single_atom(b) is not a})
            if sl.kind == 'buf':
                v = sl.at(k)
                return subst(v, {a: b for a, b in zip(sl.axes, t.args[2:]) if single_atom(b) is not a})
            if sl.kind in ('list', 'listvar', 'dicteach'):
                return None
            v = sl.at(k)
            if v is None:
                return mk('none')
            if not isinstance(v, T):
                return mk('py', v)
            return v
        return None

    def k(self, sl):
        return sl.kvar

    def __call__(self, v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'mu' and isinstance(v[1], str):
                return v
            if any(isinstance(x, tuple) and len(x) == 2 and x[0] == 'mu' for x in v):
                return self.segs(v)
            return tuple(self(x) for x in v)
        if isinstance(v, ArrVal):
            return ArrVal(tuple(tuple((a, self(s)) for a, s in d) for d in v.dims),
                          {l: self(b) for l, b in v.fields.items()}, self(v.filt), v.dtypes, v.order)
        if isinstance(v, dict):
            return {a: self(b) for a, b in v.items()}
        if isinstance(v, list):
            return [self(x) for x in v]
        if not isinstance(v, T):
            return v
        if not (mus(v) & set(self.byid)):
            return v
        r = rewrite(v, self.f, self.cache)
        return self.I.unwrap(r)

    def segs(self, v):
        out = []
        for s in v:
            if isinstance(s, tuple) and len(s) == 2 and s[0] == 'mu':
                sl = self.byid.get(s[1])
                if sl is None or sl.kind not in ('list', 'listvar') or not sl.solved:
                    out.append(s)
                elif sl.atv is None:
                    k = self.k(sl)
                    out.extend(self.I.inst(x, k, sub(atom(k), ONE), {}) for x in sl.repl)
                else:
                    # bound variable must differ from the iteration's own
                    k = self.k(sl)
                    for x in sl.atv(atom(k)):
                        if x[0] == 'each' and x[1] is k:
                            k2 = axis_like(k, atom(k))[0]
                            x = ('each', k2, atom(k), self.I.inst_segs(x[3], k, atom(k2)))
                        out.append(x)
            elif s[0] == 'each':
                n = self(s[2])
                if n is not s[2]:
                    k2 = axis_like(s[1], n)[0]
                    out.append(('each', k2, n, self.segs(self.I.inst_segs(s[3], s[1], atom(k2)))))
                else:
                    out.append(('each', s[1], n, self.segs(s[3])))
            else:
                out.append(self(s))
        return tuple(out)


def rewrite_state(I, st, R, omark, changed):
    save, I.st = I.st, st
    st.guard = R(st.guard)
    st.rel = R(st.rel)
    for oid in list(st.heap):
        if oid < omark and oid not in changed:
            continue
        rec = st.heap[oid]
        nr = rewrite_rec(I, rec, R)
        if nr is not rec:
            st.heap[oid] = nr
            st.owned.add(oid)
    I.st = save


def rewrite_rec(I, rec, R):
    if isinstance(rec, FrameV):
        return FrameV({a: R(b) for a, b in rec.vars.items()}, rec.parent, rec.module)
    if isinstance(rec, ListV):
        return ListV(R.segs(rec.segs), rec.kind)
    if isinstance(rec, GenV):
        return GenV(R.segs(rec.segs), R(rec.pos))
    if isinstance(rec, DictV):
        return DictV({R(a): (R(b), R(c)) for a, (b, c) in rec.items.items()}, R(rec.rest), R(rec.each))
    if isinstance(rec, InstV):
        return InstV(rec.cls, {a: R(b) for a, b in rec.attrs.items()})
    if isinstance(rec, CellV):
        return CellV({a: R(b) for a, b in rec.attrs.items()})
    if isinstance(rec, BufV):
        return BufV({l: R(b) for l, b in rec.fields.items()}, tuple((v, R(s)) for v, s in rec.axes),
                    R(rec.filt), rec.dtypes, rec.order)
    if isinstance(rec, ViewV):
        return ViewV(rec.buf, rec.field, tuple(tuple((v, R(s)) for v, s in d) for d in rec.dims),
                     tuple((v, R(t)) for v, t in rec.mapping), rec.extra)
    if isinstance(rec, FileV):
        return FileV(R(rec.path), rec.mode)
    return rec
