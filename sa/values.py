"""Heap objects and array values of the abstract interpreter."""

from .terms import *

UNBOUND = mk('unbound')


def ref(oid):
    return mk('ref', oid)


class FuncVal(object):
    """A function of the analysed program (with its closure frame)."""

    def __init__(self, node, module, frame, name, defaults=None, kwdefaults=None, cls=None):
        self.node = node
        self.module = module
        self.frame = frame
        self.name = name
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.cls = cls
        self.cli = None
        self.qual = name

    def __repr__(self):
        return '<func %s>' % self.qual


class ClassVal(object):
    def __init__(self, name, module, bases, attrs, qual):
        self.name = name
        self.module = module
        self.bases = bases
        self.attrs = attrs          # name -> value
        self.qual = qual
        self.props = {}             # name -> {'get':..., 'set':...}
        self.fields = None          # namedtuple fields

    def __repr__(self):
        return '<class %s>' % self.qual

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            r = b.lookup(name)
            if r is not None:
                return r
        return None

    def prop(self, name):
        if name in self.props:
            return self.props[name]
        for b in self.bases:
            r = b.prop(name)
            if r is not None:
                return r
        return None


def func(fv):
    return mk('func', fv)


def cls(cv):
    return mk('class', cv)


def ext(name):
    return mk('ext', name)


def mod(name):
    return mk('mod', name)


def bound(f, self):
    return mk('bound', f, self)


def nt(cv, items):
    """Named tuple value."""
    return mk('nt', cv, tuple(items))


# ------------------------------------------------------------ heap records

class FrameV(object):
    __slots__ = ('vars', 'parent', 'module')

    def __init__(self, vars, parent, module):
        self.vars = vars
        self.parent = parent
        self.module = module

    def copy(self):
        return FrameV(dict(self.vars), self.parent, self.module)


# segments of sequences: ('lit', v) | ('if', cond, segs) | ('each', k, size, segs) | ('mu', id)
class ListV(object):
    __slots__ = ('segs', 'kind')

    def __init__(self, segs, kind='list'):
        self.segs = tuple(segs)
        self.kind = kind            # list, gen, iter, set

    def copy(self):
        return ListV(self.segs, self.kind)


class GenV(object):
    """Iterator over a sequence with a position."""
    __slots__ = ('segs', 'pos')

    def __init__(self, segs, pos):
        self.segs = tuple(segs)
        self.pos = pos


class DictV(object):
    """Ordered dict with known keys; present[key] is a condition."""
    __slots__ = ('items', 'rest', 'each')

    def __init__(self, items, rest=None, each=()):
        self.items = items          # key -> (value, cond)
        self.rest = rest            # opaque remainder (term) or None
        self.each = tuple(each)     # (k, size, key, value)

    def copy(self):
        return DictV(dict(self.items), self.rest, self.each)


class InstV(object):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs

    def copy(self):
        return InstV(self.cls, dict(self.attrs))


class BufV(object):
    """Array storage: fields -> body over the axis variables."""
    __slots__ = ('fields', 'axes', 'filt', 'dtypes', 'order')

    def __init__(self, fields, axes, filt=ONE, dtypes=None, order=None):
        self.fields = fields
        self.axes = tuple(axes)
        self.filt = filt
        self.dtypes = dtypes or {}
        self.order = order

    def copy(self):
        return BufV(dict(self.fields), self.axes, self.filt, dict(self.dtypes), self.order)


class ViewV(object):
    """ndarray object: a view of a buffer.

    field: None for all fields (or the only one) else a label.
    dims: tuple of dims; dim = tuple of (var, size).
    mapping: tuple of (bufvar, term over view vars).
    """
    __slots__ = ('buf', 'field', 'dims', 'mapping', 'extra')

    def __init__(self, buf, field, dims, mapping, extra=()):
        self.buf = buf
        self.field = field
        self.dims = dims
        self.mapping = mapping
        self.extra = extra


class FileV(object):
    __slots__ = ('path', 'mode', 'attrs', 'pos', 'nread', 'nblock')

    def __init__(self, path, mode, pos=None, nread=0, nblock=0):
        self.path = path
        self.mode = mode
        self.pos = pos          # position in a file of known content
        self.nread = nread
        self.nblock = nblock

    def copy(self):
        return FileV(self.path, self.mode, self.pos, self.nread, self.nblock)


class CellV(object):
    """Generic attribute bag (function attributes, external objects)."""
    __slots__ = ('attrs',)

    def __init__(self, attrs):
        self.attrs = attrs

    def copy(self):
        return CellV(dict(self.attrs))


class ArrVal(object):
    """A pure array value."""
    __slots__ = ('dims', 'filt', 'fields', 'dtypes', 'order')

    def __init__(self, dims, fields, filt=ONE, dtypes=None, order=None):
        self.dims = tuple(tuple(d) for d in dims)
        self.fields = fields        # {None: body} or {label: body}
        self.filt = filt
        self.dtypes = dtypes or {}
        self.order = order          # opaque permutation tag

    @property
    def axes(self):
        return [a for d in self.dims for a in d]

    @property
    def body(self):
        return self.fields[None]

    def is_rec(self):
        return None not in self.fields

    def vars(self):
        return [v for v, s in self.axes]


def dim_size(dim):
    r = ONE
    for v, s in dim:
        r = mul(r, s)
    return r


def new_axis(size, name='i'):
    v = fresh(name, int=True, nonneg=True, kind='num')
    size = as_num(size)
    FACTS.info[v]['hi'] = sub(size, ONE)
    return (v, size)


def axis_like(v, s):
    return new_axis(s, v.args[0].split('~')[0])
