"""Abstract values of the analysed program other than numbers."""
from . import units as U
from .dom import A, Unsupported, Undecided, PyRaise, definitely_equal
from . import dom
from . import terms as tm


class Q:
    """Quantity: abstract payload in its own unit (mutable, like an ndarray subclass)."""
    __slots__ = ("v", "unit", "__weakref__")

    def __init__(self, v, unit):
        if v.scalar or v.py:
            v = v.as_array()
        if v.dtype in ("i8", "b1"):
            v = v.copy()
            v.dtype = "f8"
        self.v = v
        self.unit = unit

    @property
    def shape(self):
        return self.v.shape

    def __repr__(self):
        return "%r %s" % (self.v, self.unit.to_string())


class Top:
    """Unknown value; ``why`` says where it came from."""
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class AStr:
    """String whose text depends on an abstract value."""
    def __init__(self, parts):
        self.parts = tuple(parts)   # str or (term-or-None, spec, lo, hi)

    def __repr__(self):
        return "AStr%r" % (self.parts,)


class NT(tuple):
    """Named tuple: a tuple whose positions also have names (and, for a class, methods)."""
    def __new__(cls, vals, fields, name, klass=None):
        o = tuple.__new__(cls, vals)
        o.fields = tuple(fields)
        o.name = name
        o.klass = klass
        return o


class AIter(list):
    """What is left of an iterator (generator, zip, map ...); its elements are evaluated when it is made."""


class Deque(list):
    maxlen = None


class CtxGen:
    """A context manager made from a generator function."""
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class ExitStackV:
    def __init__(self):
        self.todo = []


class Suppress:
    """contextlib.suppress(...)"""
    def __init__(self, kinds):
        self.kinds = list(kinds)


class Obj:
    __slots__ = ("cls", "attrs", "native", "oid")
    _n = [0]

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.native = None
        Obj._n[0] += 1
        self.oid = Obj._n[0]

    def __repr__(self):
        return "<%s #%d>" % (self.cls.name, self.oid)


class ClassV:
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassV)] + \
            [[b for b in self.bases if isinstance(b, ClassV)]]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            else:
                raise PyRaise(TypeError, "MRO conflict")
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def native_bases(self):
        r = []
        for c in self.mro:
            for b in c.bases:
                if not isinstance(b, ClassV):
                    r.append(b)
        return r

    def __repr__(self):
        return "<class %s>" % self.name


class FuncV:
    def __init__(self, node, env, module, qualname, defaults, kwdefaults, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.is_gen = None
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qualname


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Builtin:
    def __init__(self, name, fn, pure=True):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Prop:
    def __init__(self, fget, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached
        self.attrname = None


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Memo:
    """functools.lru_cache / cache wrapper, modelled with its real memory."""
    def __init__(self, f, maxsize=None):
        self.f = f
        self.table = []
        self.maxsize = maxsize


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class ModV:
    def __init__(self, name, ns=None, getter=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.getter = getter

    def __repr__(self):
        return "<module %s>" % self.name


class NType:
    """A library type used for isinstance tests / construction."""
    def __init__(self, name, test, ctor=None, ns=None):
        self.name, self.test, self.ctor = name, test, ctor
        self.ns = ns or {}

    def __repr__(self):
        return "<type %s>" % self.name


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ADict:
    """Dictionary with abstract keys, insertion ordered."""
    __slots__ = ("items_", "factory")

    def __init__(self):
        self.items_ = []
        self.factory = None

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in self.items_)

    def keys(self):
        return [k for k, _ in self.items_]

    def values(self):
        return [v for _, v in self.items_]

    def copy(self):
        d = ADict()
        d.items_ = [list(kv) for kv in self.items_]
        d.factory = self.factory
        return d


class _Pair(list):
    def __init__(self, attrs, k, v):
        list.__init__(self, [k, v])
        self.attrs = attrs

    def __setitem__(self, i, v):
        list.__setitem__(self, i, v)
        if i == 1:
            self.attrs[self[0]] = v


class _AttrItems(list):
    """items of an instance's __dict__, writing through to its attributes"""
    def __init__(self, attrs):
        list.__init__(self, [_Pair(attrs, k, v) for k, v in attrs.items()])
        self.attrs = attrs

    def append(self, kv):
        self.attrs[kv[0]] = kv[1]
        list.append(self, _Pair(self.attrs, kv[0], kv[1]))

    def __delitem__(self, i):
        self.attrs.pop(self[i][0], None)
        list.__delitem__(self, i)

    def pop(self, i=-1):
        self.attrs.pop(self[i][0], None)
        return list.pop(self, i)

    def clear(self):
        self.attrs.clear()
        list.clear(self)


def attr_dict(attrs):
    d = ADict()
    d.items_ = _AttrItems(attrs)
    return d


class ASet:
    def __init__(self, items):
        self.items_ = items
