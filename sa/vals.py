"""Abstract values of the analyser.

Every value the analysed program can manipulate is one of the classes below.  `Const` is the constant-propagation
lattice, `Sym` is an abstract value of which only a class (possibly none) and some facts are known, the container
classes carry a bounded shape (a list of abstract elements).  Nothing here executes code of the analysed repository.
"""
import abc as _abc
import collections.abc as _cabc
import typing as _typing

from .arity import CONSTRUCTORS, FUNCTIONS, METHODS, fits


class Ids:
    n = 0

    @classmethod
    def next(cls):
        cls.n += 1
        return cls.n


class V:
    __slots__ = ("sid",)

    def __init__(self):
        self.sid = Ids.next()


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        self.sid = 0

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return Const(v)


def vid(v):
    """Identity key of a value (constants by type and value)."""
    if isinstance(v, Const):
        return ("c", type(v.v).__name__, repr(v.v))
    if isinstance(v, TupV):
        return ("t",) + tuple(vid(i) for i in v.items)
    if isinstance(v, BoundM):
        return ("b", vid(v.fn), vid(v.obj))
    return v.sid


class TupV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        super().__init__()
        self.items = list(items)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class ListV(V):
    __slots__ = ("items", "cls", "label")

    def __init__(self, items=(), cls=None, label=None):
        super().__init__()
        self.items = list(items)
        self.cls = cls
        self.label = label

    def __repr__(self):
        return (self.cls.name if self.cls else "") + "[" + ", ".join(map(repr, self.items)) + "]"


class SetV(V):
    __slots__ = ("items", "cls", "frozen", "label")

    def __init__(self, items=(), cls=None, frozen=False, label=None):
        super().__init__()
        self.items = list(items)
        self.cls = cls
        self.frozen = frozen
        self.label = label

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.items)) + "}"


class DictV(V):
    """Mapping with known keys; `cls` may be any mapping class; `frozen` mappings have no mutators."""
    __slots__ = ("pairs", "cls", "label", "default_factory", "backing")

    def __init__(self, pairs=(), cls=None, label=None):
        super().__init__()
        self.pairs = [[k, v] for k, v in pairs]
        self.cls = cls
        self.label = label
        self.default_factory = None
        self.backing = None

    def __repr__(self):
        return (self.cls.name if self.cls else "") + "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.pairs) + "}"


class ViewV(V):
    __slots__ = ("kind", "d")

    def __init__(self, kind, d):
        super().__init__()
        self.kind = kind
        self.d = d

    def __repr__(self):
        return f"<{self.kind} of {self.d!r}>"


class IterV(V):
    """A lazy iterator (generator, map, zip, iter(...)); `it` is a Python iterator over values."""
    __slots__ = ("it", "kind", "gen", "extra")

    def __init__(self, it, kind="iterator", gen=False):
        super().__init__()
        self.it = it
        self.kind = kind
        self.gen = gen
        self.extra = None

    def __repr__(self):
        return f"<{self.kind}#{self.sid}>"


class Inst(V):
    __slots__ = ("cls", "attrs", "label", "native")

    def __init__(self, cls, attrs=None, label=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.label = label
        self.native = None

    def __repr__(self):
        if self.label:
            return f"<{self.label}>"
        return f"<{self.cls.name}#{self.sid}>"


class Sym(V):
    """An unknown value.  cls: its exact class if known.  props: facts fixed by the scenario or by the operation."""
    __slots__ = ("name", "cls", "attrs", "items", "props", "expr")

    def __init__(self, name, cls=None, attrs=None, items=None, expr=None, **props):
        super().__init__()
        self.name = name
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.items = items
        self.props = props
        self.expr = expr

    def __repr__(self):
        return f"`{self.name}`"


class Cls(V):
    def __init__(self, name, module="scenario", bases=(), ns=None, py=None, meta="type", node=None):
        super().__init__()
        self.name = name
        self.module = module
        self.qual = f"{module}.{name}"
        self.bases = list(bases)
        self.ns = ns if ns is not None else {}
        self.py = py
        self.meta = meta
        self.node = node
        self.ctor = None          # engine callable (I, cls, args, kwargs) -> V
        self.dc = None            # dataclass description
        self.flags = {}
        self.orig_bases = None    # generic bases as annotation values
        self.members = None       # enum members
        self.parameters = None
        self.mro = None

    def __repr__(self):
        return f"<class {self.qual}>"


class Alias(V):
    """A subscripted generic/special form, e.g. List[int], Union[a, b], Annotated[int, x]."""
    __slots__ = ("origin", "args")

    def __init__(self, origin, args):
        super().__init__()
        self.origin = origin      # Cls or Special
        self.args = list(args)

    def __repr__(self):
        return f"{self.origin!r}[{', '.join(map(repr, self.args))}]"


class Special(V):
    """typing special form (Union, Literal, ...)."""
    __slots__ = ("name",)

    def __init__(self, name):
        super().__init__()
        self.name = name

    def __repr__(self):
        return f"typing.{self.name}"


class Fn(V):
    __slots__ = ("node", "env", "name", "mod", "owner", "defaults", "kwdefaults", "attrs", "qual")

    def __init__(self, node, env, name, mod, qual, defaults, kwdefaults):
        super().__init__()
        self.node = node
        self.env = env
        self.name = name
        self.mod = mod
        self.owner = None
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.attrs = {}
        self.qual = qual

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundM(V):
    __slots__ = ("fn", "obj")

    def __init__(self, fn, obj):
        super().__init__()
        self.fn = fn
        self.obj = obj

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.obj!r}>"


class Builtin(V):
    """An engine-implemented callable: func(I, args, kwargs) -> V."""
    __slots__ = ("name", "func", "attrs", "binds", "arity")

    def __init__(self, name, func, binds=False, arity=None):
        super().__init__()
        self.arity = arity or FUNCTIONS.get(name)
        self.name = name
        self.func = func
        self.attrs = {}
        self.binds = binds    # behaves like a plain function in a class namespace

    def __repr__(self):
        return f"<builtin {self.name}>"


class Prop(V):
    __slots__ = ("fget", "fset", "cached", "name")

    def __init__(self, fget, fset=None, cached=False, name=None):
        super().__init__()
        self.fget = fget
        self.fset = fset
        self.cached = cached
        self.name = name


class StaticM(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        super().__init__()
        self.fn = fn


class ClassM(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        super().__init__()
        self.fn = fn


class ModV(V):
    """A module: of the repository (ns is a live namespace) or external."""

    def __init__(self, name, external=False):
        super().__init__()
        self.name = name
        self.external = external
        self.ns = {}
        self.path = None
        self.tree = None
        self.state = 0
        self.postponed = None
        self.in_repo = False

    def __repr__(self):
        return f"<module {self.name}>"


class NsV(V):
    """vars(obj): a live, read-only view of a namespace (class __dict__, module or instance dict)."""
    __slots__ = ("ns", "of")

    def __init__(self, ns, of):
        super().__init__()
        self.ns = ns
        self.of = of

    def __repr__(self):
        return f"<vars of {self.of!r}>"


class SuperV(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        super().__init__()
        self.cls = cls
        self.obj = obj


class SliceV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        super().__init__()
        self.lo, self.hi, self.step = lo, hi, step


class Raised(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc, loc=None):
        self.exc = exc
        self.loc = loc


class Unsupported(Exception):
    """The analysis cannot follow this construct; the path is left undecided."""


# ---------------------------------------------------------------------------------------------- class knowledge

_EXT = {}


def ext(py):
    """The Cls for a class of the standard library (knowledge of the class hierarchy only)."""
    c = _EXT.get(py)
    if c is None:
        mod = py.__module__
        c = Cls(py.__name__, mod, [], py=py)
        _EXT[py] = c
        c.sid = 0
        c.qual = f"{mod}.{py.__qualname__}"
        c.sid = -len(_EXT)
        c.bases = [ext(b) for b in py.__bases__]
        c.mro = [c] + [ext(b) for b in py.__mro__[1:]]
        if isinstance(py, _abc.ABCMeta):
            c.meta = "abc"
    return c


OBJECT = ext(object)
TYPE = ext(type)
NONETYPE = ext(type(None))
BOOL, INT, FLOAT, STR, BYTES = ext(bool), ext(int), ext(float), ext(str), ext(bytes)
LIST, DICT, SET, FROZENSET, TUPLE = ext(list), ext(dict), ext(set), ext(frozenset), ext(tuple)
MAPPING = ext(_cabc.Mapping)
COLLECTION = ext(_cabc.Collection)
EXCEPTION = ext(Exception)
FUNCTION = ext(type(lambda: 0))
BUILTINFN = ext(type(len))
METHOD = ext(type(Ids.next))
GENERATOR = ext(type(i for i in ()))
ITERATOR = ext(_cabc.Iterator)
PROPERTY, STATICM, CLASSM = ext(property), ext(staticmethod), ext(classmethod)
SLICE = ext(slice)
MODULETYPE = ext(type(_typing))


def c3(cls):
    def merge(seqs):
        res = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in x[1:] for x in seqs):
                    break
            else:
                raise Unsupported("inconsistent MRO")
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    bases = cls.bases or [OBJECT]
    return [cls] + merge([list(b.mro) for b in bases] + [list(bases)])


def mkcls(name, bases=(), module="scenario", ns=None, py=None, meta=None, **flags):
    c = Cls(name, module, list(bases) or [OBJECT], ns=ns or {}, py=py)
    c.mro = c3(c)
    c.meta = meta or next((b.meta for b in c.mro[1:] if b.meta not in ("type",)), "type")
    c.flags.update(flags)
    return c


_STRUCT = {
    _cabc.Sized: ["__len__"], _cabc.Iterable: ["__iter__"], _cabc.Container: ["__contains__"],
    _cabc.Callable: ["__call__"], _cabc.Hashable: ["__hash__"], _cabc.Iterator: ["__iter__", "__next__"],
    _cabc.Reversible: ["__iter__", "__reversed__"], _cabc.Collection: ["__len__", "__iter__", "__contains__"],
}


def has_method(c, name):
    for k in c.mro:
        if name in k.ns:
            v = k.ns[name]
            return not (isinstance(v, Const) and v.v is None)
        if k.py is not None and name in k.py.__dict__:
            return k.py.__dict__[name] is not None
        if k.flags.get("methods") and name in k.flags["methods"]:
            return True
    return False


def issub(a, b):
    if a is b or b in a.mro:
        return True
    if a.py is not None and b.py is not None:
        try:
            return issubclass(a.py, b.py)
        except TypeError:
            return False
    if b.py is not None and isinstance(b.py, _abc.ABCMeta):
        for k in a.mro:
            if k.py is not None and k.py is not object:
                try:
                    if issubclass(k.py, b.py):
                        return True
                except TypeError:
                    pass
        names = _STRUCT.get(b.py)
        if names and all(has_method(a, n) for n in names):
            return True
    return False


_SOLID = (bool, int, float, str, bytes, list, dict, set, frozenset, tuple, type(None), complex, bytearray, BaseException)


def solid(c):
    for k in c.mro:
        if k.py in _SOLID:
            return k.py
    return None


def disjoint(a, b):
    """No value can be an instance of both (different built-in layouts)."""
    sa, sb = solid(a), solid(b)
    return sa is not None and sb is not None and not (issubclass(sa, sb) or issubclass(sb, sa))
