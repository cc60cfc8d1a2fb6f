"""Models of the parts of the standard library and of third-party packages the repository builds on.

A model states what a library function does to abstract values: its result, the exceptions it may raise and its
effects.  Nothing here runs code of the analysed repository.  Unmodelled names fall back to a tainted value, which
makes the paths that depend on it undecided instead of guessed.
"""
import ast
import builtins as _b
import collections
import collections.abc as cabc
import contextlib
import dataclasses as _dc
import enum
import functools
import importlib
import importlib.util
import sys
import types
import typing

from .vals import *
from . import vals, lib
from .interp import Env, Raised, Unsupported
from .lib import arg, key_name

GENERIC, PROTOCOL = ext(typing.Generic), ext(typing.Protocol)
PROTOCOL.meta = "abc"
CALLABLE = ext(cabc.Callable)
ENUM = lib.ENUM


def bi(name, binds=False):
    def deco(f):
        return Builtin(name, f, binds)
    return deco


# ------------------------------------------------------------------------------------------------ modules

MODS = {}


def module(name):
    return MODS.setdefault(name, {})


KNOWN = set(sys.stdlib_module_names) | {"typing_extensions", "typeapi", "nr"}
FAIL_IMPORT = {"pkg_resources", "greenlet"}


def ext_module(I, name):
    top = name.split(".")[0]
    if top not in KNOWN or top in FAIL_IMPORT or not stdlib_has(name):
        raise no_module(I, const(name))
    m = ModV(name, external=True)
    m.path = name
    if "." in name:
        par = I.import_module(name.rsplit(".", 1)[0])
        par.ns[name.rsplit(".", 1)[1]] = m
    return m


def stdlib_has(name):
    """Dotted names under a standard library module exist only if that module is a package with such a part."""
    top = name.split(".")[0]
    if "." not in name or name in MODS or top not in sys.stdlib_module_names or name in sys.modules:
        return True
    try:
        return importlib.util.find_spec(name) is not None
    except (ImportError, ValueError, AttributeError):
        return False


def no_module(I, name):
    r = I.exc(ModuleNotFoundError, "No module named " + (repr(name.v) if isinstance(name, Const) else repr(name)))
    r.exc.attrs["name"] = name
    return r


def ext_attr(I, mod, name):
    if name in ("__name__",):
        return const(mod.name)
    if name == "__dict__":
        return NsV(mod.ns, mod)
    t = MODS.get(mod.name)
    if t is not None and name in t:
        v = t[name]
        return v(I) if isinstance(v, types.FunctionType) else v
    if mod.name in ("typing", "typing_extensions"):
        v = typing_attr(I, name)
        if v is not None:
            return v
    if f"{mod.name}.{name}" in MODS:
        return I.import_module(f"{mod.name}.{name}")
    top = mod.name.split(".")[0]
    if top in sys.stdlib_module_names:
        try:
            real = importlib.import_module(mod.name)
        except ImportError:
            return None
        if not hasattr(real, name):
            return None
        v = getattr(real, name)
        if isinstance(v, type):
            return ext(v)
        if isinstance(v, types.ModuleType):
            return I.import_module(v.__name__ if v.__name__.startswith(top) else f"{mod.name}.{name}")
        if callable(v):
            return std_function(mod.name, name, v)
        try:
            return lib.lift(v)
        except Unsupported:
            return Sym(f"{mod.name}.{name}", trusted=True)
    if top in ("typeapi", "nr", "typing_extensions"):
        I.taint(f"unmodelled {mod.name}.{name}")
        return Sym(f"{mod.name}.{name}", trusted=True)
    return None


PURE = {"math", "operator", "string", "re", "textwrap", "keyword", "inspect", "html", "urllib.parse", "unicodedata"}


def std_function(mod, name, fn):
    def run(I, a, k):
        if mod in PURE and all(isinstance(x, Const) for x in a) and all(isinstance(x, Const) for x in k.values()):
            return lib.fold(I, lambda *x: fn(*x, **{n: v.v for n, v in k.items()}), *[x.v for x in a])
        I.taint(f"unmodelled function {mod}.{name}")
        return I.app(f"{mod}.{name}", a)
    return Builtin(f"{mod}.{name}", run)


# ------------------------------------------------------------------------------------------------ typing

SPECIALS = {n: Special(n) for n in (
    "Any", "Union", "Optional", "Literal", "Annotated", "ClassVar", "Final", "NoReturn", "Never", "Self", "Required",
    "NotRequired", "ReadOnly", "TypeAlias", "Concatenate", "LiteralString", "TypeGuard", "Unpack")}
TYPEVAR = mkcls("TypeVar", module="typing")
NEWTYPE = mkcls("NewType", module="typing")
FORWARDREF = mkcls("ForwardRef", module="typing")
NAMEDTUPLE = mkcls("NamedTuple", [TUPLE], module="typing")
TYPEDDICT = mkcls("TypedDict", [DICT], module="typing")
TDMETA = mkcls("_TypedDictMeta", [TYPE], module="typing")


def special_cls(name):
    return {"Generic": GENERIC, "Protocol": PROTOCOL}[name]


def typing_attr(I, name):
    if name in SPECIALS:
        return SPECIALS[name]
    if name in TYPING:
        v = TYPING[name]
        return v
    v = getattr(typing, name, None)
    o = getattr(v, "__origin__", None)
    if isinstance(o, type):
        return ext(o)
    if isinstance(v, type):
        return ext(v)
    if v is None:
        return None
    if callable(v):
        return std_function("typing", name, v)
    return None


def _cast(I, a, k):
    return a[1] if len(a) > 1 else k["val"]


def _ident(I, a, k):
    return a[0]


def _typevar(I, a, k):
    return Inst(TYPEVAR, {"__name__": a[0], "__bound__": k.get("bound", NONE), "__constraints__": TupV(a[1:])},
                label=f"~{key_name(a[0])}")


def _newtype(I, a, k):
    o = Inst(NEWTYPE, {"__name__": a[0], "__supertype__": a[1]})
    return o


NEWTYPE.ns["__call__"] = Builtin("NewType.__call__", lambda I, a, k: a[1], binds=True)


def _forwardref(I, a, k):
    return Inst(FORWARDREF, {"__forward_arg__": a[0]})


TYPEVAR.ctor = lambda I, c, a, k: _typevar(I, a, k)
FORWARDREF.ctor = lambda I, c, a, k: _forwardref(I, a, k)
NEWTYPE.ctor = lambda I, c, a, k: _newtype(I, a, k)


def _get_origin(I, a, k):
    v = a[0]
    if isinstance(v, Alias):
        return v.origin
    return NONE


def _get_args(I, a, k):
    v = a[0]
    if isinstance(v, Alias) and isinstance(v.origin, Special) and v.origin.name == "Annotated":
        return TupV(list(v.args))
    return alias_attr(I, v, "__args__") if isinstance(v, Alias) else TupV([])


def strip_annotated(I, v):
    if isinstance(v, Alias):
        if isinstance(v.origin, Special) and v.origin.name == "Annotated":
            return strip_annotated(I, v.args[0])
        args = [strip_annotated(I, x) for x in v.args]
        if any(x is not y for x, y in zip(args, v.args)):
            return Alias(v.origin, args)
    return v


def _get_type_hints(I, a, k):
    c = a[0]
    d = DictV()
    extras = I.truth(k.get("include_extras", FALSE))

    def put(name, v):
        v = NONETYPE if v is NONE else v
        lib.dict_set(I, d, name, v if extras else strip_annotated(I, v), quiet=True)
    if isinstance(c, Cls):
        for b in reversed(c.mro):
            for kk, v in typeapi_annotations(I, b).pairs:
                put(kk, v)
        return d
    if isinstance(c, Fn) and not isinstance(c.node, ast.Lambda):
        x = c.node.args
        for p in x.posonlyargs + x.args + x.kwonlyargs + [x.vararg, x.kwarg]:
            if p is not None and p.annotation is not None:
                e = p.annotation
                if isinstance(e, ast.Constant) and isinstance(e.value, str):
                    e = ast.parse(e.value, mode="eval").body
                put(const(p.arg), I.eval(e, c.env))
        if c.node.returns is not None:
            put(const("return"), I.annotation(c.node.returns, c.env))
        return d
    I.taint("get_type_hints")
    return d


TYPING = {
    "TYPE_CHECKING": FALSE, "cast": Builtin("cast", _cast), "TypeVar": TYPEVAR, "NewType": NEWTYPE,
    "ForwardRef": FORWARDREF, "Generic": GENERIC, "Protocol": PROTOCOL, "Callable": CALLABLE, "Type": TYPE,
    "NamedTuple": NAMEDTUPLE, "TypedDict": TYPEDDICT, "Text": STR, "Hashable": ext(cabc.Hashable),
    "get_origin": Builtin("get_origin", _get_origin), "get_args": Builtin("get_args", _get_args),
    "get_type_hints": Builtin("get_type_hints", _get_type_hints),
    "AnyStr": Inst(TYPEVAR, {"__name__": const("AnyStr"), "__bound__": NONE, "__constraints__": TupV([STR, BYTES])}),
    "ParamSpec": Builtin("ParamSpec", _typevar),
    "reveal_type": Builtin("reveal_type", _ident),
    "assert_never": Builtin("assert_never", lambda I, a, k: (_ for _ in ()).throw(I.exc(AssertionError, "unreachable"))),
}
# typing.Tuple on its own: an alias of tuple without arguments (typeapi gives it a TupleTypeHint of length 0)
lib.BARE_TUPLE = BARE_TUPLE = TYPING["Tuple"] = Alias(TUPLE, [])
for _n in "overload final runtime_checkable runtime no_type_check override".split():
    TYPING[_n] = Builtin(_n, _ident)


def norm_arg(x):
    return NONETYPE if x is NONE else x


def type_eq(I, a, b):
    return lib.eq(I, a, b)


def make_union(I, items):
    flat = []
    for x in items:
        x = norm_arg(x)
        if isinstance(x, Alias) and x.origin is SPECIALS["Union"]:
            flat.extend(x.args)
        else:
            flat.append(x)
    out = []
    for x in flat:
        if isinstance(x, Const) and not isinstance(x.v, str):
            raise I.exc(TypeError, f"Union[arg, ...]: each arg must be a type, got {x!r}")
        if not any(type_eq(I, x, y) for y in out):
            out.append(x)
    if len(out) == 1:
        return out[0]
    return Alias(SPECIALS["Union"], out)


def free_params(I, v, out=None):
    out = out if out is not None else []
    if isinstance(v, Inst) and v.cls is TYPEVAR:
        if v not in out:
            out.append(v)
    elif isinstance(v, Alias):
        if not (isinstance(v.origin, Special) and v.origin.name == "Literal"):
            for x in (v.args[:1] if isinstance(v.origin, Special) and v.origin.name == "Annotated" else v.args):
                free_params(I, x, out)
    elif isinstance(v, ListV):
        for x in v.items:
            free_params(I, x, out)
    return out


def substitute(I, v, m):
    """m: list of (typevar, value)"""
    if isinstance(v, Inst) and v.cls is TYPEVAR:
        for k, x in m:
            if k is v:
                return x
        return v
    if isinstance(v, Alias):
        if isinstance(v.origin, Special) and v.origin.name == "Literal":
            return v
        args = [substitute(I, x, m) for x in v.args]
        if isinstance(v.origin, Special) and v.origin.name == "Union":
            return make_union(I, args)
        if isinstance(v.origin, Special) and v.origin.name == "Annotated":
            return annotated(I, args)
        return Alias(v.origin, args)
    return v


def annotated(I, args):
    x = args[0]
    if isinstance(x, Alias) and x.origin is SPECIALS["Annotated"]:
        return Alias(x.origin, x.args + list(args[1:]))
    return Alias(SPECIALS["Annotated"], [norm_arg(x)] + list(args[1:]))


def subscript(I, obj, key):
    args = list(key.items) if isinstance(key, TupV) else [key]
    if isinstance(obj, Special):
        n = obj.name
        if n == "Union":
            return make_union(I, args)
        if n == "Optional":
            return make_union(I, [args[0], NONE])
        if n == "Literal":
            flat = []
            for a in args:
                flat.extend(a.args if isinstance(a, Alias) and a.origin is obj else [a])
            return Alias(obj, flat)
        if n == "Annotated":
            if len(args) < 2:
                raise I.exc(TypeError, "Annotated[...] should be used with at least two arguments")
            return annotated(I, args)
        if n in ("ClassVar", "Final", "Required", "NotRequired", "ReadOnly", "TypeGuard", "Unpack", "Concatenate"):
            return Alias(obj, [norm_arg(a) for a in args])
        raise I.exc(TypeError, f"typing.{n} is not subscriptable")
    if obj is BARE_TUPLE:
        obj = TUPLE
    if isinstance(obj, Alias):
        ps = free_params(I, obj)
        if not ps:
            raise I.exc(TypeError, "not a generic class")
        if len(ps) != len(args):
            raise I.exc(TypeError, "wrong number of arguments")
        return substitute(I, obj, list(zip(ps, args)))
    c = obj
    if c is CALLABLE:
        return Alias(c, [norm_arg(a) for a in args])
    if c is TUPLE or c is TYPE:
        return Alias(c, [norm_arg(a) for a in args])
    if c in (GENERIC, PROTOCOL):
        return Alias(c, args)
    m = I.class_attr(c, "__class_getitem__")
    if m is not None:
        return I.call(m.fn if isinstance(m, ClassM) else m, [c, key], {})
    if c.flags.get("typeddict") and not c.orig_bases:
        raise I.exc(TypeError, f"{c.name} is not subscriptable")
    if any(k in (GENERIC, PROTOCOL) for k in c.mro) or c.orig_bases:
        ps = class_params(I, c)
        if ps:
            if len(ps) != len(args):
                raise I.exc(TypeError, f"Too few or many arguments for {c.name}")
            return Alias(c, [norm_arg(a) for a in args])
        raise I.exc(TypeError, f"{c.name} is not a generic class")
    if c.py is not None:
        if hasattr(c.py, "__class_getitem__") or c.py.__module__ in ("builtins", "collections.abc", "contextlib"):
            if c.py in (int, str, float, bool, bytes, object, type(None)):
                raise I.exc(TypeError, f"type {c.name!r} is not subscriptable")
            return Alias(c, [norm_arg(a) for a in args])
    elif any(k.py is not None and hasattr(k.py, "__class_getitem__") for k in c.mro) and not c.members:
        return Alias(c, [norm_arg(a) for a in args])
    raise I.exc(TypeError, f"type {c.name!r} is not subscriptable")


def alias_attr(I, o, name):
    ann = o.origin is SPECIALS["Annotated"]
    if name == "__origin__":
        return o.args[0] if ann else o.origin
    if name == "__args__":
        return TupV(o.args[:1] if ann else o.args)
    if name == "__metadata__" and ann:
        return TupV(o.args[1:])
    if name == "__parameters__":
        return TupV(free_params(I, o))
    if name in ("__class__",):
        return lib.GENERICALIAS
    if isinstance(o.origin, Cls):
        return I.getattr(o.origin, name)
    if name in ("__name__", "_name"):
        return const(o.origin.name)
    if name == "__module__":
        return const("typing")
    raise I.exc(AttributeError, name)


def class_params(I, c):
    if c.py is not None:
        return [const(i) for i in range(0)]
    if c.parameters is not None:
        return c.parameters
    out = []
    for b in c.orig_bases or []:
        if isinstance(b, Alias) and b.origin in (GENERIC, PROTOCOL):
            out = []
            for a in b.args:
                free_params(I, a, out)
            break
        free_params(I, b, out)
    if c.orig_bases is None and any(b in (GENERIC, PROTOCOL) for b in c.bases):
        out = []
    c.parameters = out
    return out


def class_member(I, c, name):
    """Class attributes of library classes that are modelled (constructors such as datetime.fromisoformat)."""
    for k in c.mro:
        t = CLASS_MEMBERS.get(k.py)
        if t is not None and name in t:
            m = t[name]
            return BoundM(m, c) if isinstance(m, Builtin) and m.binds else m
    return None


def sym_member(I, s, c, name):
    """Methods/attributes of symbolic values of modelled library classes."""
    for k in c.mro:
        t = SYM_MEMBERS.get(k.py)
        if t is not None and name in t:
            m = t[name]
            if isinstance(m, Builtin):
                return BoundM(m, s)
            return m(I, s)
    return None


def getattr_sym(I, o, n, default):
    """getattr() with a name that is not a constant."""
    if isinstance(o, Inst):
        if n in o.attrs:
            return o.attrs[n]
        for k, v in o.attrs.items():
            if isinstance(k, V) and (k is n or lib.eq(I, k, n)):
                return v
    if isinstance(o, Sym) and o.props.get("getattr_sym"):
        return o.props["getattr_sym"](I, o, n, default)
    return None


CTOR = {}
CLASS_MEMBERS = {}
SYM_MEMBERS = {}


def ctor(I, c):
    return CTOR.get(c.py)


# ------------------------------------------------------------------------------------------------ NamedTuple, TypedDict

def _nt_subclass(I, c, kws):
    if NAMEDTUPLE in c.bases:
        build_namedtuple(I, c)


def build_namedtuple(I, c, fields=None):
    ann = c.ns.get("__annotations__")
    names = fields if fields is not None else [key_name(k) for k, _ in (ann.pairs if ann else [])]
    c.bases = [TUPLE if b is NAMEDTUPLE else b for b in c.bases]
    c.mro = c3(c)
    defaults = DictV()
    for n in names:
        if n in c.ns:
            lib.dict_set(I, defaults, const(n), c.ns.pop(n), quiet=True)
        elif defaults.pairs and fields is None:
            raise I.exc(TypeError, f"non-default namedtuple field {n} cannot follow default field")
    c.ns["_fields"] = TupV([const(n) for n in names])
    c.ns["_field_defaults"] = defaults
    c.ns.setdefault("__annotations__", DictV())
    c.flags["namedtuple"] = names

    def new(I, cls, a, k):
        o = Inst(cls)
        o.native = {"passed": (list(a), dict(k)), "ntnames": names}
        vals = {}
        if len(a) > len(names):
            raise I.exc(TypeError, f"{cls.name}() takes {len(names)} arguments")
        for n, v in zip(names, a):
            vals[n] = v
        for n, v in k.items():
            if n in vals or n not in names:
                raise I.exc(TypeError, f"{cls.name}() got an unexpected argument {n!r}")
            vals[n] = v
        for n in names:
            if n not in vals:
                d = lib.dict_get(I, defaults, const(n))
                if d is None:
                    raise I.exc(TypeError, f"{cls.name}() missing required argument {n!r}")
                vals[n] = d
        for n in names:
            o.attrs[n] = vals[n]
        I.event("construct", cls, o, dict(vals))
        return o
    c.ctor = new

    def items(o):
        return [o.attrs[n] for n in names]

    def put(name, f):
        c.ns.setdefault(name, Builtin(f"{c.name}.{name}", f, binds=True))
    put("__iter__", lambda I, a, k: IterV(iter(items(a[0])), "tuple_iterator"))
    put("__len__", lambda I, a, k: const(len(names)))
    put("__getitem__", lambda I, a, k: lib.getitem(I, TupV(items(a[0])), a[1]))
    put("__contains__", lambda I, a, k: const(any(lib.eq(I, x, a[1]) for x in items(a[0]))))
    put("_asdict", lambda I, a, k: DictV([(const(n), a[0].attrs[n]) for n in names]))
    put("index", lambda I, a, k: I.call(lib.get_attribute(I, TupV(items(a[0])), "index"), a[1:], {}))
    put("count", lambda I, a, k: I.call(lib.get_attribute(I, TupV(items(a[0])), "count"), a[1:], {}))

    def repl(I, a, k):
        o = Inst(a[0].cls, a[0].attrs)
        for n, v in k.items():
            if n not in names:
                raise I.exc(ValueError, f"Got unexpected field names: {n}")
            o.attrs[n] = v
        return o
    put("_replace", repl)

    def eq_(I, a, k):
        x, y = a
        yi = y.items if isinstance(y, TupV) else (items(y) if isinstance(y, Inst) and y.cls.flags.get("namedtuple") == names else None)
        if yi is None:
            return const(NotImplemented)
        return const(len(yi) == len(names) and all(lib.eq(I, p, q) for p, q in zip(items(x), yi)))
    put("__eq__", eq_)
    c.ns.setdefault("_make", ClassM(Builtin("_make", lambda I, a, k: I.call(a[0], list(I.iterate(a[1])), {}))))


NAMEDTUPLE.flags["init_subclass"] = _nt_subclass


def _namedtuple_fn(I, a, k):
    """typing.NamedTuple('X', [...]) / collections.namedtuple('X', 'a b')."""
    c = mkcls(key_name(a[0]), [TUPLE])
    names, ann = [], DictV()
    spec = a[1] if len(a) > 1 else k.get("field_names", TupV([]))
    if isinstance(spec, Const):
        names = spec.v.replace(",", " ").split()
    else:
        for x in I.iterate(spec):
            if isinstance(x, TupV):
                names.append(key_name(x.items[0]))
                ann.pairs.append([x.items[0], x.items[1]])
            else:
                names.append(key_name(x))
    c.ns["__annotations__"] = ann
    ds = k.get("defaults")
    if ds is not None and ds is not NONE:
        dv = list(I.iterate(ds))
        for n, v in zip(names[len(names) - len(dv):], dv):
            c.ns[n] = v
    build_namedtuple(I, c, names)
    return c


NAMEDTUPLE.ctor = lambda I, c, a, k: _namedtuple_fn(I, a, k)


def _td_subclass(I, c, kws):
    if c is TYPEDDICT or c.flags.get("typeddict"):
        return
    total = kws.get("total", TRUE)
    own = c.ns.get("__annotations__") or DictV()
    ann = DictV()
    req, opt = SetV(frozen=True), SetV(frozen=True)
    for b in c.bases:
        if b.flags.get("typeddict"):
            for k, v in b.ns["__annotations__"].pairs:
                lib.dict_set(I, ann, k, v, quiet=True)
            for x in b.ns["__required_keys__"].items:
                lib.set_add(I, req, x, quiet=True)
            for x in b.ns["__optional_keys__"].items:
                lib.set_add(I, opt, x, quiet=True)
    for k, v in own.pairs:
        lib.dict_set(I, ann, k, v, quiet=True)
        is_req = total is not FALSE
        if isinstance(v, Alias) and isinstance(v.origin, Special) and v.origin.name in ("Required", "NotRequired"):
            is_req = v.origin.name == "Required"
        (req if is_req else opt).items[:] = [x for x in (req if is_req else opt).items if x.v != k.v] + [k]
        other = opt if is_req else req
        other.items[:] = [x for x in other.items if x.v != k.v]
    # Python TypedDict classes are plain dict subclasses: the bases' namespaces are not inherited
    c.bases = [DICT] + ([GENERIC] if GENERIC in c.bases else [])
    c.mro = c3(c)
    c.ns["__annotations__"] = ann
    c.ns["__required_keys__"] = req
    c.ns["__optional_keys__"] = opt
    c.ns["__total__"] = const(total is not FALSE)
    c.flags["typeddict"] = True
    c.flags["metaclass"] = TDMETA
    c.flags["nocheck"] = True
    c.flags["init_subclass"] = _td_subclass

    def new(I, cls, a, k):
        d = lib._t_dict(I, DICT, a, k)
        I.event("construct", cls, d, dict(k))
        return d
    c.ctor = new


TYPEDDICT.flags["init_subclass"] = _td_subclass


def _typeddict_fn(I, c, a, k):
    nc = mkcls(key_name(a[0]), [TYPEDDICT], module="scn")
    nc.ns["__module__"] = const("scn")
    d = a[1] if len(a) > 1 else DictV([(const(n), v) for n, v in k.items() if n != "total"])
    nc.ns["__annotations__"] = DictV([(x, y) for x, y in d.pairs])
    _td_subclass(I, nc, k)
    return nc


TYPEDDICT.ctor = _typeddict_fn


# ------------------------------------------------------------------------------------------------ enum

AUTO = mkcls("auto", module="enum")


def finish_enum(I, c):
    if c.py is not None:
        return
    members = []
    int_enum = any(k is INT for k in c.mro)
    values = []
    skip = set()
    ig = c.ns.get("_ignore_")
    for n, v in list(c.ns.items()):
        if n.startswith("_") or n in skip:
            continue
        if isinstance(v, (Fn, Prop, StaticM, ClassM, Builtin)) or isinstance(v, Inst) and I.class_attr(v.cls, "__get__"):
            continue
        if isinstance(v, Inst) and v.cls is AUTO:
            nums = [x.v for x in values if isinstance(x, Const) and isinstance(x.v, int)]
            flag = any(k.py is not None and issubclass(k.py, enum.Flag) for k in c.mro if k.py)
            v = const((1 << len(values)) if flag else (nums[-1] + 1 if nums else 1))
            if any(k is STR for k in c.mro):
                v = const(n.lower())
        dup = next((m for m in members if lib.eq(I, m.attrs["value"], v)), None)
        if dup is not None:
            c.ns[n] = dup
            c.flags.setdefault("enum_names", []).append((n, dup))
            continue
        c.flags.setdefault("enum_names", []).append((n, None))
        m = Inst(c, {"name": const(n), "value": v, "_name_": const(n), "_value_": v}, label=f"{c.name}.{n}")
        init = I.class_attr(c, "__init__")
        if isinstance(init, Fn):
            I.call(init, [m] + (v.items if isinstance(v, TupV) else [v]), {})
        members.append(m)
        values.append(v)
        c.ns[n] = m
        c.flags["enum_names"][-1] = (n, m)
    if members or not c.members:
        c.members = members or None
    if int_enum or any(k is STR for k in c.mro):
        c.flags["int_enum"] = True


module("enum").update({"auto": AUTO, "unique": Builtin("unique", _ident)})
AUTO.ctor = lambda I, c, a, k: Inst(AUTO)
module("types").update({"GenericAlias": lib.GENERICALIAS, "FunctionType": FUNCTION, "ModuleType": MODULETYPE,
                        "NoneType": NONETYPE, "MappingProxyType": lib.MAPPINGPROXY, "MethodType": METHOD})


def _generic_alias(I, c, a, k):
    return Alias(a[0], a[1].items if isinstance(a[1], TupV) else [a[1]])


CTOR[types.GenericAlias] = _generic_alias
CTOR[types.SimpleNamespace] = lambda I, c, a, k: Inst(c, k)
CTOR[types.MethodType] = lambda I, c, a, k: BoundM(a[0], a[1])

# ------------------------------------------------------------------------------------------------ abc


def _abstract(I, a, k):
    f = a[0]
    g = f.fn if isinstance(f, (StaticM, ClassM)) else f
    if isinstance(g, (Fn, Builtin)):
        g.attrs["__isabstractmethod__"] = TRUE
    elif isinstance(g, Prop) and isinstance(g.fget, Fn):
        g.fget.attrs["__isabstractmethod__"] = TRUE
    return f


module("abc").update({"abstractmethod": Builtin("abstractmethod", _abstract),
                      "abstractproperty": Builtin("abstractproperty", lambda I, a, k: Prop(_abstract(I, a, k)))})

# ------------------------------------------------------------------------------------------------ sys

SYSMODULES = mkcls("sys.modules", [DICT], module="sys")


def _mods_get(I, a, k):
    n = key_name(a[1])
    if n is None:
        raise Unsupported("sys.modules of an unknown name")
    m = I.modules.get(n)
    if m is None:
        if n in I.sources or n.split(".")[0] in KNOWN and not n.startswith("scenario"):
            return I.import_module(n)
        return None
    return m


def _mods_item(I, a, k):
    m = _mods_get(I, a, k)
    if m is None:
        raise I.exc(KeyError, a[1])
    return m


SYSMODULES.ns["__getitem__"] = Builtin("sys.modules[]", _mods_item, binds=True)
SYSMODULES.ns["__contains__"] = Builtin("sys.modules in", lambda I, a, k: const(_mods_get(I, a, k) is not None), binds=True)
SYSMODULES.ns["get"] = Builtin("sys.modules.get", lambda I, a, k: _mods_get(I, a, k) or (a[2] if len(a) > 2 else NONE), binds=True)
module("sys").update({
    "modules": Inst(SYSMODULES, label="sys.modules"),
    "version_info": TupV([const(3), const(12), const(3), const("final"), const(0)]),
    "maxsize": const(sys.maxsize), "platform": const("linux"),
    "exc_info": Builtin("exc_info", lambda I, a, k: TupV([I.exc_stack[-1].cls, I.exc_stack[-1], NONE]) if I.exc_stack else TupV([NONE] * 3)),
})

# ------------------------------------------------------------------------------------------------ functools & friends


def _wraps(I, a, k):
    wrapped = a[0]

    def deco(I, b, kk):
        f = b[0]
        if isinstance(f, (Fn, Builtin)):
            for n in ("__name__", "__qualname__", "__doc__", "__module__"):
                try:
                    f.attrs[n] = I.getattr(wrapped, n)
                except Raised:
                    pass
            if isinstance(wrapped, (Fn, Builtin)):
                for n, v in wrapped.attrs.items():
                    f.attrs.setdefault(n, v)
            f.attrs["__wrapped__"] = wrapped
        return f
    return Builtin("wraps(...)", deco)


def _partial(I, c, a, k):
    f, args = a[0], list(a[1:])
    b = Builtin("partial", lambda I, b, kk: I.call(f, args + list(b), {**k, **kk}))
    b.attrs.update({"func": f, "args": TupV(args)})
    return b


def _reduce(I, a, k):
    it = list(I.iterate(a[1]))
    if len(a) > 2:
        acc = a[2]
    else:
        if not it:
            raise I.exc(TypeError, "reduce() of empty iterable with no initial value")
        acc = it.pop(0)
    for x in it:
        acc = I.call(a[0], [acc, x], {})
    return acc


def memo_fn(I, f):
    memo = DictV()

    def run(I, a, k):
        key = TupV(list(a) + [TupV([const(n), v]) for n, v in sorted(k.items())])
        lib.need_hash(I, key)
        v = lib.dict_get(I, memo, key)
        if v is None:
            v = I.call(f, a, k)
            I.touch(memo, "memoise")
            lib.dict_set(I, memo, key, v, quiet=True)
        I.event("memo", f, a, v)
        return v
    b = Builtin(getattr(f, "name", "cached"), run, binds=True)
    b.attrs["__wrapped__"] = f
    b.attrs["cache_clear"] = Builtin("cache_clear", lambda I, a, k: (memo.pairs.clear(), NONE)[1])
    return b


def _lru(I, a, k):
    if a and isinstance(a[0], (Fn, Builtin, BoundM)):
        return memo_fn(I, a[0])
    return Builtin("lru_cache(...)", lambda I, b, kk: memo_fn(I, b[0]))


def _total_ordering(I, a, k):
    c = a[0]
    lt = I.class_attr(c, "__lt__")
    if lt is not None:
        def mk(n, f):
            c.ns.setdefault(n, Builtin(n, f, binds=True))
        mk("__gt__", lambda I, b, k: const(not I.truth(I.call(lt, b, {})) and not lib.eq(I, b[0], b[1])))
        mk("__le__", lambda I, b, k: const(I.truth(I.call(lt, b, {})) or lib.eq(I, b[0], b[1])))
        mk("__ge__", lambda I, b, k: const(not I.truth(I.call(lt, b, {}))))
    return c


module("functools").update({
    "wraps": Builtin("wraps", _wraps), "reduce": Builtin("reduce", _reduce), "lru_cache": Builtin("lru_cache", _lru),
    "cache": Builtin("cache", lambda I, a, k: memo_fn(I, a[0])),
    "total_ordering": Builtin("total_ordering", _total_ordering),
    "update_wrapper": Builtin("update_wrapper", lambda I, a, k: _wraps(I, [a[1]], k).func(I, [a[0]], {})),
})
CTOR[functools.partial] = _partial
CTOR[functools.cached_property] = lambda I, c, a, k: Prop(a[0], cached=True)


def _chain(I, c, a, k):
    def gen():
        for x in a:
            yield from I.iterate(x)
    return IterV(gen(), "chain")


def _chain_from(I, a, k):
    def gen():
        for x in I.iterate(a[-1]):
            yield from I.iterate(x)
    return IterV(gen(), "chain")


def _islice(I, c, a, k):
    ns = [None if x is NONE else x.v for x in a[1:]]

    def gen():
        s = slice(*ns)
        start, stop, step = s.start or 0, s.stop, s.step or 1
        for i, x in enumerate(I.iterate(a[0])):
            if stop is not None and i >= stop:
                return
            if i >= start and (i - start) % step == 0:
                yield x
    return IterV(gen(), "islice")


def _groupby(I, c, a, k):
    key = arg(a, k, 1, "key")
    groups = []
    for x in I.iterate(a[0]):
        kv = I.call(key, [x], {}) if key is not None and key is not NONE else x
        if groups and lib.eq(I, groups[-1][0], kv):
            groups[-1][1].append(x)
        else:
            groups.append((kv, [x]))
    return IterV(iter([TupV([g, IterV(iter(v))]) for g, v in groups]), "groupby")


def _product(I, c, a, k):
    import itertools
    return IterV(iter([TupV(list(x)) for x in itertools.product(*[list(I.iterate(y)) for y in a])]), "product")


def _zip_longest(I, c, a, k):
    import itertools
    fill = k.get("fillvalue", NONE)
    return IterV(iter([TupV(list(x)) for x in itertools.zip_longest(*[list(I.iterate(y)) for y in a], fillvalue=fill)]))


def _count_it(I, c, a, k):
    def gen():
        i = a[0].v if a else 0
        st = a[1].v if len(a) > 1 else 1
        n = 0
        while True:
            n += 1
            if n > 300:
                raise Unsupported("unbounded count()")
            yield const(i)
            i += st
    return IterV(gen(), "count")


def _repeat(I, c, a, k):
    if len(a) > 1:
        return IterV(iter([a[0]] * a[1].v), "repeat")

    def gen():
        for _ in range(300):
            yield a[0]
        raise Unsupported("unbounded repeat()")
    return IterV(gen(), "repeat")


def _takedrop(take):
    def f(I, c, a, k):
        def gen():
            dropping = True
            for x in I.iterate(a[1]):
                if take:
                    if not I.truth(I.call(a[0], [x], {})):
                        return
                    yield x
                else:
                    if dropping and I.truth(I.call(a[0], [x], {})):
                        continue
                    dropping = False
                    yield x
        return IterV(gen())
    return f


def _starmap(I, c, a, k):
    def gen():
        for x in I.iterate(a[1]):
            yield I.call(a[0], list(I.iterate(x)), {})
    return IterV(gen())


import itertools as _it  # noqa: E402

CTOR.update({_it.chain: _chain, _it.islice: _islice, _it.groupby: _groupby, _it.product: _product,
             _it.zip_longest: _zip_longest, _it.count: _count_it, _it.repeat: _repeat, _it.takewhile: _takedrop(True),
             _it.dropwhile: _takedrop(False), _it.starmap: _starmap})
CLASS_MEMBERS[_it.chain] = {"from_iterable": Builtin("chain.from_iterable", _chain_from)}


def _tee(I, a, k):
    items = list(I.iterate(a[0]))
    return TupV([IterV(iter(items)) for _ in range(a[1].v if len(a) > 1 else 2)])


module("itertools").update({"tee": Builtin("tee", _tee)})


# contextlib

def _contextmanager(I, a, k):
    f = a[0]

    def run(I, b, kk):
        g = I.call(f, b, kk)
        if not isinstance(g, IterV):
            raise Unsupported("contextmanager")
        cm = IterV(g.it, "contextmanager")
        return cm
    b = Builtin(getattr(f, "name", "cm"), run, binds=True)
    b.attrs["__wrapped__"] = f
    return b


def _suppress(I, c, a, k):
    b = Builtin("suppress", lambda I, x, y: NONE)
    b.attrs["classes"] = list(a)
    return b


CTOR[contextlib.suppress] = _suppress
module("contextlib").update({"contextmanager": Builtin("contextmanager", _contextmanager)})


# operator

def _itemgetter(I, c, a, k):
    return Builtin("itemgetter", lambda I, b, kk: lib.getitem(I, b[0], a[0]) if len(a) == 1
                   else TupV([lib.getitem(I, b[0], x) for x in a]))


def _attrgetter(I, c, a, k):
    def get(I, b, kk):
        def one(n):
            v = b[0]
            for p in key_name(n).split("."):
                v = I.getattr(v, p)
            return v
        return one(a[0]) if len(a) == 1 else TupV([one(x) for x in a])
    return Builtin("attrgetter", get)


def _methodcaller(I, c, a, k):
    return Builtin("methodcaller", lambda I, b, kk: I.call(I.getattr(b[0], key_name(a[0])), a[1:], k))


import operator as _op  # noqa: E402

CTOR.update({_op.itemgetter: _itemgetter, _op.attrgetter: _attrgetter, _op.methodcaller: _methodcaller})


def _opbin(o):
    return lambda I, a, k: lib.binop(I, o, a[0], a[1])


def _opcmp(o):
    return lambda I, a, k: lib.compare(I, o, a[0], a[1])


module("operator").update({
    "add": Builtin("add", _opbin(ast.Add())), "sub": Builtin("sub", _opbin(ast.Sub())),
    "mul": Builtin("mul", _opbin(ast.Mult())), "or_": Builtin("or_", _opbin(ast.BitOr())),
    "and_": Builtin("and_", _opbin(ast.BitAnd())), "eq": Builtin("eq", _opcmp(ast.Eq())),
    "ne": Builtin("ne", _opcmp(ast.NotEq())), "lt": Builtin("lt", _opcmp(ast.Lt())),
    "gt": Builtin("gt", _opcmp(ast.Gt())), "le": Builtin("le", _opcmp(ast.LtE())),
    "ge": Builtin("ge", _opcmp(ast.GtE())), "is_": Builtin("is_", _opcmp(ast.Is())),
    "is_not": Builtin("is_not", _opcmp(ast.IsNot())),
    "contains": Builtin("contains", lambda I, a, k: const(lib.contains(I, a[0], a[1]))),
    "getitem": Builtin("getitem", lambda I, a, k: lib.getitem(I, a[0], a[1])),
    "not_": Builtin("not_", lambda I, a, k: const(not I.truth(a[0]))),
    "truth": Builtin("truth", lambda I, a, k: const(I.truth(a[0]))),
})


# copy, collections

def _copy(I, a, k):
    v = a[0]
    if isinstance(v, ListV):
        return ListV(v.items, v.cls)
    if isinstance(v, SetV):
        return SetV(v.items, v.cls, v.frozen)
    if isinstance(v, DictV):
        d = DictV(v.pairs, v.cls)
        d.default_factory = v.default_factory
        return d
    if isinstance(v, Inst) and v.cls.members is None:
        m = I.class_attr(v.cls, "__copy__")
        if m is not None:
            return I.call(m, [v], {})
        o = Inst(v.cls, v.attrs)
        o.native = v.native
        return o
    if isinstance(v, Sym):
        k = I.class_of(v)
        if k is not None and solid(k) in (list, dict, set) or k is None:
            return I.app("copy", [v], k)
    return v


def _deepcopy(I, a, k):
    v = a[0]
    if isinstance(v, ListV):
        return ListV([_deepcopy(I, [x], {}) for x in v.items], v.cls)
    if isinstance(v, TupV):
        return TupV([_deepcopy(I, [x], {}) for x in v.items])
    if isinstance(v, DictV):
        return DictV([(x, _deepcopy(I, [y], {})) for x, y in v.pairs], v.cls)
    if isinstance(v, Inst) and v.cls.members is None:
        o = Inst(v.cls, {n: _deepcopy(I, [x], {}) for n, x in v.attrs.items()})
        o.native = v.native
        return o
    return _copy(I, a, k)


module("copy").update({"copy": Builtin("copy", _copy), "deepcopy": Builtin("deepcopy", _deepcopy)})
module("collections").update({"namedtuple": Builtin("namedtuple", _namedtuple_fn)})


def _chainmap(I, c, a, k):
    d = DictV()
    for m in reversed(a):
        for x, y in lib.mapping_pairs(I, m):
            lib.dict_set(I, d, x, y, quiet=True)
    return d


CTOR[collections.ChainMap] = _chainmap

# logging, textwrap, warnings

LOGGER = mkcls("Logger", module="logging")
for _n in "debug info warning warn error exception critical log setLevel addHandler isEnabledFor".split():
    LOGGER.ns[_n] = Builtin(f"Logger.{_n}", lambda I, a, k: NONE)
module("logging").update({"getLogger": Builtin("getLogger", lambda I, a, k: Inst(LOGGER, label="logger"))})
module("warnings").update({"warn": Builtin("warn", lambda I, a, k: NONE)})


def _textwrap(name):
    import textwrap
    real = getattr(textwrap, name)

    def f(I, a, k):
        if all(isinstance(x, Const) for x in a) and not k:
            return lib.fold(I, real, *[x.v for x in a])
        return I.app(name, a, STR)
    return Builtin(name, f)


module("textwrap").update({n: _textwrap(n) for n in ("indent", "dedent")})


# importlib

def _import_module(I, a, k):
    n = a[0]
    if isinstance(n, Const):
        if n.v == "":
            raise I.exc(ValueError, "Empty module name")
        h = I.__dict__.get("import_hook")
        if h is not None:
            r = h(I, n)
            if r is not None:
                return r
        if n.v in I.sources or n.v in I.modules or n.v.split(".")[0] in KNOWN:
            return I.import_module(n.v)
        raise no_module(I, n)
    h = I.__dict__.get("import_hook")
    if h is not None:
        r = h(I, n)
        if r is not None:
            return r
    return sym_import(I, n)


def sym_import(I, n):
    """Import of a module with an unknown name: it exists, does not exist, or fails importing something else."""
    t = I.choose(("import", vid(n)), ["ok", "missing", "inner"], f"import of {n!r}")
    if t == "ok":
        return I.app("module", [n], MODULETYPE, trusted=True, module=True)
    raise no_module(I, n if t == "missing" else Sym("other module", STR, atom=True, never_eq=True))


module("importlib").update({"import_module": Builtin("import_module", _import_module)})
module("importlib.metadata").update({
    "entry_points": Builtin("entry_points", lambda I, a, k: entry_points(I, a, k)),
})


def entry_points(I, a, k):
    g = k.get("group")
    I.event("entry_points", g)
    table = I.__dict__.get("entrypoint_table")
    if table is None:
        I.taint("entry_points")
        return ListV([])
    return select_entry_points(I, table(I, g), {n: v for n, v in k.items() if n != "group"})


def select_entry_points(I, eps, conds):
    return Inst(ENTRYPOINTS, {"_eps": ListV([e for e in eps if all(lib.eq(I, I.getattr(e, n), v) for n, v in conds.items())])})


def _eps_item(I, a, k):
    for e in a[0].attrs["_eps"].items:
        if lib.eq(I, I.getattr(e, "name"), a[1]):
            return e
    raise I.exc(KeyError, a[1])


ENTRYPOINTS = mkcls("EntryPoints", [OBJECT], module="importlib.metadata")
ENTRYPOINTS.ns.update({
    "__iter__": Builtin("EntryPoints.__iter__", lambda I, a, k: ListV(list(a[0].attrs["_eps"].items)), binds=True),
    "__len__": Builtin("EntryPoints.__len__", lambda I, a, k: const(len(a[0].attrs["_eps"].items)), binds=True),
    "__contains__": Builtin("EntryPoints.__contains__", lambda I, a, k: const(any(e is a[1] for e in a[0].attrs["_eps"].items)), binds=True),
    "__getitem__": Builtin("EntryPoints.__getitem__", _eps_item, binds=True),
    "select": Builtin("EntryPoints.select", lambda I, a, k: select_entry_points(I, a[0].attrs["_eps"].items, k), binds=True),
    "names": Prop(Builtin("EntryPoints.names", lambda I, a, k: SetV([I.getattr(e, "name") for e in a[0].attrs["_eps"].items]))),
    "groups": Prop(Builtin("EntryPoints.groups", lambda I, a, k: SetV([I.getattr(e, "group") for e in a[0].attrs["_eps"].items]))),
})


from . import extdc, exttype, extdata  # noqa: E402,F401
from .exttype import get_annotations as typeapi_annotations  # noqa: E402
