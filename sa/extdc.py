"""Model of the dataclasses module."""
import dataclasses as _dc

from .vals import *
from . import lib
from .interp import Raised, Unsupported
from .lib import arg, key_name
from .extlib import MODS, SPECIALS, module

MISSINGT = mkcls("_MISSING_TYPE", module="dataclasses")
MISSING = Inst(MISSINGT, label="MISSING")
KINDT = mkcls("_FIELD_BASE", module="dataclasses")
FIELD_, CLASSVAR_, INITVAR_ = (Inst(KINDT, label=n) for n in ("_FIELD", "_FIELD_CLASSVAR", "_FIELD_INITVAR"))
FIELD = mkcls("Field", module="dataclasses")
INITVAR = mkcls("InitVar", module="dataclasses")
KWONLYT = mkcls("KW_ONLY", module="dataclasses")
KW_ONLY = KWONLYT
FROZENERR = ext(_dc.FrozenInstanceError)
INITVAR.ns["__class_getitem__"] = ClassM(Builtin("InitVar[]", lambda I, a, k: Inst(INITVAR, {"type": a[1]})))
PARAMS = mkcls("_DataclassParams", module="dataclasses")

FIELD_ARGS = ("default", "default_factory", "init", "repr", "hash", "compare", "metadata", "kw_only")


def make_field(I, k):
    at = {"default": MISSING, "default_factory": MISSING, "init": TRUE, "repr": TRUE, "hash": NONE, "compare": TRUE,
          "metadata": NONE, "kw_only": MISSING, "name": NONE, "type": NONE, "_field_type": NONE}
    for n, v in k.items():
        if n not in FIELD_ARGS:
            raise I.exc(TypeError, f"field() got an unexpected keyword argument {n!r}")
        at[n] = v
    if at["default"] is not MISSING and at["default_factory"] is not MISSING:
        raise I.exc(ValueError, "cannot specify both default and default_factory")
    if at["metadata"] is NONE:
        at["metadata"] = DictV(cls=lib.MAPPINGPROXY)
    elif not lib.is_mapping(I, at["metadata"]):
        raise I.exc(TypeError, "metadata must be a mapping")
    return Inst(FIELD, at)


def _field(I, a, k):
    if a:
        raise I.exc(TypeError, "field() takes 0 positional arguments")
    return make_field(I, k)


FIELD.ctor = lambda I, c, a, k: make_field(I, dict(zip(FIELD_ARGS, a), **k))


def is_classvar(v):
    if v is SPECIALS["ClassVar"] or isinstance(v, Alias) and v.origin is SPECIALS["ClassVar"]:
        return True
    if isinstance(v, Const) and isinstance(v.v, str):
        s = v.v.strip()
        return s.startswith(("ClassVar", "t.ClassVar", "typing.ClassVar", "te.ClassVar"))
    return False


def is_initvar(v):
    if v is INITVAR or isinstance(v, Inst) and v.cls is INITVAR:
        return True
    return isinstance(v, Const) and isinstance(v.v, str) and v.v.strip().startswith(("InitVar", "dataclasses.InitVar"))


def own_fields(c):
    f = None
    for k in c.mro:
        if "__dataclass_fields__" in k.ns:
            f = k.ns["__dataclass_fields__"]
            break
    return f


def class_lookup(I, c, n):
    try:
        return I.getattr(c, n)
    except Raised as r:
        if I.raises(r.exc, AttributeError):
            return None
        raise


def process(I, c, opts):
    t = lambda n, d: I.truth(opts[n]) if n in opts else d
    init, rep, eq, order = t("init", True), t("repr", True), t("eq", True), t("order", False)
    frozen, kw_only, slots, unsafe_hash = t("frozen", False), t("kw_only", False), t("slots", False), t("unsafe_hash", False)
    if not isinstance(c, Cls):
        raise I.exc(TypeError, "dataclass() should be called on a class")
    fields = {}
    any_frozen, has_dc = False, False
    for b in reversed(c.mro[1:]):
        bf = own_fields(b)
        if bf is not None:
            for k, f in bf.pairs:
                fields[k.v] = f
        if "__dataclass_fields__" in b.ns:
            has_dc = True
            any_frozen = any_frozen or I.truth(b.ns["__dataclass_params__"].attrs["frozen"])
    ann = c.ns.get("__annotations__") or DictV()
    I.touch(c, "dataclass")
    own = []
    kwseen = kw_only
    for k, typ in ann.pairs:
        n = k.v
        if typ is KW_ONLY or isinstance(typ, Const) and typ.v in ("KW_ONLY", "dataclasses.KW_ONLY"):
            kwseen = True
            continue
        default = class_lookup(I, c, n)
        if isinstance(default, Inst) and default.cls is FIELD:
            f = default
            I.touch(f, f"dataclass sets name/type of field {n}")
        else:
            f = make_field(I, {} if default is None else {"default": default})
        f.attrs["name"] = const(n)
        f.attrs["type"] = typ
        f.attrs["_field_type"] = CLASSVAR_ if is_classvar(typ) else INITVAR_ if is_initvar(typ) else FIELD_
        if f.attrs["_field_type"] is not FIELD_ and f.attrs["default_factory"] is not MISSING:
            raise I.exc(TypeError, f"field {n} cannot have a default factory")
        if f.attrs["kw_only"] is MISSING:
            f.attrs["kw_only"] = const(kwseen)
        if f.attrs["_field_type"] is FIELD_ and f.attrs["default"] is not MISSING:
            d = f.attrs["default"]
            if isinstance(d, (ListV, DictV)) or isinstance(d, SetV) and not d.frozen:
                raise I.exc(ValueError, f"mutable default {d!r} for field {n} is not allowed: use default_factory")
            if isinstance(d, Inst):
                h = I.class_attr(d.cls, "__hash__")
                if isinstance(h, Const) and h.v is None:
                    raise I.exc(ValueError, f"mutable default {d!r} for field {n} is not allowed: use default_factory")
        own.append((n, f))
    for n, f in own:
        fields[n] = f
        cur = class_lookup(I, c, n)
        if isinstance(cur, Inst) and cur.cls is FIELD:
            if f.attrs["default"] is MISSING:
                if n not in c.ns:
                    raise I.exc(AttributeError, n)
                del c.ns[n]
            else:
                c.ns[n] = f.attrs["default"]
    annotated = {k.v for k, _ in ann.pairs}
    for n, v in c.ns.items():
        if isinstance(v, Inst) and v.cls is FIELD and n not in annotated:
            raise I.exc(TypeError, f"{n!r} is a field but has no type annotation")
    if has_dc:
        if any_frozen and not frozen:
            raise I.exc(TypeError, "cannot inherit non-frozen dataclass from a frozen one")
        if not any_frozen and frozen:
            raise I.exc(TypeError, "cannot inherit frozen dataclass from a non-frozen one")
    c.ns["__dataclass_fields__"] = DictV([(const(n), f) for n, f in fields.items()])
    c.ns["__dataclass_params__"] = Inst(PARAMS, {"frozen": const(frozen), "eq": const(eq), "init": const(init),
        "repr": const(rep), "order": const(order), "unsafe_hash": const(unsafe_hash)})
    c.dc = {"frozen": frozen, "slots": slots}
    has_post = I.class_attr(c, "__post_init__") is not None
    flds = [f for f in fields.values() if f.attrs["_field_type"] in (FIELD_, INITVAR_)]
    if init:
        std = [f for f in flds if f.attrs["init"] is not FALSE and not I.truth(f.attrs["kw_only"])]
        kwf = [f for f in flds if f.attrs["init"] is not FALSE and I.truth(f.attrs["kw_only"])]
        seen = False
        for f in std:
            if f.attrs["default"] is not MISSING or f.attrs["default_factory"] is not MISSING:
                seen = True
            elif seen:
                raise I.exc(TypeError, f"non-default argument {f.attrs['name'].v!r} follows default argument")
        names = [f.attrs["name"].v for f in std]
        allf = {f.attrs["name"].v: f for f in std + kwf}

        def do_init(I, a, k):
            o, a = a[0], a[1:]
            if len(a) > len(names):
                raise I.exc(TypeError, f"{c.name}.__init__() takes {len(names) + 1} positional arguments")
            given = dict(zip(names, a))
            for n, v in k.items():
                if not isinstance(n, str):
                    raise I.exc(TypeError, f"{c.name}.__init__() got an unexpected keyword argument {n!r}")
                if n in given:
                    raise I.exc(TypeError, f"{c.name}.__init__() got multiple values for argument {n!r}")
                if n not in allf:
                    raise I.exc(TypeError, f"{c.name}.__init__() got an unexpected keyword argument {n!r}")
                given[n] = v
            for n, f in allf.items():
                if n not in given and f.attrs["default"] is MISSING and f.attrs["default_factory"] is MISSING:
                    raise I.exc(TypeError, f"{c.name}.__init__() missing required argument {n!r}")
            if isinstance(o, Inst):
                o.native = {"passed": dict(given)}
            I.event("construct", o.cls if isinstance(o, Inst) else c, o, dict(given))
            initvars = []
            for f in flds:
                n = f.attrs["name"].v
                d, df = f.attrs["default"], f.attrs["default_factory"]
                if n in given:
                    v = given[n]
                elif df is not MISSING and (d is MISSING or f.attrs["init"] is FALSE):
                    v = I.call(df, [], {})
                elif d is not MISSING:
                    if f.attrs["init"] is FALSE and not slots:
                        continue
                    v = d
                else:
                    continue
                if f.attrs["_field_type"] is INITVAR_:
                    initvars.append(v)
                elif frozen:
                    o.attrs[n] = v
                else:
                    I.setattr(o, n, v)
            if has_post:
                I.call(I.getattr(o, "__post_init__"), initvars, {})
            return NONE
        if "__init__" not in c.ns:
            c.ns["__init__"] = Builtin(f"{c.name}.__init__", do_init, binds=True)
            c.ns["__init__"].attrs["__dc_init__"] = TRUE
    if rep and "__repr__" not in c.ns:
        c.ns["__repr__"] = Builtin(f"{c.name}.__repr__", lambda I, a, k: I.app("repr", [a[0]], STR, truth=True), binds=True)

    def key(o, flag="compare"):
        return TupV([I.getattr(o, f.attrs["name"].v) for f in flds
                     if f.attrs["_field_type"] is FIELD_ and I.truth(f.attrs[flag])])

    def same(x, y):
        kx, ky = I.class_of(x), I.class_of(y)
        return kx is not None and kx is ky
    if eq and "__eq__" not in c.ns:
        def do_eq(I, a, k):
            if a[0] is a[1]:
                return TRUE
            if not same(a[0], a[1]):
                return const(NotImplemented)
            return const(lib.eq(I, key(a[0]), key(a[1])))
        c.ns["__eq__"] = Builtin(f"{c.name}.__eq__", do_eq, binds=True)
    if order:
        import ast
        for n, op in (("__lt__", ast.Lt()), ("__le__", ast.LtE()), ("__gt__", ast.Gt()), ("__ge__", ast.GtE())):
            c.ns[n] = Builtin(n, lambda I, a, k, op=op: lib.compare(I, op, key(a[0]), key(a[1])) if same(a[0], a[1])
                              else const(NotImplemented), binds=True)
    explicit_hash = "__hash__" in c.ns
    if unsafe_hash or (eq and frozen and not explicit_hash):
        def do_hash(I, a, k):
            kk = key(a[0])
            lib.need_hash(I, kk)
            return I.app("hash", [kk], INT)
        c.ns["__hash__"] = Builtin(f"{c.name}.__hash__", do_hash, binds=True)
    elif eq and not frozen and not explicit_hash:
        c.ns["__hash__"] = NONE
    if frozen:
        fnames = [f.attrs["name"].v for f in flds]

        def fsa(I, a, k):
            o, n = a[0], key_name(a[1])
            if I.class_of(o) is c or n in fnames:
                raise I.exc(FROZENERR, f"cannot assign to field {n!r}")
            I.touch(o, f"setattr {n}")
            o.attrs[n] = a[2]
            return NONE

        def fda(I, a, k):
            raise I.exc(FROZENERR, f"cannot delete field {key_name(a[1])!r}")
        c.ns["__setattr__"] = Builtin(f"{c.name}.__setattr__", fsa, binds=True)
        c.ns["__delattr__"] = Builtin(f"{c.name}.__delattr__", fda, binds=True)
    c.ns.setdefault("__match_args__", TupV([const(f.attrs["name"].v) for f in flds if f.attrs["init"] is not FALSE]))
    if slots:
        n = Cls(c.name, c.module, c.bases, node=c.node)
        n.qual = c.qual
        n.meta = c.meta
        n.flags = dict(c.flags)
        n.orig_bases = c.orig_bases
        n.dc = c.dc
        n.mro = [n] + c.mro[1:]
        names_ = set(fields)
        n.ns.update({k: v for k, v in c.ns.items() if k not in names_})
        n.ns["__slots__"] = TupV([const(x) for x in fields])
        old = c

        def reown(v):
            if isinstance(v, (StaticM, ClassM)):
                reown(v.fn)
        for v in n.ns.values():
            reown(v)
        c2 = n
        for kk in ("__init__",):
            pass
        n.flags["slots_of"] = old
        return c2
    return c


def _dataclass(I, a, k):
    for n in k:
        if n not in ("init", "repr", "eq", "order", "unsafe_hash", "frozen", "match_args", "kw_only", "slots", "weakref_slot"):
            raise I.exc(TypeError, f"dataclass() got an unexpected keyword argument {n!r}")
    if a and a[0] is not NONE:
        return process(I, a[0], k)
    return Builtin("dataclass(...)", lambda I, b, kk: process(I, b[0], k))


def dc_class(I, v):
    """The class whose dataclass fields `v` has, or None."""
    c = v if isinstance(v, Cls) else I.class_of(v) if not isinstance(v, Alias) else None
    if c is None and isinstance(v, Sym):
        if v.expr and v.expr[0] == "typeof":
            return dc_class(I, v.expr[1])
        return None
    if c is None:
        return None
    return c if own_fields(c) is not None else None


def _fields(I, a, k):
    v = a[0]
    if isinstance(v, Alias) and isinstance(v.origin, Cls):
        v = v.origin
    c = dc_class(I, v)
    if c is None:
        raise I.exc(TypeError, "must be called with a dataclass type or instance")
    return TupV([f for _, f in own_fields(c).pairs if f.attrs["_field_type"] is FIELD_])


def _is_dataclass(I, a, k):
    v = a[0]
    if isinstance(v, Sym) and I.class_of(v) is None and not (v.expr and v.expr[0] == "typeof"):
        return const(I.choose(("is_dataclass", v.sid), [False, True], f"is_dataclass({v!r})"))
    return const(dc_class(I, v) is not None)


def _asdict(I, a, k):
    o = a[0]
    c = dc_class(I, o)
    if c is None or isinstance(o, Cls):
        raise I.exc(TypeError, "asdict() should be called on dataclass instances")

    def rec(v):
        if isinstance(v, Inst) and own_fields(v.cls) is not None:
            return DictV([(f.attrs["name"], rec(I.getattr(v, f.attrs["name"].v))) for f in _fields(I, [v], {}).items])
        if isinstance(v, ListV):
            return ListV([rec(x) for x in v.items])
        if isinstance(v, TupV):
            return TupV([rec(x) for x in v.items])
        if isinstance(v, DictV):
            return DictV([(rec(x), rec(y)) for x, y in v.pairs])
        return v
    return rec(o)


def _replace(I, a, k):
    o = a[0]
    c = dc_class(I, o)
    if c is None or isinstance(o, Cls):
        raise I.exc(TypeError, "replace() should be called on dataclass instances")
    ch = dict(k)
    for _, f in own_fields(c).pairs:
        n = f.attrs["name"].v
        if f.attrs["_field_type"] is CLASSVAR_:
            continue
        if f.attrs["init"] is FALSE:
            if n in ch:
                raise I.exc(ValueError, f"field {n} is declared with init=False")
            continue
        if n not in ch:
            if f.attrs["_field_type"] is INITVAR_ and f.attrs["default"] is MISSING:
                raise I.exc(ValueError, f"InitVar {n!r} must be specified with replace()")
            ch[n] = I.getattr(o, n)
    return I.call(c, [], ch)


def _make(I, a, k):
    I.taint("make_dataclass")
    c = mkcls(key_name(a[0]) or "made")
    return process(I, c, {})


module("dataclasses").update({
    "MISSING": MISSING, "Field": FIELD, "InitVar": INITVAR, "KW_ONLY": KW_ONLY, "FrozenInstanceError": FROZENERR,
    "_FIELD": FIELD_, "_FIELD_CLASSVAR": CLASSVAR_, "_FIELD_INITVAR": INITVAR_, "_FIELDS": const("__dataclass_fields__"),
    "dataclass": Builtin("dataclass", _dataclass), "field": Builtin("field", _field),
    "fields": Builtin("fields", _fields), "is_dataclass": Builtin("is_dataclass", _is_dataclass),
    "asdict": Builtin("asdict", _asdict), "replace": Builtin("replace", _replace),
    "astuple": Builtin("astuple", lambda I, a, k: TupV([y for _, y in _asdict(I, a, k).pairs])),
    "make_dataclass": Builtin("make_dataclass", _make),
})


def instance_field(c, n):
    """The dataclass field (not a class variable) that instances of `c` hold under the name `n`, or None."""
    f = own_fields(c) if isinstance(c, Cls) else None
    if f is not None:
        for k, v in f.pairs:
            if k.v == n and v.attrs["_field_type"] is FIELD_:
                return v
    return None
