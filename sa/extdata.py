"""Models of value types: decimal, datetime, base64, uuid, pathlib, json, nr.date and nr.stream."""
import ast
import base64 as _b64
import binascii
import datetime as _dt
import decimal as _dec
import pathlib
import uuid as _uuid

from .vals import *
from . import lib, extlib
from .interp import Raised, Unsupported
from .lib import arg, key_name, may_raise
from .extlib import CLASS_MEMBERS, CTOR, SYM_MEMBERS, module

DECIMAL, DCONTEXT = ext(_dec.Decimal), ext(_dec.Context)
DATE, DATETIME, TIME = ext(_dt.date), ext(_dt.datetime), ext(_dt.time)
UUID, PATH, PUREPATH = ext(_uuid.UUID), ext(pathlib.Path), ext(pathlib.PurePath)
POSIXPATH, PUREPOSIX = ext(pathlib.PosixPath), ext(pathlib.PurePosixPath)
INVALIDOP = ext(_dec.InvalidOperation)


def inverse(I, enc, v, cls):
    """If v is enc(x) for a known x of the class, decoding it gives x back."""
    if isinstance(v, Sym) and v.expr and v.expr[0] == enc:
        x = v.expr[1]
        k = I.class_of(x) if isinstance(x, V) else None
        if k is not None and (issub(k, cls)):
            return x
    return None


def literal(I, fn, v):
    try:
        fn(v)
        return True
    except Exception:
        return False


# ------------------------------------------------------------------------------------------------ decimal

def same_decimal(I, x, cls):
    """The decimal x as an instance of the class: x itself if it already is one, also beneath exact conversions."""
    while I.class_of(x) is not cls and isinstance(x, Sym) and x.expr and x.expr[0] == "Decimal":
        y = x.expr[1]
        k = I.class_of(y)
        if k is None or not issub(k, DECIMAL):
            break
        x = y
    return x if I.class_of(x) is cls else I.app("Decimal", [x], cls)


def to_decimal(I, v, cls, op, pre=()):
    k = lib.bound(I, v)
    if isinstance(v, Inst) and v.cls.flags.get("int_enum"):
        v = v.attrs["value"]
        k = lib.bound(I, v)
    if k is None:
        lib.unknown_op(I, v, what="Decimal")
        may_raise(I, (op, lib.vid(v)), _dec.InvalidOperation)
    elif issub(k, DECIMAL):
        if not pre:
            return same_decimal(I, v, cls)
    elif issub(k, STR):
        x = inverse(I, "str", v, DECIMAL)
        if x is not None:
            if not pre:
                return same_decimal(I, x, cls)
        elif isinstance(v, Const):
            if not literal(I, _dec.Decimal, v.v):
                raise I.exc(_dec.InvalidOperation, "invalid literal for Decimal")
        else:
            may_raise(I, ("Decimal", lib.vid(v)), _dec.InvalidOperation)
    elif issub(k, INT) or issub(k, FLOAT):
        pass
    elif k is TUPLE:
        may_raise(I, (op, lib.vid(v)), ValueError)
    else:
        raise I.exc(TypeError, f"conversion from {k.name} to Decimal is not supported")
    return I.app(op, list(pre) + [v], cls)


def _decimal(I, c, a, k):
    return to_decimal(I, a[0], c, "Decimal") if a else Sym("Decimal(0)", c)


CTOR[_dec.Decimal] = _decimal


DCONTEXT_ARGS = ("prec", "rounding", "Emin", "Emax", "capitals", "clamp")
# what a context was built with (None: the default context's value)
for _n in DCONTEXT_ARGS:
    DCONTEXT.ns[_n] = Prop(Builtin(f"Context.{_n}", lambda I, a, k, n=_n: a[0].attrs.get(n, NONE)))


def _dcontext(I, c, a, k):
    o = Inst(c, dict(zip(("prec", "rounding", "Emin", "Emax", "capitals", "clamp", "flags", "traps"), a), **k))
    for n in DCONTEXT_ARGS:
        o.attrs.setdefault(n, NONE)
    return o


CTOR[_dec.Context] = _dcontext


def _create_decimal(I, a, k):
    return to_decimal(I, a[1], DECIMAL, "create_decimal", [a[0]])


def _ctx_method(I, a, k):
    I.taint("decimal context method")
    return I.app("decimal_op", a, DECIMAL)


DCONTEXT.ns["create_decimal"] = Builtin("create_decimal", _create_decimal, binds=True)
DCONTEXT.ns["plus"] = Builtin("plus", lambda I, a, k: I.app("create_decimal", a, DECIMAL), binds=True)
DCONTEXT.ns["to_sci_string"] = Builtin("to_sci_string", lambda I, a, k: I.app("str", [a[1]], STR), binds=True)
module("decimal").update({"getcontext": Builtin("getcontext", lambda I, a, k: I.app("getcontext", [], DCONTEXT))})


def opaque(name, cls=None, *errors):
    """A method without effects of which the result is not known."""
    def run(I, a, k):
        x = lib.bound(I, a[0]) if cls == "same" else cls
        if errors:
            may_raise(I, (name, lib.vid(a[0])), *errors)
        return I.app(name, list(a), x, kw=dict(k))
    return Builtin(name, run)


SYM_MEMBERS.setdefault(_dec.Decimal, {}).update({n: opaque(f"Decimal.{n}", c, *e) for n, c, *e in [
    ("normalize", DECIMAL), ("quantize", DECIMAL, _dec.InvalidOperation), ("to_integral_value", DECIMAL), ("to_integral", DECIMAL),
    ("to_integral_exact", DECIMAL), ("canonical", DECIMAL), ("copy_abs", DECIMAL), ("copy_negate", DECIMAL), ("sqrt", DECIMAL),
    ("to_eng_string", STR), ("adjusted", INT), ("as_tuple", TUPLE), ("is_finite", BOOL), ("is_nan", BOOL), ("is_qnan", BOOL),
    ("is_snan", BOOL), ("is_infinite", BOOL), ("is_signed", BOOL), ("is_zero", BOOL), ("is_normal", BOOL), ("is_subnormal", BOOL)]})


# ------------------------------------------------------------------------------------------------ base64

def _b64decode(I, a, k):
    v = a[0]
    kk = lib.bound(I, v)
    if kk is None:
        lib.unknown_op(I, v, what="b64decode")
    elif not (issub(kk, STR) or issub(kk, BYTES) or issub(kk, ext(bytearray))):
        raise I.exc(TypeError, "argument should be a bytes-like object or ASCII string")
    x = inverse(I, "b64encode", v, BYTES)
    if x is None and isinstance(v, Sym) and v.expr and v.expr[0] == "decode":
        x = inverse(I, "b64encode", v.expr[1], BYTES)
    if x is not None:
        return x
    if isinstance(v, Const):
        if not k and len(a) == 1:
            return lib.fold(I, _b64.b64decode, v.v)
        if len(a) == 1 and set(k) == {"validate"} and isinstance(k["validate"], Const):
            return lib.fold(I, lambda x, f=k["validate"].v: _b64.b64decode(x, validate=f), v.v)
    may_raise(I, ("b64decode", lib.vid(v)), binascii.Error, ValueError)
    return I.app("b64decode", [v] + list(k.values()), BYTES)


def _b64encode(I, a, k):
    v = a[0]
    kk = lib.bound(I, v)
    if kk is None:
        lib.unknown_op(I, v, what="b64encode")
    elif not (issub(kk, BYTES) or issub(kk, ext(bytearray)) or kk is ext(memoryview)):
        raise I.exc(TypeError, f"a bytes-like object is required, not {kk.name!r}")
    if isinstance(v, Const) and len(a) == 1 and not k:
        return lib.fold(I, _b64.b64encode, v.v)
    return I.app("b64encode", [v], BYTES, ascii=True)


def _other(n):
    def f(I, a, k):
        if n.endswith("decode"):
            may_raise(I, (n, lib.vid(a[0])), binascii.Error)
        return I.app(n, a, BYTES, ascii=True)
    return f


module("base64").update({"b64decode": Builtin("b64decode", _b64decode), "b64encode": Builtin("b64encode", _b64encode)})
for _n in ("urlsafe_b64encode urlsafe_b64decode standard_b64encode standard_b64decode b32encode b32decode b16encode "
           "b16decode b85encode b85decode a85encode a85decode").split():
    module("base64")[_n] = Builtin(_n, _other(_n))


def _decode(I, a, k):
    v = a[0]
    if not v.props.get("ascii"):
        may_raise(I, ("decode", lib.vid(v)), UnicodeDecodeError)
    return I.app("decode", [v], STR)


def _hexm(I, a, k):
    return I.app("hex", [a[0]], STR)


SYM_MEMBERS[bytes] = {"decode": Builtin("bytes.decode", _decode), "hex": Builtin("bytes.hex", _hexm)}


# ------------------------------------------------------------------------------------------------ uuid, pathlib

def _uuid_ctor(I, c, a, k):
    v = a[0] if a else k.get("hex", NONE)
    kk = lib.bound(I, v)
    if kk is not None and not issub(kk, STR):
        if v is NONE:
            return I.app("UUID", list(k.values()), c)
        raise I.exc(AttributeError, f"{kk.name!r} object has no attribute 'replace'")
    x = inverse(I, "str", v, UUID)
    if x is not None:
        return x
    if isinstance(v, Const):
        if not literal(I, _uuid.UUID, v.v):
            raise I.exc(ValueError, "badly formed hexadecimal UUID string")
    else:
        may_raise(I, ("UUID", lib.vid(v)), ValueError)
    return I.app("UUID", [v], c)


CTOR[_uuid.UUID] = _uuid_ctor
SYM_MEMBERS[_uuid.UUID] = {"hex": lambda I, s: I.app("uuid.hex", [s], STR), "int": lambda I, s: I.app("uuid.int", [s], INT),
                           "urn": lambda I, s: I.app("uuid.urn", [s], STR)}


def _path(cls):
    def f(I, c, a, k):
        target = cls if c.py is not None else c
        for v in a:
            kk = lib.bound(I, v)
            if kk is not None and not issub(kk, STR) and not issub(kk, PUREPATH):
                raise I.exc(TypeError, f"argument should be a str or an os.PathLike object, not {kk.name!r}")
        if len(a) == 1:
            x = inverse(I, "str", a[0], PUREPATH)
            if x is not None and I.class_of(x) is target:
                return x
        return I.app("Path", a + [target], target)
    return f


CTOR[pathlib.PurePath] = _path(PUREPOSIX)
CTOR[pathlib.Path] = _path(POSIXPATH)
CTOR[pathlib.PosixPath] = _path(POSIXPATH)
CTOR[pathlib.PurePosixPath] = _path(PUREPOSIX)
SYM_MEMBERS[pathlib.PurePath] = {"name": lambda I, s: I.app("path.name", [s], STR),
                                 "as_posix": Builtin("as_posix", lambda I, a, k: I.app("as_posix", a, STR)),
                                 "__fspath__": Builtin("__fspath__", lambda I, a, k: I.app("str", a, STR))}


SYM_MEMBERS[pathlib.PurePath].update({n: opaque(f"path.{n}", "same") for n in ("joinpath", "with_suffix", "with_name", "relative_to")})
SYM_MEMBERS[pathlib.PurePath]["__truediv__"] = SYM_MEMBERS[pathlib.PurePath]["joinpath"]
SYM_MEMBERS[pathlib.Path] = {n: opaque(f"path.{n}", "same") for n in ("resolve", "absolute", "expanduser")}


# ------------------------------------------------------------------------------------------------ datetime

def _iso(cls, name):
    def f(I, a, k):
        c, v = a
        kk = lib.bound(I, v)
        if kk is not None and not issub(kk, STR):
            raise I.exc(TypeError, "fromisoformat: argument must be str")
        x = inverse(I, "isoformat", v, cls)
        if x is not None:
            return x
        may_raise(I, ("fromisoformat", cls.name, lib.vid(v)), ValueError)
        return I.app(name, [v], c)
    return Builtin(name, f, binds=True)


def _strptime(I, a, k):
    may_raise(I, ("strptime", lib.vid(a[1])), ValueError)
    return I.app("strptime", a[1:], DATETIME)


for _c in (DATE, DATETIME, TIME):
    CLASS_MEMBERS[_c.py] = {"fromisoformat": _iso(_c, f"{_c.name}.fromisoformat")}
    SYM_MEMBERS[_c.py] = {
        "isoformat": Builtin("isoformat", lambda I, a, k: I.app("isoformat", a, STR)),
        "strftime": Builtin("strftime", lambda I, a, k: I.app("strftime", a, STR)),
        "replace": Builtin("replace", lambda I, a, k: I.app("dt.replace", a, I.class_of(a[0]))),
        "tzinfo": lambda I, s: I.app("tzinfo", [s]),
        "timetuple": Builtin("timetuple", lambda I, a, k: I.app("timetuple", a)),
    }
    CTOR[_c.py] = (lambda c0: lambda I, c, a, k: I.app(f"{c0.name}()", list(a) + list(k.values()), c))(_c)
CLASS_MEMBERS[_dt.datetime].update({
    "strptime": Builtin("strptime", _strptime, binds=True),
    "combine": Builtin("combine", lambda I, a, k: I.app("combine", a[1:], DATETIME), binds=True),
    "now": Builtin("now", lambda I, a, k: Sym("now()", DATETIME), binds=True)})
SYM_MEMBERS[_dt.datetime].update({"astimezone": opaque("astimezone", DATETIME, OSError, OverflowError, ValueError),
                                  "timestamp": opaque("timestamp", FLOAT, OverflowError, ValueError)})
SYM_MEMBERS[_dt.datetime].update({
    "date": Builtin("datetime.date", lambda I, a, k: I.app("date_of", a, DATE)),
    "time": Builtin("datetime.time", lambda I, a, k: I.app("time_of", a, TIME)),
    "timetz": Builtin("datetime.timetz", lambda I, a, k: I.app("timetz_of", a, TIME))})


# ------------------------------------------------------------------------------------------------ json

def kwdict(k):
    return DictV([[const(n), v] for n, v in k.items()])


def _dumps(I, a, k):
    I.event("json.dumps", TupV(list(a)), kwdict(k))
    return I.app("json.dumps", list(a), STR, kw=dict(k))


def _loads(I, a, k):
    I.event("json.loads", TupV(list(a)), kwdict(k))
    kk = lib.bound(I, a[0])
    if kk is not None and not (issub(kk, STR) or issub(kk, BYTES) or issub(kk, ext(bytearray))):
        raise I.exc(TypeError, "the JSON object must be str, bytes or bytearray")
    x = a[0].expr[1] if isinstance(a[0], Sym) and a[0].expr and a[0].expr[0] == "json.dumps" else None
    if x is not None:
        return x
    import json
    if not I.choose(("json.loads", lib.vid(a[0])), [True, False], "the text is JSON"):
        raise I.exc(json.JSONDecodeError, "Expecting value")
    return I.app("json.loads", list(a))


def _jdump(I, a, k):
    I.event("json.dump", TupV(list(a)), kwdict(k))
    I.call(I.getattr(a[1], "write"), [I.app("json.dumps", [a[0]], STR)], {})
    return NONE


def _jload(I, a, k):
    I.event("json.load", TupV(list(a)), kwdict(k))
    return _loads(I, [I.call(I.getattr(a[0], "read"), [], {})], k)


module("json").update({"dumps": Builtin("json.dumps", _dumps), "loads": Builtin("json.loads", _loads),
                       "dump": Builtin("json.dump", _jdump), "load": Builtin("json.load", _jload)})


# ------------------------------------------------------------------------------------------------ nr.date

BASEFMT = mkcls("_base_format", module="nr.date")
FMT = {}
for _n in ("date", "time", "datetime"):
    FMT[_n] = mkcls(f"{_n}_format", [BASEFMT], module="nr.date")
VALCLS = {"date": DATE, "time": TIME, "datetime": DATETIME}


def _compile(I, a, k):
    c, s = a
    if isinstance(s, Const):
        if s.v.startswith("bad"):
            raise I.exc(ValueError, "bad format string")
    else:
        may_raise(I, ("compile", lib.vid(s)), ValueError)
    key = ("compile", c.sid, lib.vid(s))
    r = I.path.memo.get(key)
    if r is None:
        r = I.path.memo[key] = Inst(c, {"format_str": s}, label=f"{c.name}({s!r})")
    return r


BASEFMT.ns["compile"] = ClassM(Builtin("compile", _compile))


def fmt_parse(kind):
    def f(I, a, k):
        fmt, v = a
        kk = lib.bound(I, v)
        if kk is not None and not issub(kk, STR):
            raise I.exc(TypeError, "expected string")
        if isinstance(v, Sym) and v.expr and v.expr[0] == "fmt" and v.expr[1] is fmt:
            return v.expr[2]
        ok = fmt.attrs.get("__parse__")
        if ok is not None and ok is not TRUE or ok is None and not I.choose(
                ("fmtparse", fmt.sid, kind, lib.vid(v)), [True, False], f"{fmt!r} parses {v!r}"):
            raise I.exc(ValueError, f"{v!r} does not match {fmt!r}")
        I.event("parsed", fmt, v)
        return I.app("parse_" + kind, [fmt, v], VALCLS[kind])
    return Builtin(f"parse_{kind}", f, binds=True)


def fmt_format(kind):
    def f(I, a, k):
        fmt, v = a
        ok = fmt.attrs.get("__format__")
        if ok is not None and ok is not TRUE or ok is None and not I.choose(
                ("fmtformat", fmt.sid, kind, lib.vid(v)), [True, False], f"{fmt!r} formats {v!r}"):
            raise I.exc(ValueError, f"{fmt!r} cannot format {v!r}")
        I.event("formatted", fmt, v)
        return I.app("fmt", [fmt, v], STR)
    return Builtin(f"format_{kind}", f, binds=True)


for _n, _c in FMT.items():
    _c.ns[f"parse_{_n}"] = fmt_parse(_n)
    _c.ns[f"format_{_n}"] = fmt_format(_n)
FSET = mkcls("format_set", module="nr.date")


def _fset_ctor(I, c, a, k):
    at = dict(zip(("name", "reference_url", "date_formats", "time_formats", "datetime_formats"), a), **k)
    for n in ("date_formats", "time_formats", "datetime_formats"):
        at.setdefault(n, ListV())
    return Inst(c, at, label="format_set")


FSET.ctor = _fset_ctor


def set_parse(kind):
    def f(I, a, k):
        for fm in I.iterate(a[0].attrs[f"{kind}_formats"]):
            try:
                return I.call(I.getattr(fm, f"parse_{kind}"), [a[1]], {})
            except Raised as r:
                if not I.raises(r.exc, ValueError):
                    raise
        raise I.exc(ValueError, "no format of the set matches")
    return Builtin(f"format_set.parse_{kind}", f, binds=True)


def set_format(kind):
    def f(I, a, k):
        for fm in I.iterate(a[0].attrs[f"{kind}_formats"]):
            return I.call(I.getattr(fm, f"format_{kind}"), [a[1]], {})
        raise I.exc(ValueError, "no format in the set")
    return Builtin(f"format_set.format_{kind}", f, binds=True)


for _n in FMT:
    FSET.ns[f"parse_{_n}"] = set_parse(_n)
    FSET.ns[f"format_{_n}"] = set_format(_n)


def mkset(name, n=2):
    at = {"name": const(name), "reference_url": const("")}
    for k, c in FMT.items():
        at[f"{k}_formats"] = ListV([Inst(c, {"format_str": const(f"{name}-{k}-{i}")}, label=f"{name}.{k}{i}")
                                    for i in range(n)])
    return Inst(FSET, at, label=name)


ISO, JAVA = mkset("ISO_8601"), mkset("JAVA_OFFSET_DATETIME", 1)
DURATION = mkcls("duration", module="nr.date")


def _duration_parse(I, a, k):
    v = a[0]
    kk = lib.bound(I, v)
    if kk is not None and not issub(kk, STR):
        raise I.exc(TypeError, "expected string or bytes-like object")
    x = inverse(I, "str", v, DURATION)
    if x is not None:
        return x
    may_raise(I, ("duration", lib.vid(v)), ValueError)
    return I.app("duration.parse", [v], DURATION)


DURATION.ns["parse"] = StaticM(Builtin("duration.parse", _duration_parse))
DURATION_FIELDS = ("years", "months", "weeks", "days", "hours", "minutes", "seconds", "microseconds")
DURATION.ns["__annotations__"] = DictV([(const(_n), INT) for _n in DURATION_FIELDS])
for _n in DURATION_FIELDS:
    DURATION.ns[_n] = const(0)
DURATION.ns["_fields"] = ListV([const(_n) for _n in DURATION_FIELDS])
DURATION.ns["total_seconds"] = Builtin("duration.total_seconds", lambda I, a, k: I.app("total_seconds", [a[0]], FLOAT), binds=True)


def _duration_check(I, a, k):
    """__post_init__: no component is negative (numbers of payloads are assumed not to be: its ValueError would escape
    like that of any other constructor)."""
    for n in DURATION_FIELDS:
        v = I.getattr(a[0], n)
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            if v.v < 0:
                raise I.exc(ValueError, f"{n} cannot be negative")
    return NONE


DURATION.ns["__post_init__"] = Builtin("duration.__post_init__", _duration_check, binds=True)
module("nr.date").update({f"{n}_format": c for n, c in FMT.items()})
module("nr.date").update({"format_set": FSET, "duration": DURATION})
module("nr.date.format_sets").update({"ISO_8601": ISO, "JAVA_OFFSET_DATETIME": JAVA})
module("nr").update({})


# ------------------------------------------------------------------------------------------------ nr.stream

def stream(I, src):
    """src: Python iterator over values"""
    it = IterV(iter(src), "stream")

    def m(f):
        return lambda I, o, a, k: f(I, o, a, k)

    def lazy(g):
        return lambda I, o, a, k: stream(I, g(I, o.it, a, k))

    def g_map(I, s, a, k):
        for x in s:
            yield I.call(a[0], [x], {})

    def g_filter(I, s, a, k):
        for x in s:
            if I.truth(I.call(a[0], [x], {})):
                yield x

    def g_flatmap(I, s, a, k):
        for x in s:
            yield from I.iterate(I.call(a[0], [x], {}))

    def g_concat(I, s, a, k):
        for x in s:
            yield from I.iterate(x)

    def g_append(I, s, a, k):
        yield from s
        yield from I.iterate(a[0])

    def g_distinct(I, s, a, k):
        key = arg(a, k, 0, "key")
        seen = []
        for x in s:
            kv = x if key is None or key is NONE else I.call(key, [x], {})
            lib.need_hash(I, kv)
            if any(lib.eq(I, kv, y) for y in seen):
                continue
            seen.append(kv)
            yield x

    def g_dropnone(I, s, a, k):
        for x in s:
            if not I.is_none(x):
                yield x

    def g_oftype(I, s, a, k):
        for x in s:
            if I.isinstance(x, a[0]):
                yield x

    def g_takewhile(I, s, a, k):
        for x in s:
            if not I.truth(I.call(a[0], [x], {})):
                return
            yield x

    def g_dropwhile(I, s, a, k):
        dropping = True
        for x in s:
            if dropping and I.truth(I.call(a[0], [x], {})):
                continue
            dropping = False
            yield x

    def g_sort(I, s, a, k):
        yield from lib.sorted_(I, list(s), k)

    def g_sortby(I, s, a, k):
        key = a[0]
        kk = dict(k)
        if isinstance(key, Const):
            nm = key.v
            kk["key"] = Builtin("attr", lambda I, b, c: I.getattr(b[0], nm))
        else:
            kk["key"] = key
        yield from lib.sorted_(I, list(s), kk)

    def g_slice(I, s, a, k):
        ns = [None if x is NONE else x.v for x in a]
        yield from list(s)[slice(*ns)]

    def collect(I, o, a, k):
        c = arg(a, k, 0, "collector")
        if c is None or c is NONE or c is LIST:
            return ListV(list(o.it))
        return I.call(c, [o], {})

    def first(I, o, a, k):
        for x in o.it:
            return x
        return NONE

    def nxt(I, o, a, k):
        for x in o.it:
            return x
        raise I.exc(StopIteration, "")

    def count(I, o, a, k):
        return const(len(list(o.it)))

    def consume(I, o, a, k):
        for _ in o.it:
            pass
        return o

    def reduce(I, o, a, k):
        acc = arg(a, k, 1, "initial")
        for x in o.it:
            acc = x if acc is None else I.call(a[0], [acc, x], {})
        return acc

    def bipart(I, o, a, k):
        yes, no = [], []
        for x in o.it:
            (yes if I.truth(I.call(a[0], [x], {})) else no).append(x)
        return TupV([IterV(iter(no)), IterV(iter(yes))])

    it.extra = {"map": lazy(g_map), "filter": lazy(g_filter), "flatmap": lazy(g_flatmap), "concat": lazy(g_concat),
                "append": lazy(g_append), "distinct": lazy(g_distinct), "dropnone": lazy(g_dropnone),
                "of_type": lazy(g_oftype), "takewhile": lazy(g_takewhile), "dropwhile": lazy(g_dropwhile),
                "sort": lazy(g_sort), "sortby": lazy(g_sortby), "slice": lazy(g_slice), "collect": collect,
                "first": first, "next": nxt, "count": count, "consume": consume, "reduce": reduce,
                "bipartition": bipart,
                "call": lambda I, o, a, k: stream(I, I.iterate(I.call(a[0], [o], {})))}
    return it


STREAM = mkcls("Stream", module="nr.stream")
STREAM.ctor = lambda I, c, a, k: stream(I, I.iterate(a[0]) if a else [])
module("nr.stream").update({"Stream": STREAM})


# ------------------------------------------------------------------------------------------------ math

def num_arg(I, v, what):
    """The argument as a number (int or float), for a function of module math."""
    k = lib.bound(I, v)
    if isinstance(v, Inst) and v.cls.flags.get("int_enum"):
        v = v.attrs["value"]
        k = lib.bound(I, v)
    if k is None:
        lib.unknown_op(I, v, what=what)
    elif not lib.is_num_cls(k) and not lib.cls_has(k, "__float__") and not lib.cls_has(k, "__index__"):
        raise I.exc(TypeError, "must be real number")
    return v, k


def _round_to_int(name):
    def f(I, a, k):
        v, kk = num_arg(I, a[0], name)
        if isinstance(v, Const):
            import math
            return lib.fold(I, getattr(math, name), v.v)
        if kk is not None and issub(kk, INT):
            return lib.CTORS[int](I, INT, [v], {}) if kk is not INT else v
        if not (isinstance(v, Sym) and (v.props.get("frac") or v.props.get("integral"))):
            may_raise(I, (name, lib.vid(v)), OverflowError, ValueError)
        return I.app(name, [v], INT)
    return Builtin(f"math.{name}", f)


def _finite(name):
    def f(I, a, k):
        v, kk = num_arg(I, a[0], name)
        if isinstance(v, Const):
            import math
            return lib.fold(I, getattr(math, name), v.v)
        if kk is not None and issub(kk, INT) or isinstance(v, Sym) and (v.props.get("frac") or v.props.get("integral")):
            return const(name == "isfinite")
        return I.app(name, [v], BOOL)
    return Builtin(f"math.{name}", f)


def _isclose(I, a, k):
    x, y = (num_arg(I, v, "isclose")[0] for v in a)
    if isinstance(x, Const) and isinstance(y, Const) and all(isinstance(v, Const) for v in k.values()):
        import math
        return lib.fold(I, lambda p, q: math.isclose(p, q, **{n: v.v for n, v in k.items()}), x.v, y.v)
    for v, w in ((x, y), (y, x)):
        if lib.rounding_of(w, v) and v.props.get("integral"):
            return TRUE
    return I.app("isclose", [x, y], BOOL)


def _modf(I, a, k):
    v, kk = num_arg(I, a[0], "modf")
    return TupV([lib.binop(I, ast.Mod(), v, const(1.0)), lib.binop(I, ast.Sub(), v, lib.binop(I, ast.Mod(), v, const(1.0)))])


module("math").update({n: _round_to_int(n) for n in ("floor", "ceil", "trunc")})
module("math").update({n: _finite(n) for n in ("isfinite", "isinf", "isnan")})
module("math").update({"isclose": Builtin("math.isclose", _isclose), "modf": Builtin("math.modf", _modf),
                       "fmod": Builtin("math.fmod", lambda I, a, k: lib.binop(I, ast.Mod(), a[0], a[1])),
                       "fabs": Builtin("math.fabs", lambda I, a, k: lib.numeric_abs(I, num_arg(I, a[0], "fabs")[0], FLOAT))})
module("sys")["intern"] = Builtin("sys.intern", lambda I, a, k: a[0])
module("os")["fspath"] = Builtin("os.fspath", lambda I, a, k: a[0] if lib.strlike(I, a[0]) else I.call(I.getattr(a[0], "__fspath__"), [], {}))
module("string")["capwords"] = Builtin("capwords", lambda I, a, k: I.app("capwords", a, STR))
module("inspect").update({n: Builtin(f"inspect.{n}", lambda I, a, k, c=c: lib._b_isinstance(I, [a[0], c], {})) for n, c in
                          (("isfunction", lib.FUNCTION), ("ismodule", lib.MODULETYPE))})
