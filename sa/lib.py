"""Transfer functions for built-in operations, types and functions on abstract values."""
import abc
import ast
import builtins as _b
import collections
import collections.abc as cabc
import enum
import math
import operator
import re
import string
import _string
import types

from .vals import *
from . import vals
from .interp import Raised, Unsupported, AnchorMissing

ITERCLS = mkcls("iterator", [ITERATOR], module="builtins")
VIEWCLS = {"keys": ext(type({}.keys())), "values": ext(type({}.values())), "items": ext(type({}.items()))}
MAPPINGPROXY = ext(types.MappingProxyType)
GENERICALIAS = ext(types.GenericAlias)
SPECIALFORM = mkcls("_SpecialForm", module="typing")
ABCMETA = ext(abc.ABCMeta)
ENUMMETA = ext(enum.EnumMeta)
ENUM, INTENUM, FLAG = ext(enum.Enum), ext(enum.IntEnum), ext(enum.Flag)
for _c in (ENUM, INTENUM, FLAG, ext(enum.IntFlag)):
    _c.meta = "enum"


def metaclass(c):
    if c.meta == "enum":
        return ENUMMETA
    if c.meta == "abc":
        return c.flags.get("metaclass") or ABCMETA
    return c.flags.get("metaclass") or TYPE


def cls_has(c, name):
    for k in c.mro:
        if name in k.ns:
            return True
        if k.py is not None and any(name in b.__dict__ for b in k.py.__mro__):
            return True
        if name in k.flags.get("methods", ()):
            return True
    return False


def falsy_possible(c):
    for k in c.mro:
        for n in ("__bool__", "__len__"):
            if n in k.ns:
                return True
            if k.py is not None and n in k.py.__dict__:
                return True
        if "__len__" in k.flags.get("methods", ()):
            return True
    return False


def attr_name(I, k):
    """The text naming an attribute; TypeError for what is certainly not text; None when unknown."""
    c = I.class_of(k)
    if c is not None and not issub(c, STR):
        raise I.exc(TypeError, "attribute name must be string")
    return key_name(k)


def key_name(k):
    return k.v if isinstance(k, Const) and isinstance(k.v, str) else None


# ------------------------------------------------------------------------------------------------ equality, hashing

NUM = (bool, int, float, complex)


def is_num_cls(k):
    return k is not None and (k.py in (bool, int, float, complex) or issub(k, INT) or issub(k, FLOAT)
                              or (k.py is not None and k.py.__name__ in ("Decimal", "Fraction")))


def hashable(I, v):
    if isinstance(v, Const):
        return True
    if isinstance(v, TupV):
        return all(hashable(I, x) for x in v.items)
    if isinstance(v, (ListV, DictV)):
        return False
    if isinstance(v, SetV):
        return v.frozen
    if isinstance(v, Alias):
        return True
    if isinstance(v, (Inst,)):
        h = I.class_attr(v.cls, "__hash__")
        return not (isinstance(h, Const) and h.v is None)
    if isinstance(v, Sym):
        k = I.class_of(v)
        if k is not None:
            for c in k.mro:
                if "__hash__" in c.ns:
                    h = c.ns["__hash__"]
                    if isinstance(h, Const) and h.v is None:
                        return False
                    break
                if c.py is not None and "__hash__" in c.py.__dict__:
                    if c.py.__hash__ is None:
                        return False
                    break
                if "__eq__" in c.ns:
                    return False
            if k is TUPLE and not v.props.get("atom"):
                return I.choose(("hashable", v.sid), [True, False], f"{v!r} is hashable")
            return True
        if v.props.get("trusted") or v.props.get("hashable"):
            return True
        for d in I.path.facts.get(("pos", v.sid), ()):
            if solid(d) in (str, int, float, bool, bytes):
                return True
            if solid(d) in (list, dict, set):
                return False
        if I.path.facts.get(("none", v.sid)) is True:
            return True
        return I.choose(("hashable", v.sid), [True, False], f"{v!r} is hashable")
    return True


def need_hash(I, v):
    if not hashable(I, v):
        raise I.exc(TypeError, "unhashable type")


def eq(I, a, b):
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return bool(a.v == b.v)
        except Exception:
            return False
    if a is b or vid(a) == vid(b):
        return True
    if isinstance(a, Const) and not isinstance(b, Const):
        a, b = b, a
    if isinstance(a, Inst) or isinstance(b, Inst):
        return inst_eq(I, a, b)
    if isinstance(a, TupV) and isinstance(b, TupV):
        return len(a.items) == len(b.items) and all(eq(I, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, ListV) and isinstance(b, ListV):
        return len(a.items) == len(b.items) and all(eq(I, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, NsV):
        a = DictV(mapping_pairs(I, a))
    if isinstance(b, NsV):
        b = DictV(mapping_pairs(I, b))
    if isinstance(a, DictV) and isinstance(b, DictV):
        if len(a.pairs) != len(b.pairs):
            return False
        for k, v in a.pairs:
            w = dict_get(I, b, k)
            if w is None or not eq(I, v, w):
                return False
        return True
    if isinstance(a, (SetV, ViewV)) and isinstance(b, (SetV, ViewV)):
        x, y = set_items(I, a), set_items(I, b)
        return len(x) == len(y) and all(any(eq(I, i, j) for j in y) for i in x)
    if isinstance(a, Alias) and isinstance(b, Alias):
        if a is BARE_TUPLE or b is BARE_TUPLE:
            return a is b
        if isinstance(a.origin, Special) and a.origin.name == "Union" and b.origin is a.origin:
            return len(a.args) == len(b.args) and all(any(eq(I, x, y) for y in b.args) for x in a.args)
        return eq(I, a.origin, b.origin) and len(a.args) == len(b.args) and all(eq(I, x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return a.fn is b.fn and a.obj is b.obj
    if isinstance(a, Sym) or isinstance(b, Sym):
        return sym_eq(I, a, b)
    return False


def inst_eq(I, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Inst):
            m = I.class_attr(x.cls, "__eq__")
            if m is not None:
                r = I.call(m, [x, y], {})
                if not (isinstance(r, Const) and r.v is NotImplemented):
                    return I.truth(r)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Inst) and x.cls.flags.get("int_enum"):
            yv = y.attrs.get("value") if isinstance(y, Inst) and y.cls.flags.get("int_enum") else y
            if isinstance(yv, (Const, Sym)):
                return eq(I, x.attrs["value"], yv)
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Sym):
            k = I.class_of(y)
            if y.props.get("alias_of") is x:
                return True
            if k is None and not y.props.get("trusted") and not y.props.get("opaque_ne"):
                return I.choose(("eq",) + tuple(sorted((str(vid(x)), str(vid(y))))), [False, True], f"{x!r} == {y!r}")
    return False


def sym_eq(I, a, b):
    if not isinstance(a, Sym):
        a, b = b, a
    f = I.path.facts
    if isinstance(b, Const) and b.v is None:
        return I.is_none(a)
    ka, kb = I.class_of(a), I.class_of(b)
    if a.props.get("never_eq") or (isinstance(b, Sym) and b.props.get("never_eq")):
        return False
    if a.expr and a.expr[0] == "typeof" and isinstance(b, Cls):
        return type_is(I, a.expr[1], b)
    if a.expr and b is not a and isinstance(b, Sym) and b.expr and a.expr[0] == b.expr[0] == "id":
        # an address is not used again while its object lives, and these live on
        if any(immortal(x) for x in (a.expr[1], b.expr[1])):
            return is_(I, a.expr[1], b.expr[1])
    if ka is not None and kb is not None and ka is not kb:
        if is_num_cls(ka) and is_num_cls(kb):
            pass
        elif not (issub(ka, kb) or issub(kb, ka)):
            sa, sb = ka.py is not None, kb.py is not None
            if sa and sb and not set_like(ka, kb) and not map_like(ka, kb):
                return False
            if isinstance(b, Cls):
                return False
    if isinstance(b, Sym) and a.props.get("atom") and b.props.get("atom"):
        return False
    for x in (a, b):
        if isinstance(x, Sym) and x.props.get("atom") and isinstance(b, Const) and x.props.get("not_const"):
            return False
    # text in upper case, or case-folded, is an (ASCII) word exactly when it is so in lower case
    if a.expr and a.expr[0] in ("upper", "casefold") and len(a.expr) == 2 and isinstance(b, Const) and isinstance(b.v, str) and b.v.isascii():
        if b.v != (b.v.upper() if a.expr[0] == "upper" else b.v.lower()):
            return False
        return eq(I, I.app("lower", [a.expr[1]], STR), const(b.v.lower()))
    # numeric facts about fractional / integral floats
    for x, y in ((a, b), (b, a)):
        if rounding_of(y, x):
            return bool(x.props.get("integral"))
        z = y.expr[1] if isinstance(y, Sym) and y.expr and len(y.expr) > 1 else None
        if z is not None and rounding_of(y, z) and rounding_of(x, z):
            if z.props.get("integral"):
                return True
            if {x.expr[0], y.expr[0]} == {"floor", "ceil"}:
                return False
    if isinstance(b, Const) and isinstance(b.v, NUM) and not b.v:
        t = a.props.get("truth", f.get(("truth", a.sid)))
        if t is not None and (is_num_cls(ka) or ka is None):
            if t is True:
                return False
            if is_num_cls(ka):
                return True
    if isinstance(b, Const) and isinstance(b.v, str) and not b.v and ka is STR:
        return not I.truth(a)
    if isinstance(b, Const):
        ec = f.get(("eqconst", a.sid))
        if ec is not None:
            return bool(ec.v == b.v)
        t = a.props.get("truth", f.get(("truth", a.sid)))
        if t is not None and ka is not None and ka.py in (str, int, float, bool) and bool(b.v) != t:
            return False
        if ka is BOOL:
            return I.truth(a) == bool(b.v)
        if a.props.get("opaque_ne"):
            return False
    key = ("eq",) + tuple(sorted((str(vid(a)), str(vid(b)))))
    r = I.choose(key, [False, True], f"{a!r} == {b!r}")
    if r and isinstance(b, Const):
        f[("eqconst", a.sid)] = b
    if not r and isinstance(b, Const):
        f.setdefault(("neqconst", a.sid), []).append(b)
    return r


def set_like(a, b):
    return issub(a, ext(cabc.Set)) and issub(b, ext(cabc.Set))


def map_like(a, b):
    return issub(a, MAPPING) and issub(b, MAPPING)


def immortal(x):
    """Objects that exist as long as the program: no other object ever has their address."""
    if isinstance(x, Const):
        return x.v is None or isinstance(x.v, bool) or x.v is Ellipsis
    if isinstance(x, Cls):
        return x.py is not None
    return isinstance(x, Inst) and bool(x.cls.flags.get("enum_names")) and any(
        m is x for _n, m in x.cls.flags["enum_names"])


def is_(I, a, b):
    if a is b:
        return True
    if isinstance(a, Const) and isinstance(b, Const):
        if type(a.v) is not type(b.v):
            return False
        if a.v is None or isinstance(a.v, bool):
            return a.v is b.v
        return a.v == b.v
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and x.v is None:
            return I.is_none(y)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and isinstance(x.v, bool) and isinstance(y, Sym):
            k = I.class_of(y)
            if k is BOOL:
                return I.truth(y) == x.v
            if k is not None or y.props.get("opaque_ne"):
                return False
            return I.choose(("is", vid(x), vid(y)), [False, True], f"{y!r} is {x.v}")
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and x.expr and x.expr[0] == "typeof" and isinstance(y, Cls):
            return type_is(I, x.expr[1], y)
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a.props.get("atom") or b.props.get("atom"):
            return False
        ka, kb = I.class_of(a), I.class_of(b)
        if ka is not None and kb is not None and ka is not kb:
            return False
        return I.choose(("is",) + tuple(sorted((a.sid, b.sid))), [False, True], f"{a!r} is {b!r}")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and isinstance(y, (Cls, Inst)):
            k = I.class_of(x)
            if k is not None and I.class_of(y) is not k:
                return False
            if x.props.get("opaque_ne") or x.props.get("atom"):
                return False
            if x.props.get("trusted") or k is not None:
                return I.choose(("is", x.sid, y.sid), [False, True], f"{x!r} is {y!r}")
            return False
    return False


def type_is(I, sym, cls):
    f = I.path.facts
    k = I.class_of(sym)
    if k is not None:
        return k is cls
    for d in f.get(("pos", sym.sid), ()):
        if not issub(cls, d):
            return False
    for d in f.get(("neg", sym.sid), ()):
        if issub(cls, d):
            return False
    if ("notexact", sym.sid, cls.sid) in f:
        return False
    r = I.choose(("exactq", sym.sid, cls.sid), [True, False], f"type({sym!r}) is {cls.name}")
    if r:
        f[("exact", sym.sid)] = cls
    return r


# ------------------------------------------------------------------------------------------------ dict and set

def materialize(I, s, kind):
    """Give an unknown container a bounded shape (a view on the same object)."""
    key = ("mat", s.sid, kind)
    m = I.path.memo.get(key)
    if m is not None:
        return m
    k = I.class_of(s)
    if kind == "map":
        n = len(s.items) if s.items is not None else shape(I, s, [0, 1, 2])
        d = DictV()
        for i in range(n):
            if s.items is not None:
                kk, vv = s.items[i]
            else:
                kk = Sym(f"{s.name}.key{i}", s.props.get("key_cls"), hashable=True)
                vv = Sym(f"{s.name}.val{i}")
            d.pairs.append([kk, vv])
        # keys of one mapping are distinct
        for i in range(n):
            for j in range(i + 1, n):
                a, b = d.pairs[i][0], d.pairs[j][0]
                I.path.facts.setdefault(("eq",) + tuple(sorted((str(vid(a)), str(vid(b))))), False)
        d.cls = k
        m = d
    else:
        m = ListV(list(sym_items(I, s)), k)
    m.sid = s.sid
    I.path.memo[key] = m
    return m


def shape(I, s, opts=(0, 1, 2)):
    if s.items is not None:
        return len(s.items)
    f = I.path.facts
    key = ("shape", s.sid)
    if key in f:
        return f[key]
    t = s.props.get("truth", f.get(("truth", s.sid)))
    opts = list(s.props.get("shapes", opts))
    if t is True:
        opts = [o for o in opts if o]
    elif t is False:
        opts = [0]
    return I.choose(key, opts, f"len({s!r})")


def sym_items(I, s):
    if s.items is not None:
        return s.items
    n = shape(I, s)
    key = ("items", s.sid)
    it = I.path.memo.get(key)
    if it is None:
        elem = s.props.get("elem")
        it = [elem(I, i) if elem else Sym(f"{s.name}[{i}]", STR if strlike(I, s) else None) for i in range(n)]
        I.path.memo[key] = it
    return it


def dict_find(I, d, k):
    for i, (kk, v) in enumerate(d.pairs):
        if kk is k or vid(kk) == vid(k):
            return i
    for i, (kk, v) in enumerate(d.pairs):
        if eq(I, kk, k):
            return i
    return None


def dict_get(I, d, k):
    need_hash(I, k)
    i = dict_find(I, d, k)
    return None if i is None else d.pairs[i][1]


def dict_set(I, d, k, v, quiet=False):
    need_hash(I, k)
    i = dict_find(I, d, k)
    if not quiet:
        I.touch(d, "setitem")
    if i is None:
        d.pairs.append([k, v])
    else:
        d.pairs[i][1] = v


def dict_update(I, d, other, quiet=False):
    if isinstance(other, (DictV, NsV)) or is_mapping(I, other):
        ps = mapping_pairs(I, other)
    else:
        ps = []
        for x in iterate(I, other):
            kv = list(iterate(I, x))
            if len(kv) != 2:
                raise I.exc(ValueError, "dictionary update sequence")
            ps.append(kv)
    if not quiet:
        I.touch(d, "update")
    for k, v in ps:
        dict_set(I, d, k, v, quiet=True)


def is_mapping(I, v):
    if isinstance(v, DictV):
        return True
    if isinstance(v, NsV):
        return True
    if isinstance(v, (Sym, Inst)):
        k = I.class_of(v)
        if k is not None:
            return cls_has(k, "keys")
        return any(issub(c, MAPPING) for c in I.path.facts.get(("pos", v.sid), ()))
    return False


def mapping_pairs(I, m):
    if isinstance(m, DictV):
        return [list(p) for p in m.pairs]
    if isinstance(m, NsV):
        return [[const(k), v] for k, v in m.ns.items()]
    if isinstance(m, Sym):
        k = I.class_of(m)
        if k is not None and not cls_has(k, "keys"):
            raise I.exc(TypeError, "not a mapping")
        if k is None and not is_mapping(I, m) and not m.props.get("trusted"):
            if not I.sym_isinst(m, MAPPING):
                raise I.exc(TypeError, "argument is not a mapping")
        return [list(p) for p in materialize(I, m, "map").pairs]
    if isinstance(m, Inst) and I.class_attr(m.cls, "keys") is not None:
        ks = list(iterate(I, I.call(I.getattr(m, "keys"), [], {})))
        return [[k, getitem(I, m, k)] for k in ks]
    raise I.exc(TypeError, "argument is not a mapping")


def set_items(I, s):
    if isinstance(s, SetV):
        return list(s.items)
    if isinstance(s, ViewV):
        return list(view_items(I, s))
    out = SetV()
    for x in iterate(I, s):
        set_add(I, out, x, quiet=True)
    return out.items


def set_add(I, s, v, quiet=False):
    need_hash(I, v)
    if not quiet:
        I.touch(s, "add")
    for x in s.items:
        if x is v or vid(x) == vid(v):
            return
    for x in s.items:
        if eq(I, x, v):
            return
    s.items.append(v)


def view_items(I, v):
    if v.kind == "keys":
        return [p[0] for p in v.d.pairs]
    if v.kind == "values":
        return [p[1] for p in v.d.pairs]
    return [TupV(p) for p in v.d.pairs]


def contains(I, c, x):
    if isinstance(c, (DictV, ListV, SetV)) and c.cls is not None:
        m = override(c, "__contains__")
        if m is not None:
            return I.truth(I.call(m, [c, x], {}))
    if isinstance(c, (TupV, ListV)):
        return any(is_same(I, e, x) for e in c.items)
    if isinstance(c, SetV):
        need_hash(I, x)
        return any(is_same(I, e, x) for e in c.items)
    if isinstance(c, DictV):
        need_hash(I, x)
        return dict_find(I, c, x) is not None
    if isinstance(c, ViewV):
        if c.kind == "keys":
            need_hash(I, x)
        return any(is_same(I, e, x) for e in view_items(I, c))
    if isinstance(c, NsV):
        n = key_name(x)
        if n is not None:
            return n in c.ns
        need_hash(I, x)
        for k in c.ns:
            if eq(I, x, const(k)):
                return True
        return False
    if isinstance(c, Const) and isinstance(c.v, (str, bytes)):
        if isinstance(x, Const):
            try:
                return x.v in c.v
            except TypeError as e:
                raise I.exc(TypeError, str(e))
        k = I.class_of(x)
        if k is not None and k is not STR and not issub(k, STR):
            raise I.exc(TypeError, "'in <string>' requires string")
        if isinstance(x, Sym) and x.props.get("atom"):
            return False
        return I.choose(("in", vid(c), vid(x)), [False, True], f"{x!r} in {c!r}")
    if isinstance(c, Cls) and c.meta == "enum" and c.members is not None:
        return any(is_same(I, m, x) or eq(I, m.attrs["value"], x) for m in c.members)
    if isinstance(c, Inst):
        m = I.class_attr(c.cls, "__contains__")
        if m is not None:
            return I.truth(I.call(m, [c, x], {}))
        return any(is_same(I, e, x) for e in iterate(I, c))
    if isinstance(c, Sym):
        k = I.class_of(c)
        if k is STR or (k is not None and issub(k, STR)):
            kx = I.class_of(x)
            if kx is not None and not issub(kx, STR):
                raise I.exc(TypeError, "'in <string>' requires string")
            return I.choose(("in", c.sid, vid(x)), [False, True], f"{x!r} in {c!r}")
        if k is not None and not (cls_has(k, "__contains__") or cls_has(k, "__iter__") or cls_has(k, "__getitem__")):
            raise I.exc(TypeError, "argument is not iterable")
        if c.props.get("contains"):
            return c.props["contains"](I, x)
        if k is None and not c.props.get("trusted"):
            if is_mapping(I, c):
                return contains(I, materialize(I, c, "map"), x)
            ok = I.choose(("container", c.sid), [True, False], f"{c!r} supports `in`")
            if not ok:
                raise I.exc(TypeError, "argument is not iterable")
        if is_mapping(I, c):
            return contains(I, materialize(I, c, "map"), x)
        return any(is_same(I, e, x) for e in sym_items(I, c))
    if isinstance(c, IterV):
        for e in c.it:
            if is_same(I, e, x):
                return True
        return False
    raise I.exc(TypeError, "argument is not iterable")


def is_same(I, a, b):
    return a is b or eq(I, a, b)


# ------------------------------------------------------------------------------------------------ operators

_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
        ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
_DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.Mod: "__mod__",
           ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.FloorDiv: "__floordiv__", ast.BitXor: "__xor__",
           ast.Pow: "__pow__", ast.LShift: "__lshift__", ast.RShift: "__rshift__"}


def fold(I, fn, *args):
    try:
        r = fn(*args)
    except (ArithmeticError, ValueError, TypeError, LookupError, AttributeError, MemoryError) as e:
        raise I.exc(type(e), str(e))
    return lift(r)


def lift(r):
    if isinstance(r, (type(None), bool, int, float, str, bytes, complex)) or r is Ellipsis or r is NotImplemented:
        return const(r)
    if isinstance(r, tuple):
        return TupV([lift(x) for x in r])
    if isinstance(r, list):
        return ListV([lift(x) for x in r])
    if isinstance(r, dict):
        return DictV([(lift(k), lift(v)) for k, v in r.items()])
    if isinstance(r, (set, frozenset)):
        return SetV([lift(x) for x in sorted(r, key=repr)], frozen=isinstance(r, frozenset))
    raise Unsupported(f"value {type(r)}")


def binop(I, op, a, b):
    t = type(op)
    if isinstance(a, Const) and isinstance(b, Const):
        if t is ast.BitOr and a.v is None:
            pass
        elif t is ast.Pow or (t is ast.LShift):
            if not (isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)) and abs(a.v) < 2 ** 32 and abs(b.v) < 128):
                raise Unsupported("power of constants")
            return fold(I, operator.pow if t is ast.Pow else operator.lshift, a.v, b.v)
        else:
            return fold(I, _OPS[t], a.v, b.v)
    if t is ast.Add:
        if isinstance(a, TupV) and isinstance(b, TupV):
            return TupV(a.items + b.items)
        if isinstance(a, ListV) and isinstance(b, ListV):
            return ListV(a.items + b.items)
        for k, seq, make in ((LIST, ListV, ListV), (TUPLE, TupV, TupV)):
            xs = [list(x.items) if isinstance(x, seq) else
                  sym_items(I, x) if isinstance(x, Sym) and bound(I, x) is k else None for x in (a, b)]
            if xs[0] is not None and xs[1] is not None:
                return make(list(xs[0]) + list(xs[1]))
        if strlike(I, a) and strlike(I, b):
            return concat_str(I, [a, b])
        if bound(I, a) is BYTES and bound(I, b) is BYTES:
            return I.app("bytes.add", [a, b], BYTES)
    if t is ast.Mod and strlike(I, a):
        if isinstance(a, Const) and isinstance(a.v, str):
            return percent_format(I, a.v, b)
        return I.app("format", [a, b], STR)
    if t is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ListV, TupV)) and isinstance(y, Const) and isinstance(y.v, int):
                return ListV(x.items * y.v) if isinstance(x, ListV) else TupV(x.items * y.v)
        if strlike(I, a) or strlike(I, b):
            return I.app("strmul", [a, b], STR)
    if t in (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor):
        if isinstance(a, (SetV, ViewV)):
            if isinstance(b, (SetV, ViewV)) or isinstance(a, ViewV) or is_setsym(I, b):
                return set_op(I, t, a, b)
            raise I.exc(TypeError, "unsupported operand type(s) for set operation")
        if isinstance(b, ViewV) and isinstance(a, (ListV, TupV)):
            return set_op(I, t, a, b)
        if t is ast.BitOr and isinstance(a, DictV) and isinstance(b, DictV):
            r = DictV(a.pairs)
            for k, v in b.pairs:
                dict_set(I, r, k, v, quiet=True)
            return r
        if t is ast.BitOr and any(isinstance(x, (Cls, Alias, Special)) for x in (a, b)):
            return I.ext.make_union(I, [a, b])
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, Inst):
            if x.cls.flags.get("int_enum"):
                y2 = y.attrs["value"] if isinstance(y, Inst) and y.cls.flags.get("int_enum") else y
                return binop(I, op, x.attrs["value"], y2) if pre == "__" else binop(I, op, y2, x.attrs["value"])
            m = I.class_attr(x.cls, pre + _DUNDER[t][2:])
            if m is not None:
                r = I.call(m, [x, y], {})
                if not (isinstance(r, Const) and r.v is NotImplemented):
                    return r
    ka, kb = bound(I, a), bound(I, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if is_num_cls(ka) and is_num_cls(kb):
            return num_op(I, t, a, b, ka, kb)
        if ka is not None and kb is not None and ka.py is not None and kb.py is not None:
            d = _DUNDER[t]
            if isinstance(a, Sym):
                m = I.ext.sym_member(I, a, ka, d)
                if m is not None:
                    return I.call(m, [b], {})
            if not cls_has(ka, d) and not cls_has(kb, "__r" + d[2:]):
                raise I.exc(TypeError, f"unsupported operand type(s): {ka.name} and {kb.name}")
            if (is_num_cls(ka) or is_num_cls(kb)) and (solid(ka) in (str, bytes, list, dict, tuple, type(None))
                                                       or solid(kb) in (str, bytes, list, dict, tuple, type(None))):
                raise I.exc(TypeError, f"unsupported operand type(s): {ka.name} and {kb.name}")
        unknown_op(I, a, b, what=t.__name__)
        return I.app(t.__name__.lower(), [a, b])
    raise I.exc(TypeError, "unsupported operand type(s)")


def unknown_op(I, *xs, what="op"):
    """An operation on values of unknown class may fail."""
    for x in xs:
        if isinstance(x, Sym) and I.class_of(x) is None and not x.props.get("trusted"):
            if not I.choose(("op", what) + tuple(vid(y) for y in xs), [True, False], f"{what} on {x!r} works"):
                raise I.exc(TypeError, f"{what} not supported by {x!r}")
            return
    I.taint(f"unmodelled operation {what}")


def num_op(I, t, a, b, ka, kb):
    flt = issub(ka, FLOAT) or issub(kb, FLOAT) or t is ast.Div
    dec = any(k.py is not None and k.py.__name__ == "Decimal" for k in (ka, kb))
    cls = (ka if ka.py.__name__ == "Decimal" else kb) if dec else (FLOAT if flt else INT)
    if t in (ast.Div, ast.Mod, ast.FloorDiv) and not (isinstance(b, Const) and b.v):
        if isinstance(b, Const) or not I.truth(b):
            raise I.exc(ZeroDivisionError, "division by zero")
    if flt and t is not ast.Div and any(issub(k, INT) and isinstance(x, Sym) and k is not BOOL and not rounding_of(x, x.expr[1] if x.expr else None)
                                        for k, x in ((ka, a), (kb, b))):
        may_raise(I, ("bigint", vid(a), vid(b)), OverflowError)
    r = I.app(t.__name__.lower(), [a, b], cls)
    if t is ast.Mod and isinstance(b, Const) and b.v in (1, 1.0) and isinstance(a, Sym):
        if a.props.get("frac"):
            r.props["truth"] = True
        elif a.props.get("integral") or ka is INT or ka is BOOL:
            r.props["truth"] = False
    if t is ast.Sub:
        for x, y in ((a, b), (b, a)):
            if rounding_of(y, x):
                r.props["truth"] = bool(x.props.get("frac"))
    if rounding_of(r, a) and issub(cls, FLOAT):
        r.props["integral"] = True
    return r


def rounding_of(y, x):
    """Whether y is the number x, known to have or not to have a fraction, made a whole number in one of the usual ways."""
    if not isinstance(x, Sym) or not (x.props.get("frac") or x.props.get("integral")):
        return False
    while isinstance(y, Sym) and y.expr and y.expr[0] in ("int", "floor", "ceil", "round", "trunc", "float"):
        if y.expr[1] is x:
            return y.expr[0] != "float"
        y = y.expr[1]
    if isinstance(y, Sym) and y.expr and y.expr[1] is x and isinstance(y.expr[-1], V):
        b = y.expr[-1]
        if y.expr[0] == "floordiv":
            return isinstance(b, Const) and b.v in (1, 1.0)
        if y.expr[0] == "sub":
            return isinstance(b, Sym) and bool(b.expr) and b.expr[0] == "mod" and b.expr[1] is x and isinstance(b.expr[2], Const) and b.expr[2].v in (1, 1.0)
    return False


def numeric_abs(I, v, cls):
    """abs(): zero exactly where the number is."""
    if isinstance(v, Const):
        return fold(I, abs, v.v)
    r = I.app("abs", [v], cls)
    t = v.props.get("truth", I.path.facts.get(("truth", v.sid))) if isinstance(v, Sym) else None
    if t is not None:
        r.props["truth"] = t
    r.props["nonneg"] = True
    return r


def may_raise(I, key, *classes):
    """The operation either works or raises one of the classes."""
    c = I.choose(("raise",) + tuple(key), [None] + list(classes), f"{key} raises")
    if c is not None:
        raise I.exc(c, "conversion failed")


def strlike(I, v):
    k = bound(I, v)
    return k is not None and issub(k, STR)


def is_setsym(I, v):
    if not isinstance(v, Sym):
        return False
    k = I.class_of(v)
    return k is None or issub(k, ext(cabc.Set)) or set_like(k, k)


def set_op(I, t, a, b):
    x, y = set_items(I, a), set_items(I, b)

    def within(e, l):
        return any(is_same(I, e, f) for f in l)
    if t is ast.Sub:
        r = [e for e in x if not within(e, y)]
    elif t is ast.BitAnd:
        r = [e for e in x if within(e, y)]
    elif t is ast.BitOr:
        r = x + [e for e in y if not within(e, x)]
    else:
        r = [e for e in x if not within(e, y)] + [e for e in y if not within(e, x)]
    return SetV(r)


def unary(I, op, v):
    if isinstance(v, Const):
        f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(op)]
        return fold(I, f, v.v)
    k = I.class_of(v)
    if is_num_cls(k):
        return I.app(type(op).__name__.lower(), [v], INT if k is BOOL else k)
    raise Unsupported("unary operator")


_CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
_CMPD = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
_REFL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


def compare(I, op, a, b):
    t = type(op)
    if t is ast.Is:
        return const(is_(I, a, b))
    if t is ast.IsNot:
        return const(not is_(I, a, b))
    if t is ast.Eq:
        return const(eq(I, a, b))
    if t is ast.NotEq:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                m = I.class_attr(x.cls, "__ne__")
                if m is not None:
                    return const(I.truth(I.call(m, [x, y], {})))
        return const(not eq(I, a, b))
    if t is ast.In:
        return const(contains(I, b, a))
    if t is ast.NotIn:
        return const(not contains(I, b, a))
    return const(order(I, t, a, b))


def order(I, t, a, b):
    if isinstance(a, Inst) and a.cls.flags.get("int_enum"):
        a = a.attrs["value"]
    if isinstance(b, Inst) and b.cls.flags.get("int_enum"):
        b = b.attrs["value"]
    if isinstance(a, Const) and isinstance(b, Const):
        return fold(I, _CMP[t], a.v, b.v).v
    if isinstance(a, (TupV, ListV)) and isinstance(b, (TupV, ListV)) and type(a) is type(b):
        for x, y in zip(a.items, b.items):
            if not is_same(I, x, y):
                return order(I, t, x, y)
        return _CMP[t](len(a.items), len(b.items))
    if isinstance(a, (SetV, ViewV)) and isinstance(b, (SetV, ViewV)):
        x, y = set_items(I, a), set_items(I, b)
        sub = all(any(is_same(I, e, f) for f in y) for e in x)
        sup = all(any(is_same(I, e, f) for f in x) for e in y)
        return {ast.LtE: sub, ast.GtE: sup, ast.Lt: sub and not sup, ast.Gt: sup and not sub}[t]
    for x, y, tt in ((a, b, t), (b, a, _REFL[t])):
        if isinstance(x, Inst):
            m = I.class_attr(x.cls, _CMPD[tt])
            if m is not None:
                r = I.call(m, [x, y], {})
                if not (isinstance(r, Const) and r.v is NotImplemented):
                    return I.truth(r)
    ka, kb = bound(I, a), bound(I, b)
    if ka is not None and kb is not None:
        if not cls_has(ka, "__lt__") or ka is NONETYPE or kb is NONETYPE or (
                is_num_cls(ka) != is_num_cls(kb)) or not (is_num_cls(ka) or issub(ka, kb) or issub(kb, ka)):
            raise I.exc(TypeError, "'<' not supported between instances")
        if all(k.py is not None and not any("__lt__" in c.__dict__ for c in k.py.__mro__[:-1]) for k in (ka, kb)):
            raise I.exc(TypeError, "'<' not supported between instances")
    else:
        unknown_op(I, *[x for x in (a, b) if I.class_of(x) is None], what="order")
    for x, y in ((a, b), (b, a)):
        if rounding_of(y, x) and x.props.get("integral"):
            return t in (ast.LtE, ast.GtE)
    # a number known to be zero
    if ka is not None and kb is not None and is_num_cls(ka) and is_num_cls(kb):
        za, zb = (const(0) if isinstance(x, Sym) and x.props.get("truth", I.path.facts.get(("truth", x.sid))) is False else x for x in (a, b))
        if isinstance(za, Const) and isinstance(zb, Const):
            return _CMP[t](za.v, zb.v)
    # a total order on {lt, eq, gt}
    x, y, flip = (a, b, False) if str(vid(a)) <= str(vid(b)) else (b, a, True)
    opts = ["lt", "eq", "gt"]
    if isinstance(x, Sym) and isinstance(y, Const) or isinstance(y, Sym) and isinstance(x, Const):
        s, c = (x, y) if isinstance(x, Sym) else (y, x)
        if s.props.get("nonneg") and isinstance(c.v, int):
            opts = [o for o in opts if not ((o == ("lt" if s is x else "gt")) and c.v <= 0)]
    known = I.path.facts.get(("eq",) + tuple(sorted((str(vid(a)), str(vid(b))))))
    for v, c in ((a, b), (b, a)):
        if rounding_of(c, v) and v.props.get("frac"):
            known = False
            if c.expr[0] in ("floor", "floordiv", "sub", "ceil"):
                opts = ["gt" if (x is v) == (c.expr[0] != "ceil") else "lt"]
        elif known is None and isinstance(c, Const) and isinstance(c.v, NUM) and not c.v and isinstance(v, Sym) \
                and v.props.get("truth", I.path.facts.get(("truth", v.sid))) is True and is_num_cls(bound(I, v)):
            known = False
    if known is True:
        opts = ["eq"]
    elif known is False:
        opts = [o for o in opts if o != "eq"]
    r = I.choose(("order", vid(x), vid(y)), opts, f"order of {x!r}, {y!r}")
    if flip:
        r = {"lt": "gt", "gt": "lt", "eq": "eq"}[r]
    return {ast.Lt: r == "lt", ast.LtE: r != "gt", ast.Gt: r == "gt", ast.GtE: r != "lt"}[t]


# ------------------------------------------------------------------------------------------------ strings

def deep_text(I, m):
    """Whether making the text of an object runs its method: where the scenario asks for it or defines the method."""
    return I.__dict__.get("deep_str") or isinstance(m, Fn) and getattr(m.mod, "name", m.mod) == "scn"


def to_str(I, v):
    if isinstance(v, Const):
        return const(str(v.v))
    k = I.class_of(v)
    if k is STR:
        return v
    if isinstance(v, Inst):
        for n in ("__str__", "__repr__"):
            m = I.class_attr(v.cls, n)
            if m is not None and deep_text(I, m):
                return I.call(m, [v], {})
        if v.cls.flags.get("int_enum"):
            return to_str(I, v.attrs["value"])
        if issub(v.cls, ext(BaseException)) and isinstance(v.attrs.get("args"), TupV) and not isinstance(I.class_attr(v.cls, "__str__"), Fn):
            a = v.attrs["args"].items
            if len(a) < 2 and not any(issub(v.cls, ext(c)) for c in (KeyError, OSError, SyntaxError, UnicodeError)):
                return to_str(I, a[0]) if a else const("")
    if isinstance(v, Sym):
        m = v.cls and I.class_attr(v.cls, "__str__")
        if m is not None and not isinstance(m, Fn):
            return I.call(m, [v], {})
    return I.app("str", [v], STR, notempty=None)


def format_value(I, v, conversion, spec):
    if isinstance(spec, Const) and spec.v == "":
        spec = None
    if isinstance(v, Const) and spec is None:
        return const(repr(v.v) if conversion == 114 else ascii(v.v) if conversion == 97 else str(v.v))
    if conversion in (-1, 115) and spec is None:
        return to_str(I, v)
    if isinstance(v, Const) and isinstance(spec, Const) and conversion == -1:
        return fold(I, format, v.v, spec.v)
    if conversion in (114, 97) and spec is None:
        if conversion == 114:
            return _b_repr(I, [v], {})
        return I.app("repr" if conversion == 114 else "ascii", [v], STR, truth=True)
    return I.app("formatted", [v] + ([spec] if spec is not None else []), STR)


def concat_str(I, parts):
    out = []
    for p in parts:
        if isinstance(p, Const) and isinstance(p.v, str):
            if not p.v:
                continue
            if out and isinstance(out[-1], Const):
                out[-1] = const(out[-1].v + p.v)
                continue
        elif isinstance(p, Sym) and p.expr and p.expr[0] == "concat":
            for q in p.expr[1:]:
                if isinstance(q, Const) and out and isinstance(out[-1], Const):
                    out[-1] = const(out[-1].v + q.v)
                else:
                    out.append(q)
            continue
        out.append(p)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    r = I.app("concat", out, STR)
    if any(isinstance(p, Const) and p.v for p in out):
        r.props["truth"] = True
    return r


_PERCENT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)?", re.S)


def percent_format(I, fmt, b):
    """'…%s…' % b"""
    whole = I.app("format", [const(fmt), b], STR)
    if isinstance(b, TupV) or I.isinstance(b, TUPLE):
        args = list(iterate(I, b))
    else:
        args = None
    parts, pos, i, keyed = [], 0, 0, False
    for m in _PERCENT.finditer(fmt):
        parts.append(const(fmt[pos:m.start()]))
        pos = m.end()
        c = m.group("conv")
        if c is None:
            raise I.exc(ValueError, "incomplete format")
        if c == "%" and m.end() - m.start() == 2:
            parts.append(const("%"))
            continue
        if c not in "diouxXeEfFgGcrsa":
            raise I.exc(ValueError, f"unsupported format character {c!r}")
        if m.group("width") == "*" or m.group("prec") == "*":
            return whole
        if m.group("key") is not None:
            keyed = True
            if not is_mapping(I, b):
                raise I.exc(TypeError, "format requires a mapping")
            x = getitem(I, b, const(m.group("key")))
        elif args is None:
            if i:
                raise I.exc(TypeError, "not enough arguments for format string")
            x, i = b, 1
        else:
            if i >= len(args):
                raise I.exc(TypeError, "not enough arguments for format string")
            x, i = args[i], i + 1
        plain = not m.group("flags") and m.group("width") is None and m.group("prec") is None
        if c in "rsa" and plain:
            parts.append(format_value(I, x, {"r": 114, "s": 115, "a": 97}[c], None))
        elif c in "rsa":
            parts.append(I.app("padded", [const(m.group()), format_value(I, x, {"r": 114, "s": 115, "a": 97}[c], None)], STR))
        else:
            k = I.class_of(x)
            if k is not None and not any(issub(k, n) for n in (INT, FLOAT)) and not (c == "c" and issub(k, STR)):
                raise I.exc(TypeError, f"%{c} format: a real number is required")
            if c in "di" and plain and k is INT:
                parts.append(format_value(I, x, 115, None))
            elif isinstance(x, Const):
                parts.append(fold(I, lambda v: ("%" + m.group("flags") + (m.group("width") or "") + ("." + m.group("prec") if m.group("prec") else "") + c) % v, x.v))
            else:
                parts.append(I.app("number", [const(m.group()), x], STR))
    parts.append(const(fmt[pos:]))
    if not keyed and (args is not None and i < len(args) or args is None and not i and not is_mapping(I, b)):
        raise I.exc(TypeError, "not all arguments converted during string formatting")
    return concat_str(I, parts)


def brace_format(I, fmt, args, kwargs, mapping=None):
    """'…{}…'.format(…)"""
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError as e:
        raise I.exc(ValueError, str(e))
    for text, name, spec, conv in fields:
        parts.append(const(text))
        if name is None:
            continue
        try:
            first, rest = _string.formatter_field_name_split(name)
            rest = list(rest)
        except ValueError as e:
            raise I.exc(ValueError, str(e))
        if first == "":
            first, auto = auto, auto + 1
        if isinstance(first, int):
            if first >= len(args):
                raise I.exc(IndexError, "Replacement index out of range for positional args tuple")
            x = args[first]
        elif mapping is not None:
            x = getitem(I, mapping, const(first))
        elif first in kwargs:
            x = kwargs[first]
        else:
            raise I.exc(KeyError, first)
        for is_attr, n in rest:
            x = I.getattr(x, n) if is_attr else getitem(I, x, const(n))
        s = None
        if spec:
            s = brace_format(I, spec, args, kwargs, mapping) if "{" in spec else const(spec)
        parts.append(format_value(I, x, ord(conv) if conv else -1, s))
    return concat_str(I, parts)


STR_RET = {}
for _n in ("lower upper strip lstrip rstrip casefold title capitalize swapcase replace format format_map ljust rjust "
           "center zfill expandtabs translate removeprefix removesuffix").split():
    STR_RET[_n] = STR
for _n in ("startswith endswith isdigit isalpha isalnum isnumeric isdecimal isidentifier islower isupper isspace "
           "istitle isascii isprintable").split():
    STR_RET[_n] = BOOL
for _n in "find index rfind rindex count".split():
    STR_RET[_n] = INT
STR_RET["encode"] = BYTES
STR_RET["__len__"] = INT


def str_method(I, v, name):
    def run(I, args, kwargs):
        if name == "join":
            parts = []
            for i, x in enumerate(iterate(I, args[0])):
                k = I.class_of(x)
                if k is not None and not issub(k, STR):
                    raise I.exc(TypeError, "sequence item: expected str instance")
                if i:
                    parts.append(v)
                parts.append(x)
            return concat_str(I, parts)
        if isinstance(v, Const) and all(isinstance(a, Const) for a in args) and not kwargs:
            return fold(I, lambda *a: getattr(v.v, name)(*a), *[a.v for a in args])
        if isinstance(v, Const) and name == "format":
            return brace_format(I, v.v, args, kwargs)
        if isinstance(v, Const) and name == "format_map":
            return brace_format(I, v.v, [], {}, args[0])
        if isinstance(v, Const) and name in ("startswith", "endswith") and isinstance(args[0], TupV) and all(
                isinstance(x, Const) for x in args[0].items):
            return fold(I, lambda a: getattr(v.v, name)(a), tuple(x.v for x in args[0].items))
        for a in args:
            k = I.class_of(a)
            if k is not None and name not in ("format", "split", "rsplit", "encode", "startswith", "endswith", "zfill",
                                              "ljust", "rjust", "center", "translate", "find", "count", "replace",
                                              "format_map", "index", "rfind", "splitlines", "rindex", "strip",
                                              "lstrip", "rstrip", "expandtabs") and not issub(k, STR):
                raise I.exc(TypeError, "expected str")
        r = STR_RET.get(name)
        if name in ("startswith", "endswith"):
            a = args[0]
            alts = a.items if isinstance(a, TupV) else [a]
            for p in alts:
                if isinstance(p, Const) and p.v == "":
                    return TRUE
            if isinstance(v, Sym) and v.expr and v.expr[0] == "concat":
                e = v.expr[1] if name == "startswith" else v.expr[-1]
                if isinstance(e, Const):
                    for p in alts:
                        if isinstance(p, Const) and len(p.v) <= len(e.v):
                            if getattr(e.v, name)(p.v):
                                return TRUE
            if isinstance(v, Sym) and v.props.get("truth", I.path.facts.get(("truth", v.sid))) is False:
                return FALSE
            res = I.app(name, [v] + args, BOOL)
            if I.truth(res):
                I.path.facts.setdefault(("truth", v.sid), True)
            return res
        if r is not None:
            return I.app(name, [v] + args, r)
        if name in ("split", "rsplit", "splitlines"):
            s = I.app(name, [v] + args, LIST)
            s.props.setdefault("shapes", [1, 2])
            s.props.setdefault("elem", lambda I, i, s=s: Sym(f"{s.name}[{i}]", STR, expr=("item", s, i)))
            return materialize(I, s, "seq")
        if name in ("partition", "rpartition"):
            key = ("part", vid(v), vid(args[0]), name)
            m = I.path.memo.get(key)
            if m is None:
                m = TupV([Sym(f"{v!r}.{name}[{i}]", STR, expr=("part", v, i)) for i in range(3)])
                I.path.memo[key] = m
            return m
        I.taint(f"str.{name}")
        return I.app(name, [v] + args)
    return Builtin(f"str.{name}", run, arity=METHODS.get(f"str.{name}"))


# ------------------------------------------------------------------------------------------------ attributes

CODE = mkcls("code", module="builtins")


def get_attribute(I, o, name):
    if isinstance(o, Inst):
        return inst_attr(I, o, name)
    if isinstance(o, Cls):
        return class_getattr(I, o, name)
    if isinstance(o, ModV):
        return I.mod_attr(o, name)
    if isinstance(o, Sym):
        return sym_attr(I, o, name)
    if isinstance(o, SuperV):
        return super_attr(I, o, name)
    if name == "__class__":
        return I.class_of(o)
    if isinstance(o, Fn):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__name__":
            return const(o.name)
        if name == "__qualname__":
            return const(o.qual[len(o.mod.name) + 1:])
        if name == "__module__":
            return const(o.mod.name)
        if name == "__doc__":
            return const(ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None)
        if name == "__dict__":
            return NsV(o.attrs, o)
        if name == "__call__":
            return o
        if name == "__wrapped__":
            raise I.exc(AttributeError, name)
        if name == "__code__":      # one per piece of code, however many functions are made of it
            codes = I.__dict__.setdefault("codes", {})
            if id(o.node) not in codes:
                a = o.node.args
                ns = [x.arg for x in a.posonlyargs + a.args]
                codes[id(o.node)] = Inst(CODE, {"co_name": const(o.name), "co_argcount": const(len(ns)), "co_kwonlyargcount": const(len(a.kwonlyargs)),
                                                "co_firstlineno": const(o.node.lineno), "co_filename": const(o.mod.name)}, f"code of {o.name}")
            return codes[id(o.node)]
        raise I.exc(AttributeError, f"function has no attribute {name}")
    if isinstance(o, Builtin):
        if name in o.attrs:
            return o.attrs[name]
        if name in ("__name__", "__qualname__"):
            return const(o.name.split(".")[-1])
        if name == "__call__":
            return o
        raise I.exc(AttributeError, name)
    if isinstance(o, BoundM):
        if name == "__self__":
            return o.obj
        if name == "__func__":
            return o.fn
        return get_attribute(I, o.fn, name)
    if isinstance(o, Prop):
        if name in ("setter", "getter", "deleter"):
            def setter(I, a, k):
                return Prop(o.fget, a[0]) if name == "setter" else (Prop(a[0], o.fset) if name == "getter" else o)
            return Builtin(name, setter)
        if name == "fget":
            return o.fget
        raise I.exc(AttributeError, name)
    if isinstance(o, Alias):
        return I.ext.alias_attr(I, o, name)
    if isinstance(o, Special):
        if name in ("__name__", "_name"):
            return const(o.name)
        raise I.exc(AttributeError, name)
    if isinstance(o, (StaticM, ClassM)) and name == "__func__":
        return o.fn
    if isinstance(o, NsV):
        return method(I, o, name)
    if isinstance(o, SliceV) and name in ("start", "stop", "step"):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    return method(I, o, name)


def bind(I, raw, o, cls):
    if isinstance(raw, Fn):
        return BoundM(raw, o)
    if isinstance(raw, Builtin):
        return BoundM(raw, o) if raw.binds else raw
    if isinstance(raw, StaticM):
        return raw.fn
    if isinstance(raw, ClassM):
        return BoundM(raw.fn, cls)
    if isinstance(raw, Prop):
        return I.call(raw.fget, [o], {})
    if isinstance(raw, Inst):
        g = I.class_attr(raw.cls, "__get__")
        if g is not None:
            return I.call(g, [raw, o, cls], {})
    return raw


def inst_attr(I, o, name):
    if name == "__class__":
        return o.cls
    if name == "__dict__":
        if o.cls.mro and all("__slots__" in c.ns for c in o.cls.mro if isinstance(c, Cls) and c.name != "object") and "__slots__" in o.cls.ns:
            raise I.exc(AttributeError, f"{o.cls.name!r} object has no attribute '__dict__'")
        return NsV(o.attrs, o)
    raw = I.class_attr(o.cls, name)
    if isinstance(raw, Prop):
        if raw.cached:
            if name in o.attrs:
                return o.attrs[name]
            v = I.call(raw.fget, [o], {})
            I.path.events.append(("cache", o, name, I.loc))
            o.attrs[name] = v
            return v
        return I.call(raw.fget, [o], {})
    if name in o.attrs:
        return o.attrs[name]
    if raw is not None:
        return bind(I, raw, o, o.cls)
    m = ext_member(I, o.cls, name)
    if m is not None:
        return BoundM(m, o) if isinstance(m, Builtin) and m.binds else m
    g = I.class_attr(o.cls, "__getattr__")
    if g is not None:
        return I.call(g, [o, const(name)], {})
    if o.cls.flags.get("opaque_attrs"):
        I.taint(f"attribute {name} of {o!r}")
        return I.app("attr", [o, name])
    raise I.exc(AttributeError, f"{o.cls.name!r} object has no attribute {name!r}")


def ext_member(I, cls, name):
    """Members of library base classes that are used through instances or super()."""
    for k in cls.mro:
        if k.py is None:
            continue
        p = k.py
        if p is object or p in (abc.ABC,) or p.__name__ in ("Generic", "Protocol") or issubclass(p, BaseException) or issubclass(p, enum.Enum):
            r = object_member(I, p, name)
            if r is not None:
                return r
    return None


def object_member(I, p, name):
    if name == "__init__":
        def init(I, a, k):
            if issubclass(p, BaseException):
                a[0].attrs.setdefault("args", TupV(a[1:]))
                a[0].attrs["args"] = TupV(a[1:])
            elif len(a) > 1 or k:
                if I.class_attr(a[0].cls, "__init__") is None:
                    raise I.exc(TypeError, f"{a[0].cls.name}() takes no arguments")
            return NONE
        return Builtin("object.__init__", init, binds=True)
    if name == "__setattr__":
        def sa(I, a, k):
            I.touch(a[0], f"setattr {key_name(a[1])}")
            n = key_name(a[1])
            if n is None:
                raise Unsupported("object.__setattr__ with unknown name")
            a[0].attrs[n] = a[2]
            return NONE
        return Builtin("object.__setattr__", sa, binds=True)
    if name == "__delattr__":
        def da(I, a, k):
            del_attribute(I, a[0], key_name(a[1]))
            return NONE
        return Builtin("object.__delattr__", da, binds=True)
    if name == "__getattribute__":
        return Builtin("object.__getattribute__", lambda I, a, k: get_attribute(I, a[0], key_name(a[1])), binds=True)
    if name == "__new__":
        return Builtin("object.__new__", lambda I, a, k: Inst(a[0]))
    if name in ("__repr__", "__str__"):
        return Builtin("object." + name, lambda I, a, k: I.app("str", [a[0]], STR), binds=True)
    if name == "__eq__":
        return Builtin("object.__eq__", lambda I, a, k: const(a[0] is a[1]) if a[0] is a[1] else const(NotImplemented), binds=True)
    if name == "__hash__":
        return Builtin("object.__hash__", lambda I, a, k: I.app("hash", [a[0]], INT), binds=True)
    if name in ("__init_subclass__", "__class_getitem__"):
        return Builtin("object." + name, lambda I, a, k: NONE, binds=True)
    if issubclass(p, BaseException):
        if name == "with_traceback":
            return Builtin(name, lambda I, a, k: a[0], binds=True)
        if name in ("__cause__", "__context__", "__traceback__"):
            return NONE
        if name == "add_note":
            return Builtin(name, lambda I, a, k: NONE, binds=True)
        if name == "name" and issubclass(p, ImportError):
            return NONE
    return None


def class_getattr(I, c, name):
    if name == "__name__":
        return const(c.name)
    if name == "__class__":
        return metaclass(c)
    if name == "__mro__":
        return TupV(c.mro)
    if name == "__bases__":
        return TupV(c.bases)
    if name == "__base__":
        return c.bases[0] if c.bases else NONE
    if name == "__dict__":
        return NsV(class_ns(I, c), c)
    if name == "__qualname__":
        return c.ns.get("__qualname__", const(c.name))
    if name == "__module__":
        return c.ns.get("__module__", const(c.module))
    if name == "mro":
        return Builtin("mro", lambda I, a, k: ListV(c.mro))
    if name == "__doc__":
        return c.ns.get("__doc__", NONE)
    if name == "__annotations__":
        if "__annotations__" in c.ns:
            return c.ns["__annotations__"]
        if c.py is not None:
            raise I.exc(AttributeError, name)
        return DictV()
    if name == "__orig_bases__" and c.orig_bases is not None:
        return TupV(c.orig_bases)
    if name == "__parameters__":
        p = I.ext.class_params(I, c)
        if p or c.orig_bases is not None:
            return TupV(p)
    if c.meta == "enum" and c.members is not None:
        if name == "__members__":
            return DictV([(const(n), m) for n, m in c.flags.get("enum_names", [])])
    if name == "__subclasses__":
        raise Unsupported("__subclasses__")
    raw = I.class_attr(c, name)
    if raw is not None:
        if isinstance(raw, ClassM):
            return BoundM(raw.fn, c)
        if isinstance(raw, StaticM):
            return raw.fn
        if isinstance(raw, Inst):
            g = I.class_attr(raw.cls, "__get__")
            if g is not None:
                return I.call(g, [raw, NONE, c], {})
        return raw
    m = I.ext.class_member(I, c, name)
    if m is not None:
        return m
    for k in c.mro:
        if k.py is not None and any(name in b.__dict__ for b in k.py.__mro__):
            r = object_member(I, k.py, name) if k.py is object or issubclass(k.py, BaseException) else None
            if r is not None:
                return r
            if k.py is object and name in ("__init__", "__new__", "__eq__", "__hash__", "__repr__", "__str__"):
                return object_member(I, object, name)
            return unbound_py(I, k, name)
    if metaclass(c) is TYPE or True:
        if name in ("__call__",):
            return c
        if name == "__instancecheck__":
            return Builtin(name, lambda I, a, k: const(I.isinstance(a[0], c)))
        if name == "__subclasscheck__":
            return Builtin(name, lambda I, a, k: const(issub(a[0], c)))
    raise I.exc(AttributeError, f"type object {c.name!r} has no attribute {name!r}")


def class_ns(I, c):
    if c.py is not None and not c.ns:
        return {k: Sym(f"{c.name}.{k}", None, trusted=True) for k in c.py.__dict__}
    return c.ns


def unbound_py(I, k, name):
    p = k.py
    v = getattr(p, name)
    if not callable(v):
        if isinstance(v, (str, int, float, bool, type(None), tuple)):
            return lift(v)
        return Sym(f"{k.name}.{name}", None, trusted=True)
    raw = None
    for b in p.__mro__:
        if name in b.__dict__:
            raw = b.__dict__[name]
            break

    def run(I, args, kwargs):
        if isinstance(raw, (classmethod, staticmethod)) or name == "fromkeys":
            if name == "fromkeys":
                d = DictV()
                for x in iterate(I, args[0]):
                    dict_set(I, d, x, args[1] if len(args) > 1 else NONE, quiet=True)
                return d
            I.taint(f"{k.name}.{name}")
            return I.app(f"{k.name}.{name}", args)
        m = get_attribute(I, args[0], name)
        return I.call(m, args[1:], kwargs)
    b = Builtin(f"{k.name}.{name}", run)
    return b


def container_init(I, v, a, kw):
    if isinstance(v, DictV):
        if a:
            dict_update(I, v, a[0])
        for n, x in kw.items():
            dict_set(I, v, const(n), x)
    elif a:
        for x in list(iterate(I, a[0])):
            I.call(I.getattr(v, "append" if isinstance(v, ListV) else "add"), [x], {})
    return NONE


def super_attr(I, s, name):
    cls = s.obj if isinstance(s.obj, Cls) else I.class_of(s.obj)
    if cls is None:
        raise Unsupported("super of unknown")
    mro = cls.mro
    if s.cls not in mro and isinstance(s.obj, Cls) and s.cls in metaclass(cls).mro:
        mro = metaclass(cls).mro
    if s.cls not in mro:
        raise I.exc(TypeError, "super(type, obj): obj must be an instance or subtype of type")
    i = mro.index(s.cls)
    rest = mro[i + 1:]
    for k in rest:
        if name in k.ns:
            raw = k.ns[name]
            if isinstance(s.obj, Cls):
                if isinstance(raw, ClassM):
                    return BoundM(raw.fn, s.obj)
                return raw.fn if isinstance(raw, StaticM) else raw
            return bind(I, raw, s.obj, cls)
    if name == "__call__" and isinstance(s.obj, Cls) and TYPE in rest:
        return Builtin("type.__call__", lambda I, a, kw: construct(I, s.obj, a, kw))
    for k in rest:
        if k.py is not None:
            if isinstance(s.obj, (DictV, ListV, SetV)) and k.py is not object and name != "__init__" and hasattr(k.py, name):
                if name in CONTAINER_OPS:
                    return Builtin(name, native(s.obj, lambda I, a, kw: CONTAINER_OPS[name](I, s.obj, a)))
                return Builtin(name, native(s.obj, lambda I, a, kw: I.call(method(I, s.obj, name), a, kw)))
            r = object_member(I, k.py, name)
            if r is not None:
                if k.py in (dict, list, set) and name == "__init__" and isinstance(s.obj, (DictV, ListV, SetV)):
                    return Builtin("__init__", lambda I, a, kw: container_init(I, s.obj, a, kw))
                if k.py is object and name == "__init__":
                    return Builtin("object.__init__", lambda I, a, kw: NONE)
                return BoundM(r, s.obj) if isinstance(r, Builtin) and r.binds else r
    raise I.exc(AttributeError, f"'super' object has no attribute {name!r}")


def bound(I, v):
    """The class of a value, or the one an isinstance() test has established for it."""
    k = I.class_of(v)
    if k is None and isinstance(v, Sym):
        for d in I.path.facts.get(("pos", v.sid), ()):
            if solid(d) is not None and (k is None or issub(d, k)):
                k = d
    return k


def declares(I, c, name):
    """Instances of the class have a field of that name."""
    f = I.class_attr(c, "__dataclass_fields__")
    if isinstance(f, DictV) and any(isinstance(n, Const) and n.v == name for n, _ in f.pairs):
        return True
    f = I.class_attr(c, "_fields")
    return isinstance(f, TupV) and any(isinstance(n, Const) and n.v == name for n in f.items)


def sym_attr(I, o, name):
    if name in o.attrs:
        return o.attrs[name]
    g = o.props.get("getattr")
    if g is not None:
        r = g(I, o, name)
        if r is not None:
            return r
    k = I.class_of(o)
    if name == "__class__":
        return type_of(I, o)
    if k is not None:
        fld = I.ext.extdc.instance_field(k, name)
        if fld is not None:
            # an instance attribute: what the class holds under that name is only the default
            t = fld.attrs["type"]
            return I.app("attr", [o, name], t if t in (INT, STR, BOOL, FLOAT) else None)
        raw = I.class_attr(k, name)
        if raw is not None:
            return bind(I, raw, o, k)
        if declares(I, k, name):
            return I.app("attr", [o, name])
        if k is STR or issub(k, STR):
            if cls_has(k, name):
                return str_method(I, o, name)
        m = I.ext.sym_member(I, o, k, name)
        if m is not None:
            return m
        if cls_has(k, name):
            return method(I, o, name)
        if k.flags.get("opaque_attrs"):
            return I.app("attr", [o, name])
        if o.props.get("no_attr") != "unknown":
            raise I.exc(AttributeError, f"{k.name!r} object has no attribute {name!r}")
    if o.props.get("trusted"):
        if name.startswith("__") and name not in ("__name__", "__module__", "__qualname__", "__dict__", "__doc__"):
            if not I.choose(("hasattr", o.sid, name), [False, True], f"{o!r} has {name}"):
                raise I.exc(AttributeError, name)
        return I.app("attr", [o, name], STR if name in ("__name__", "__module__", "__qualname__") else None, trusted=True)
    for d in I.path.facts.get(("pos", o.sid), ()):
        raw = I.class_attr(d, name)
        if raw is not None:
            return bind(I, raw, o, d)
        if declares(I, d, name):
            return I.app("attr", [o, name])
        if issub(d, STR) and cls_has(d, name):
            return str_method(I, o, name)
        m = I.ext.sym_member(I, o, d, name)
        if m is not None:
            return m
        if cls_has(d, name):
            return method(I, o, name, d)
    if I.path.facts.get(("none", o.sid)) is True:
        raise I.exc(AttributeError, f"'NoneType' object has no attribute {name!r}")
    if not I.choose(("hasattr", o.sid, name), [True, False], f"{o!r} has attribute {name}"):
        raise I.exc(AttributeError, f"{o!r} has no attribute {name!r}")
    return I.app("attr", [o, name])


def set_attribute(I, o, name, v):
    if isinstance(o, Inst):
        raw = I.class_attr(o.cls, name)
        if isinstance(raw, Prop) and not raw.cached:
            if raw.fset is None:
                raise I.exc(AttributeError, f"can't set attribute {name!r}")
            I.call(raw.fset, [o, v], {})
            return
        s = I.class_attr(o.cls, "__setattr__")
        if s is not None:
            I.call(s, [o, const(name), v], {})
            return
        I.touch(o, f"setattr {name}")
        o.attrs[name] = v
    elif isinstance(o, Cls):
        if o.py is not None and o.mro[0].py is not None and not o.ns and o.py.__module__ in ("builtins",):
            raise I.exc(TypeError, f"cannot set {name!r} attribute of immutable type")
        I.touch(o, f"setattr {name}")
        o.ns[name] = v
        I.own(v, o) if isinstance(v, (StaticM, ClassM, Prop)) else None
    elif isinstance(o, ModV):
        I.touch(o, f"setattr {name}")
        o.ns[name] = v
    elif isinstance(o, (Sym, Fn, Builtin)):
        I.touch(o, f"setattr {name}")
        o.attrs[name] = v
    else:
        raise I.exc(AttributeError, f"object has no attribute {name!r}")


def del_attribute(I, o, name):
    if isinstance(o, Inst):
        if name not in o.attrs:
            raise I.exc(AttributeError, name)
        I.touch(o, f"delattr {name}")
        del o.attrs[name]
    elif isinstance(o, Cls):
        if name not in o.ns:
            raise I.exc(AttributeError, name)
        I.touch(o, f"delattr {name}")
        del o.ns[name]
    elif isinstance(o, (Sym, Fn)):
        if name not in o.attrs:
            raise I.exc(AttributeError, name)
        I.touch(o, f"delattr {name}")
        del o.attrs[name]
    else:
        raise Unsupported("delattr")


def type_of(I, v):
    k = I.class_of(v)
    if k is not None:
        return k
    return I.app("typeof", [v], TYPE, trusted=True, name=f"type({v!r})")


# ------------------------------------------------------------------------------------------------ methods of values

NATIVE = set()


def override(o, name):
    """The method a user-defined subclass of a builtin container gives one of its instances."""
    c = getattr(o, "cls", None)
    if not isinstance(c, Cls) or c.py is not None or o.sid in NATIVE:
        return None
    for k in c.mro:
        if k.py is not None:
            return None
        if name in k.ns:
            return k.ns[name]
    return None


def native(o, f):
    """f, with the methods of o's class that are written in Python left out."""
    def run(I, a, kw):
        NATIVE.add(o.sid)
        try:
            return f(I, a, kw)
        finally:
            NATIVE.discard(o.sid)
    return run


CONTAINER_OPS = {
    "__getitem__": lambda I, o, a: getitem(I, o, a[0]), "__setitem__": lambda I, o, a: setitem(I, o, a[0], a[1]) or NONE,
    "__delitem__": lambda I, o, a: delitem(I, o, a[0]) or NONE, "__contains__": lambda I, o, a: const(contains(I, o, a[0])),
    "__len__": lambda I, o, a: length(I, o), "__iter__": lambda I, o, a: IterV(iterate(I, o)),
    "__eq__": lambda I, o, a: const(eq(I, o, a[0])),
}


def method(I, o, name, cls=None):
    m = override(o, name) if isinstance(o, (DictV, ListV, SetV)) else None
    if m is not None:
        return bind(I, m, o, o.cls)
    k = cls or I.class_of(o)
    if isinstance(o, Const) and isinstance(o.v, str) or (isinstance(o, Sym) and k is not None and issub(k, STR)):
        if hasattr(str, name):
            return str_method(I, o, name)
        raise I.exc(AttributeError, f"'str' object has no attribute {name!r}")
    table = None
    obj = o
    if isinstance(o, NsV):
        table = DICT_M
        if name in NS_W and isinstance(o.of, (Inst, Fn, ModV, Sym)):
            return Builtin("dict." + name, lambda I, a, kw: NS_W[name](I, o, a, kw))
        if name not in NS_M:
            raise I.exc(AttributeError, name)
        if isinstance(o.of, Cls) or name in ("get", "keys", "items", "values", "copy"):
            return Builtin("mappingproxy." + name, lambda I, a, kw: NS_M[name](I, o, a, kw))
    elif isinstance(o, DictV):
        table = DICT_M
    elif isinstance(o, ListV):
        table = DEQUE_M if (k is not None and issub(k, ext(collections.deque))) else LIST_M
    elif isinstance(o, SetV):
        table = SET_M
    elif isinstance(o, TupV):
        table = TUPLE_M
    elif isinstance(o, ViewV):
        table = VIEW_M
    elif isinstance(o, IterV):
        table = ITER_M
        if o.extra:
            h = o.extra.get(name)
            if h is not None:
                return Builtin(f"{o.kind}.{name}", lambda I, a, kw: h(I, o, a, kw))
    elif isinstance(o, Sym) and k is not None:
        if issub(k, MAPPING) or issub(k, DICT):
            table, obj = DICT_M, "map"
        elif issub(k, ext(cabc.Set)) or issub(k, SET):
            table, obj = SET_M, "set"
        elif issub(k, ext(cabc.Sequence)) or issub(k, LIST):
            table, obj = LIST_M, "seq"
        elif issub(k, BYTES):
            if name == "decode":
                def dec(I, a, kw):
                    if not o.props.get("ascii"):
                        may_raise(I, ("decode", o.sid), UnicodeDecodeError)
                    return I.app("decode", [o] + a, STR)
                return Builtin("bytes.decode", dec)
            if cls_has(k, name) and name in ("strip", "lstrip", "rstrip", "replace", "upper", "lower", "join", "ljust", "rjust", "zfill"):
                return Builtin(f"bytes.{name}", lambda I, a, kw: I.app(f"bytes.{name}", [o] + a, BYTES))
        elif issub(k, FLOAT) or issub(k, INT):
            if name == "is_integer":
                def isint(I, a, kw):
                    if issub(k, INT) or o.props.get("integral"):
                        return TRUE
                    if o.props.get("frac"):
                        return FALSE
                    return I.app("is_integer", [o], BOOL)
                return Builtin("is_integer", isint)
            if name == "as_integer_ratio" and issub(k, FLOAT) and (o.props.get("integral") or o.props.get("frac")):
                return Builtin("as_integer_ratio", lambda I, a, kw: TupV([I.app("int", [o], INT), const(1)] if o.props.get("integral") else [
                    I.app("numerator", [o], INT), I.app("denominator", [o], INT, not_const=True, atom=True, truth=True)]))
    if table is not None and k is not None and not cls_has(k, name) and not (k.py is None and name in table and not issub(k, MAPPING)):
        raise I.exc(AttributeError, f"{k.name!r} object has no attribute {name!r}")
    if table is not None and name in table:
        h = table[name]

        def run(I, args, kwargs):
            x = o
            if obj == "map":
                x = materialize(I, o, "map")
            elif obj == "seq":
                x = materialize(I, o, "seq")
            elif obj == "set":
                x = SetV(sym_items(I, o))
                x.sid = o.sid
            return h(I, x, args, kwargs)
        full = f"{k.name if k else '?'}.{name}"
        return Builtin(full, run, arity=METHODS.get(full))
    if isinstance(o, Const) and k is not None and k.py is not None and hasattr(k.py, name):
        if not hasattr(o.v, name):
            raise I.exc(AttributeError, f"{k.name!r} object has no attribute {name!r}")
        at = getattr(o.v, name)
        if not callable(at):
            return lift(at)

        def runc(I, args, kwargs):
            if all(isinstance(a, Const) for a in args) and not kwargs:
                return fold(I, lambda *a: at(*a), *[a.v for a in args])
            I.taint(f"{k.name}.{name}")
            return I.app(name, [o] + args)
        return Builtin(f"{k.name}.{name}", runc)
    if k is not None and cls_has(k, name):
        def rung(I, args, kwargs):
            I.taint(f"{k.name}.{name}()")
            return I.app(name, [o] + [a for a in args])
        return Builtin(f"{k.name}.{name}", rung)
    raise I.exc(AttributeError, f"{k.name if k else '?'} object has no attribute {name!r}")


def arg(args, kwargs, i, name, default=None):
    if i < len(args):
        return args[i]
    return kwargs.get(name, default)


def _d_get(I, d, a, k):
    v = dict_get(I, d, a[0])
    if v is None:
        return a[1] if len(a) > 1 else k.get("default", NONE)
    return v


def _d_pop(I, d, a, k):
    need_hash(I, a[0])
    i = dict_find(I, d, a[0])
    if i is None:
        if len(a) > 1:
            return a[1]
        raise I.exc(KeyError, a[0])
    I.touch(d, "pop")
    v = d.pairs[i][1]
    del d.pairs[i]
    return v


def _d_setdefault(I, d, a, k):
    v = dict_get(I, d, a[0])
    if v is not None:
        return v
    v = a[1] if len(a) > 1 else NONE
    dict_set(I, d, a[0], v)
    return v


def _d_update(I, d, a, k):
    if a:
        dict_update(I, d, a[0])
    if k:
        I.touch(d, "update")
        for kk, v in k.items():
            dict_set(I, d, const(kk) if isinstance(kk, str) else kk, v, quiet=True)
    return NONE


def _d_popitem(I, d, a, k):
    if not d.pairs:
        raise I.exc(KeyError, "popitem(): dictionary is empty")
    I.touch(d, "popitem")
    return TupV(d.pairs.pop())


def _clear(I, d, a, k):
    I.touch(d, "clear")
    if isinstance(d, DictV):
        d.pairs = []
    else:
        d.items = []
    return NONE


def _d_move(I, d, a, k):
    i = dict_find(I, d, a[0])
    if i is None:
        raise I.exc(KeyError, a[0])
    I.touch(d, "move_to_end")
    p = d.pairs.pop(i)
    last = arg(a, k, 1, "last", TRUE)
    if I.truth(last):
        d.pairs.append(p)
    else:
        d.pairs.insert(0, p)
    return NONE


DICT_M = {
    "get": _d_get, "pop": _d_pop, "setdefault": _d_setdefault, "update": _d_update, "popitem": _d_popitem,
    "clear": _clear, "move_to_end": _d_move,
    "keys": lambda I, d, a, k: ViewV("keys", d), "values": lambda I, d, a, k: ViewV("values", d),
    "items": lambda I, d, a, k: ViewV("items", d),
    "copy": lambda I, d, a, k: DictV(d.pairs, d.cls),
    "__contains__": lambda I, d, a, k: const(contains(I, d, a[0])),
    "__getitem__": lambda I, d, a, k: getitem(I, d, a[0]),
    "__setitem__": lambda I, d, a, k: (setitem(I, d, a[0], a[1]), NONE)[1],
    "__delitem__": lambda I, d, a, k: (delitem(I, d, a[0]), NONE)[1],
    "__len__": lambda I, d, a, k: const(len(d.pairs)),
    "__iter__": lambda I, d, a, k: IterV(iterate(I, d)),
}


def _ns_pairs(I, o):
    return DictV([(const(k), v) for k, v in o.ns.items()])


NS_M = {
    "get": lambda I, o, a, k: o.ns.get(key_name(a[0]), a[1] if len(a) > 1 else NONE) if key_name(a[0]) is not None
    else _d_get(I, _ns_pairs(I, o), a, k),
    "keys": lambda I, o, a, k: ViewV("keys", _ns_pairs(I, o)),
    "values": lambda I, o, a, k: ViewV("values", _ns_pairs(I, o)),
    "items": lambda I, o, a, k: ViewV("items", _ns_pairs(I, o)),
    "copy": lambda I, o, a, k: _ns_pairs(I, o),
    "__contains__": lambda I, o, a, k: const(contains(I, o, a[0])),
    "__getitem__": lambda I, o, a, k: getitem(I, o, a[0]),
    "__len__": lambda I, o, a, k: const(len(o.ns)),
    "__iter__": lambda I, o, a, k: IterV(iterate(I, o)),
}


def _ns_set(I, o, k, v):
    n = key_name(k)
    if n is None:
        raise Unsupported("unknown attribute name")
    I.touch(o.of, f"setitem {n}")
    o.ns[n] = v


def _ns_setdefault(I, o, a, k):
    n = key_name(a[0])
    if n is None:
        raise Unsupported("unknown attribute name")
    if n not in o.ns:
        _ns_set(I, o, a[0], a[1] if len(a) > 1 else NONE)
    return o.ns[n]


def _ns_pop(I, o, a, k):
    n = key_name(a[0])
    if n is None:
        raise Unsupported("unknown attribute name")
    if n not in o.ns:
        if len(a) > 1:
            return a[1]
        raise I.exc(KeyError, a[0])
    I.touch(o.of, f"delitem {n}")
    return o.ns.pop(n)


def _ns_update(I, o, a, k):
    if a:
        d = DictV([])
        dict_update(I, d, a[0], quiet=True)
        for key, v in d.pairs:
            _ns_set(I, o, key, v)
    for n, v in k.items():
        _ns_set(I, o, const(n), v)
    return NONE


def _ns_clear(I, o, a, k):
    I.touch(o.of, "clear")
    o.ns.clear()
    return NONE


# the namespace of an object can be written through vars()
NS_W = {
    "setdefault": _ns_setdefault,
    "pop": _ns_pop,
    "update": _ns_update,
    "clear": _ns_clear,
    "__setitem__": lambda I, o, a, k: (_ns_set(I, o, a[0], a[1]), NONE)[1],
    "__delitem__": lambda I, o, a, k: (_ns_pop(I, o, a[:1], {}), NONE)[1],
}


def _index(I, v, n, insert=False):
    if isinstance(v, Const) and isinstance(v.v, int):
        return v.v
    if isinstance(v, Inst) and v.cls.flags.get("int_enum"):
        return v.attrs["value"].v
    k = I.class_of(v)
    if k is not None and not issub(k, INT):
        raise I.exc(TypeError, "indices must be integers")
    raise Unsupported("unknown index")


def _l_append(I, l, a, k):
    I.touch(l, "append")
    l.items.append(a[0])
    return NONE


def _l_extend(I, l, a, k):
    xs = list(iterate(I, a[0]))
    I.touch(l, "extend")
    l.items.extend(xs)
    return NONE


def _l_insert(I, l, a, k):
    I.touch(l, "insert")
    l.items.insert(_index(I, a[0], 0), a[1])
    return NONE


def _l_pop(I, l, a, k):
    i = _index(I, a[0], 0) if a else -1
    if not l.items or not (-len(l.items) <= i < len(l.items)):
        raise I.exc(IndexError, "pop from empty list")
    I.touch(l, "pop")
    return l.items.pop(i)


def _l_remove(I, l, a, k):
    for i, x in enumerate(l.items):
        if is_same(I, x, a[0]):
            I.touch(l, "remove")
            del l.items[i]
            return NONE
    raise I.exc(ValueError, "list.remove(x): x not in list")


def _l_index(I, l, a, k):
    for i, x in enumerate(l.items):
        if is_same(I, x, a[0]):
            return const(i)
    raise I.exc(ValueError, "x not in list")


def _l_sort(I, l, a, k):
    r = sorted_(I, list(l.items), k)
    I.touch(l, "sort")
    l.items = r
    return NONE


def _l_reverse(I, l, a, k):
    I.touch(l, "reverse")
    l.items.reverse()
    return NONE


def _count(I, l, a, k):
    return const(sum(1 for x in l.items if is_same(I, x, a[0])))


LIST_M = {
    "append": _l_append, "extend": _l_extend, "insert": _l_insert, "pop": _l_pop, "remove": _l_remove,
    "index": _l_index, "sort": _l_sort, "reverse": _l_reverse, "clear": _clear, "count": _count,
    "copy": lambda I, l, a, k: ListV(l.items),
    "__len__": lambda I, l, a, k: const(len(l.items)),
    "__iter__": lambda I, l, a, k: IterV(iterate(I, l)),
    "__contains__": lambda I, l, a, k: const(contains(I, l, a[0])),
    "__getitem__": lambda I, l, a, k: getitem(I, l, a[0]),
    "__setitem__": lambda I, d, a, k: (setitem(I, d, a[0], a[1]), NONE)[1],
}


def _dq_popleft(I, l, a, k):
    if not l.items:
        raise I.exc(IndexError, "pop from an empty deque")
    I.touch(l, "popleft")
    return l.items.pop(0)


def _dq_appendleft(I, l, a, k):
    I.touch(l, "appendleft")
    l.items.insert(0, a[0])
    return NONE


def _dq_extendleft(I, l, a, k):
    for x in list(iterate(I, a[0])):
        _dq_appendleft(I, l, [x], {})
    return NONE


DEQUE_M = dict(LIST_M)
DEQUE_M.update({"popleft": _dq_popleft, "appendleft": _dq_appendleft, "extendleft": _dq_extendleft})


def _s_update(I, s, a, k):
    for o in a:
        for x in list(iterate(I, o)):
            set_add(I, s, x)
    return NONE


def _s_discard(I, s, a, k):
    need_hash(I, a[0])
    for i, x in enumerate(s.items):
        if is_same(I, x, a[0]):
            I.touch(s, "discard")
            del s.items[i]
            return NONE
    return NONE


def _s_remove(I, s, a, k):
    n = len(s.items)
    _s_discard(I, s, a, k)
    if len(s.items) == n:
        raise I.exc(KeyError, a[0])
    return NONE


def _s_pop(I, s, a, k):
    if not s.items:
        raise I.exc(KeyError, "pop from an empty set")
    order_ = set_order(I, s)
    I.touch(s, "pop")
    x = order_[0]
    s.items = [y for y in s.items if y is not x]
    return x


def _s_op(t):
    def f(I, s, a, k):
        r = s
        for o in a:
            r = set_op(I, t, r, o)
        if r is s:
            r = SetV(s.items)
        return r
    return f


def _s_opupdate(t):
    def f(I, s, a, k):
        r = _s_op(t)(I, s, a, k)
        I.touch(s, "update")
        s.items = list(r.items)
        return NONE
    return f


SET_M = {
    "add": lambda I, s, a, k: (set_add(I, s, a[0]), NONE)[1], "update": _s_update, "discard": _s_discard,
    "remove": _s_remove, "pop": _s_pop, "clear": _clear, "copy": lambda I, s, a, k: SetV(s.items, frozen=s.frozen),
    "union": _s_op(ast.BitOr), "difference": _s_op(ast.Sub), "intersection": _s_op(ast.BitAnd),
    "symmetric_difference": _s_op(ast.BitXor),
    "difference_update": _s_opupdate(ast.Sub), "intersection_update": _s_opupdate(ast.BitAnd),
    "issubset": lambda I, s, a, k: const(order(I, ast.LtE, s, SetV(set_items(I, a[0])))),
    "issuperset": lambda I, s, a, k: const(order(I, ast.GtE, s, SetV(set_items(I, a[0])))),
    "isdisjoint": lambda I, s, a, k: const(not set_op(I, ast.BitAnd, s, a[0]).items),
    "__len__": lambda I, s, a, k: const(len(s.items)),
    "__contains__": lambda I, s, a, k: const(contains(I, s, a[0])),
    "__iter__": lambda I, s, a, k: IterV(iterate(I, s)),
}
VIEW_M = {
    "isdisjoint": lambda I, s, a, k: const(not set_op(I, ast.BitAnd, s, a[0]).items),
    "__len__": lambda I, s, a, k: const(len(s.d.pairs)),
    "__contains__": lambda I, s, a, k: const(contains(I, s, a[0])),
    "__iter__": lambda I, s, a, k: IterV(iterate(I, s)),
}
TUPLE_M = {
    "index": _l_index, "count": _count, "__len__": lambda I, l, a, k: const(len(l.items)),
    "__contains__": lambda I, l, a, k: const(contains(I, l, a[0])),
    "__getitem__": lambda I, l, a, k: getitem(I, l, a[0]),
    "__iter__": lambda I, l, a, k: IterV(iterate(I, l)),
}


def _it_next(I, it, a, k):
    return next_(I, [it], {})


def _it_send(I, it, a, k):
    if not hasattr(it.it, "send"):
        raise Unsupported("send() to an iterator")
    try:
        return it.it.send(None if a[0] is NONE else a[0])
    except StopIteration:
        raise I.exc(StopIteration, "")


def _it_throw(I, it, a, k):
    if not hasattr(it.it, "throw"):
        raise Unsupported("throw() into an iterator")
    e = I.call(a[0], [], {}) if isinstance(a[0], Cls) else a[0]
    try:
        return it.it.throw(Raised(e))
    except StopIteration:
        raise I.exc(StopIteration, "")


ITER_M = {"__next__": _it_next, "__iter__": lambda I, it, a, k: it,
          "close": lambda I, it, a, k: (it.it.close() if hasattr(it.it, "close") else None, NONE)[1], "send": _it_send, "throw": _it_throw}


# ------------------------------------------------------------------------------------------------ subscripts

def getitem(I, o, k):
    if isinstance(o, (DictV, ListV, SetV)) and o.cls is not None:
        m = override(o, "__getitem__")
        if m is not None:
            return I.call(m, [o, k], {})
    if isinstance(o, (TupV, ListV)):
        if isinstance(k, SliceV):
            g = [None if x is NONE else _index(I, x, 0) for x in (k.lo, k.hi, k.step)]
            r = o.items[slice(*g)]
            return TupV(r) if isinstance(o, TupV) else ListV(r)
        i = _index(I, k, len(o.items))
        if not (-len(o.items) <= i < len(o.items)):
            raise I.exc(IndexError, "index out of range")
        return o.items[i]
    if isinstance(o, DictV):
        v = dict_get(I, o, k)
        if v is None:
            if o.default_factory is not None:
                v = I.call(o.default_factory, [], {})
                dict_set(I, o, k, v)
                return v
            m = I.class_attr(o.cls, "__missing__") if o.cls is not None else None
            if m is not None:
                return I.call(m, [o, k], {})
            raise I.exc(KeyError, k)
        return v
    if isinstance(o, NsV):
        n = key_name(k)
        if n is None or n not in o.ns:
            raise I.exc(KeyError, k)
        return o.ns[n]
    if isinstance(o, Const):
        if isinstance(o.v, (str, bytes)):
            if isinstance(k, SliceV) and all(isinstance(x, Const) for x in (k.lo, k.hi, k.step)):
                return const(o.v[slice(k.lo.v, k.hi.v, k.step.v)])
            if isinstance(k, Const) and isinstance(k.v, int):
                return fold(I, operator.getitem, o.v, k.v)
            kk = I.class_of(k)
            if kk is not None and not issub(kk, INT):
                raise I.exc(TypeError, "string indices must be integers")
            raise Unsupported("index of a string")
        raise I.exc(TypeError, f"{type(o.v).__name__!r} object is not subscriptable")
    if isinstance(o, Cls):
        if o.meta == "enum" and o.members is not None:
            for n, m in o.flags.get("enum_names", []):
                if eq(I, const(n), k):
                    return m
            need_hash(I, k)
            raise I.exc(KeyError, k)
        if o.flags.get("enum_lookup"):
            return o.flags["enum_lookup"](I, o, k)
        return I.ext.subscript(I, o, k)
    if isinstance(o, (Special, Alias)):
        return I.ext.subscript(I, o, k)
    if isinstance(o, Inst):
        m = I.class_attr(o.cls, "__getitem__")
        if m is not None:
            return I.call(m, [o, k], {})
        raise I.exc(TypeError, f"{o.cls.name!r} object is not subscriptable")
    if isinstance(o, Sym):
        c = I.class_of(o)
        if c is None and not is_mapping(I, o):
            c = bound(I, o)
        h = o.props.get("getitem")
        if h is not None:
            return h(I, o, k)
        if c is not None:
            if not cls_has(c, "__getitem__"):
                raise I.exc(TypeError, f"{c.name!r} object is not subscriptable")
            if issub(c, STR):
                if isinstance(k, SliceV):
                    r = I.app("slice", [o, repr(k.lo), repr(k.hi), repr(k.step)], STR)
                    return r
                if isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool):
                    n = shape(I, o)
                    if not (-n <= k.v < n):
                        raise I.exc(IndexError, "string index out of range")
                    return sym_items(I, o)[k.v]
                kk = I.class_of(k)
                if kk is not None and not issub(kk, INT):
                    raise I.exc(TypeError, "string indices must be integers")
                raise Unsupported("string index")
            if is_mapping(I, o):
                return getitem(I, materialize(I, o, "map"), k)
            if issub(c, ext(cabc.Sequence)):
                return getitem(I, materialize(I, o, "seq"), k)
        elif is_mapping(I, o):
            return getitem(I, materialize(I, o, "map"), k)
        if o.props.get("trusted"):
            return I.app("item", [o, k], trusted=True)
        c = I.choose(("getitem", o.sid, vid(k)), [None, TypeError, KeyError, IndexError], f"{o!r}[{k!r}]")
        if c is not None:
            raise I.exc(c, f"{o!r}[{k!r}]")
        return I.app("item", [o, k])
    if isinstance(o, IterV) and o.extra and "__getitem__" in o.extra:
        return o.extra["__getitem__"](I, o, [k], {})
    raise I.exc(TypeError, "object is not subscriptable")


def setitem(I, o, k, v):
    if isinstance(o, (DictV, ListV, SetV)) and o.cls is not None:
        m = override(o, "__setitem__")
        if m is not None:
            return I.call(m, [o, k, v], {})
    if isinstance(o, DictV):
        if o.cls is not None and not cls_has(o.cls, "__setitem__"):
            raise I.exc(TypeError, f"{o.cls.name!r} object does not support item assignment")
        dict_set(I, o, k, v)
    elif isinstance(o, ListV):
        if isinstance(k, SliceV):
            g = [None if x is NONE else _index(I, x, 0) for x in (k.lo, k.hi, k.step)]
            I.touch(o, "setitem")
            o.items[slice(*g)] = list(iterate(I, v))
            return
        i = _index(I, k, 0)
        if not (-len(o.items) <= i < len(o.items)):
            raise I.exc(IndexError, "assignment index out of range")
        I.touch(o, "setitem")
        o.items[i] = v
    elif isinstance(o, NsV):
        if isinstance(o.of, (Inst, Fn, ModV)):
            I.touch(o.of, f"setitem {key_name(k)}")
            o.ns[key_name(k)] = v
        else:
            raise I.exc(TypeError, "'mappingproxy' object does not support item assignment")
    elif isinstance(o, Inst):
        m = I.class_attr(o.cls, "__setitem__")
        if m is None:
            raise I.exc(TypeError, "object does not support item assignment")
        I.call(m, [o, k, v], {})
    elif isinstance(o, Sym):
        c = I.class_of(o)
        if c is not None and not cls_has(c, "__setitem__"):
            raise I.exc(TypeError, "object does not support item assignment")
        if c is None:
            pos = I.path.facts.get(("pos", o.sid), ())
            if not any(cls_has(d, "__setitem__") for d in pos):
                if not I.choose(("setitem", o.sid), [True, False], f"{o!r} supports item assignment"):
                    raise I.exc(TypeError, "object does not support item assignment")
        I.touch(o, "setitem")
        if is_mapping(I, o):
            m = materialize(I, o, "map")
            i = dict_find(I, m, k)
            if i is None:
                m.pairs.append([k, v])
            else:
                m.pairs[i][1] = v
    else:
        raise I.exc(TypeError, "object does not support item assignment")


def delitem(I, o, k):
    if isinstance(o, (DictV, ListV, SetV)) and o.cls is not None:
        m = override(o, "__delitem__")
        if m is not None:
            return I.call(m, [o, k], {})
    if isinstance(o, Sym) and is_mapping(I, o):
        c = I.class_of(o)
        if c is not None and not cls_has(c, "__delitem__"):
            raise I.exc(TypeError, "object doesn't support item deletion")
        I.touch(o, "delitem")
        o = materialize(I, o, "map")
    if isinstance(o, DictV):
        if o.cls is not None and not cls_has(o.cls, "__delitem__"):
            raise I.exc(TypeError, f"{o.cls.name!r} object doesn't support item deletion")
        need_hash(I, k)
        i = dict_find(I, o, k)
        if i is None:
            raise I.exc(KeyError, k)
        I.touch(o, "delitem")
        del o.pairs[i]
    elif isinstance(o, ListV):
        if isinstance(k, SliceV):
            g = [None if x is NONE else _index(I, x, 0) for x in (k.lo, k.hi, k.step)]
            I.touch(o, "delitem")
            del o.items[slice(*g)]
            return
        i = _index(I, k, 0)
        if not (-len(o.items) <= i < len(o.items)):
            raise I.exc(IndexError, "index out of range")
        I.touch(o, "delitem")
        del o.items[i]
    elif isinstance(o, NsV) and isinstance(o.of, (Inst, Fn, ModV)):
        _ns_pop(I, o, [k], {})
    else:
        raise I.exc(TypeError, "object doesn't support item deletion")


# ------------------------------------------------------------------------------------------------ iteration

def set_order(I, s):
    """The iteration order of a set is not determined: both directions are explored."""
    items = list(s.items)
    if len(items) < 2:
        return items
    I.event("setiter", s)
    # sets of the same elements are iterated in the same order within one run
    items.sort(key=lambda x: repr(vid(x)))
    d = I.choose(("setorder",) + tuple(vid(x) for x in items), [0, 1], f"iteration order of set {s!r}")
    return items if d == 0 else items[::-1]


def iterate(I, v, bound=None):
    if isinstance(v, (DictV, ListV, SetV)) and v.cls is not None:
        m = override(v, "__iter__")
        if m is not None:
            return iterate(I, I.call(m, [v], {}))
    if isinstance(v, TupV):
        return iter(list(v.items))
    if isinstance(v, ListV):
        def lit():
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
        return lit()
    if isinstance(v, SetV):
        return guarded(I, v, set_order(I, v))
    if isinstance(v, DictV):
        if v.cls is not None and not cls_has(v.cls, "__iter__"):
            raise I.exc(TypeError, "object is not iterable")
        return guarded(I, v, [p[0] for p in v.pairs])
    if isinstance(v, ViewV):
        return guarded(I, v.d, view_items(I, v))
    if isinstance(v, NsV):
        return iter([const(k) for k in list(v.ns)])
    if isinstance(v, IterV):
        if bound is not None:
            def lim(it=v.it):
                for i, x in enumerate(it):
                    yield x
                    if i > bound:
                        return
            return lim()
        return v.it
    if isinstance(v, Const):
        if isinstance(v.v, str):
            return iter([const(c) for c in v.v])
        if isinstance(v.v, bytes):
            return iter([const(c) for c in v.v])
        raise I.exc(TypeError, f"{type(v.v).__name__!r} object is not iterable")
    if isinstance(v, Cls):
        if v.meta == "enum" and v.members is not None:
            return iter(list(v.members))
        raise I.exc(TypeError, "'type' object is not iterable")
    if isinstance(v, Inst):
        m = I.class_attr(v.cls, "__iter__")
        if m is not None:
            w = I.call(m, [v], {})
            n = I.class_attr(w.cls, "__next__") if isinstance(w, Inst) else None
            if n is None:
                return iterate(I, w)

            def gen():
                for _ in range(1000):
                    try:
                        x = I.call(n, [w], {})
                    except Raised as r:
                        if I.raises(r.exc, StopIteration):
                            return
                        raise
                    yield x
                raise Unsupported("unbounded iterator")
            return gen()
        m = I.class_attr(v.cls, "__getitem__")
        if m is not None:
            def seq():
                for i in range(1000):
                    try:
                        x = I.call(m, [v, const(i)], {})
                    except Raised as r:
                        if I.raises(r.exc, IndexError):
                            return
                        raise
                    yield x
                raise Unsupported("unbounded iterator")
            return seq()
        raise I.exc(TypeError, f"{v.cls.name!r} object is not iterable")
    if isinstance(v, Sym):
        k = I.class_of(v)
        h = v.props.get("iter")
        if h is not None:
            return h(I, v)
        if k is not None:
            if not (cls_has(k, "__iter__")):
                raise I.exc(TypeError, f"{k.name!r} object is not iterable")
            if issub(k, MAPPING):
                return iterate(I, materialize(I, v, "map"))
            if issub(k, ext(cabc.Set)):
                s = SetV(sym_items(I, v))
                s.sid = v.sid
                return iterate(I, s)
            return iter(list(sym_items(I, v)))
        if is_mapping(I, v):
            return iterate(I, materialize(I, v, "map"))
        pos = I.path.facts.get(("pos", v.sid), ())
        if not v.props.get("trusted") and not any(cls_has(d, "__iter__") for d in pos):
            if not I.choose(("iterable", v.sid), [True, False], f"{v!r} is iterable"):
                raise I.exc(TypeError, f"{v!r} is not iterable")
        return iter(list(sym_items(I, v)))
    raise I.exc(TypeError, "object is not iterable")


def guarded(I, owner, items):
    def size():
        return len(owner.pairs) if isinstance(owner, DictV) else len(owner.items)
    n = size()

    def gen():
        for x in items:
            if size() != n:
                raise I.exc(RuntimeError, "changed size during iteration")
            yield x
    return gen()


def length(I, v):
    if isinstance(v, (DictV, ListV, SetV)) and v.cls is not None:
        m = override(v, "__len__")
        if m is not None:
            return I.call(m, [v], {})
    if isinstance(v, (TupV, ListV, SetV)):
        return const(len(v.items))
    if isinstance(v, DictV):
        return const(len(v.pairs))
    if isinstance(v, ViewV):
        return const(len(v.d.pairs))
    if isinstance(v, NsV):
        return const(len(v.ns))
    if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
        return const(len(v.v))
    if isinstance(v, Cls) and v.meta == "enum" and v.members is not None:
        return const(len(v.members))
    if isinstance(v, Inst):
        m = I.class_attr(v.cls, "__len__")
        if m is not None:
            return I.call(m, [v], {})
    if isinstance(v, Sym):
        k = I.class_of(v)
        if k is not None:
            if not cls_has(k, "__len__"):
                raise I.exc(TypeError, f"object of type {k.name!r} has no len()")
            return const(shape(I, v))
        if is_mapping(I, v):
            return const(len(materialize(I, v, "map").pairs))
        pos = I.path.facts.get(("pos", v.sid), ())
        if not v.props.get("trusted") and not any(cls_has(d, "__len__") for d in pos):
            if not I.choose(("len", v.sid), [True, False], f"len({v!r}) works"):
                raise I.exc(TypeError, f"{v!r} has no len()")
        return const(shape(I, v))
    raise I.exc(TypeError, "object has no len()")


def next_(I, a, k):
    it = a[0]
    if isinstance(it, IterV):
        for x in it.it:
            return x
        if len(a) > 1:
            return a[1]
        raise I.exc(StopIteration, "")
    if isinstance(it, Inst) and I.class_attr(it.cls, "__next__") is not None:
        try:
            return I.call(I.class_attr(it.cls, "__next__"), [it], {})
        except Raised as r:
            if len(a) > 1 and I.raises(r.exc, StopIteration):
                return a[1]
            raise
    if isinstance(it, Sym) and I.class_of(it) is not None and cls_has(I.class_of(it), "__next__"):
        raise Unsupported("next() of an unknown iterator")
    raise I.exc(TypeError, "object is not an iterator")


def key_fn(I, kw):
    f = kw.get("key")
    if f is None or f is NONE:
        return lambda x: x
    return lambda x: I.call(f, [x], {})


def sorted_(I, items, kw):
    key = key_fn(I, kw)
    rev = kw.get("reverse")
    rev = rev is not None and I.truth(rev)
    ks = [(key(x), x) for x in items]
    out = []
    for kx, x in ks:          # stable insertion sort
        i = len(out)
        while i > 0:
            less = order(I, ast.Lt, kx, out[i - 1][0]) if not rev else order(I, ast.Lt, out[i - 1][0], kx)
            if not less:
                break
            i -= 1
        out.insert(i, (kx, x))
    return [x for _, x in out]


def extreme(I, a, k, op, name):
    items = list(iterate(I, a[0])) if len(a) == 1 else a
    if not items:
        if "default" in k:
            return k["default"]
        raise I.exc(ValueError, f"{name}() arg is an empty sequence")
    key = key_fn(I, k)
    best, bk = items[0], key(items[0])
    for x in items[1:]:
        kx = key(x)
        if order(I, op, kx, bk):
            best, bk = x, kx
    return best


# ------------------------------------------------------------------------------------------------ instantiation

def instantiate(I, c, args, kw):
    if c.ctor is not None:
        return c.ctor(I, c, args, kw)
    m = c.flags.get("metaclass")
    if m is not None and m.py is None:
        call = I.class_attr(m, "__call__")
        if isinstance(call, Fn):
            return I.call(call, [c] + args, kw)
    return construct(I, c, args, kw)


def construct(I, c, args, kw):
    if c.meta == "enum" and c.members is not None:
        if not args:
            raise I.exc(TypeError, f"{c.name}() missing a value")
        v = args[0]
        for m in c.members:
            if m is v or eq(I, m.attrs["value"], v):
                return m
        raise I.exc(ValueError, f"{v!r} is not a valid {c.name}")
    if c.py is not None and c.py is not object:
        h = CTORS.get(c.py) or I.ext.ctor(I, c)
        if h is not None:
            spec = CONSTRUCTORS.get(c.py)
            if spec is not None and not fits(spec, args, kw):
                raise I.exc(TypeError, f"{c.name}() called with {len(args) + len(kw)} arguments")
            return h(I, c, args, kw)
    if c.py is not None and not c.ns:
        if issubclass(c.py, BaseException):
            e = Inst(c, {"args": TupV(args)})
            for n, v in kw.items():
                e.attrs[n] = v
            return e
        if getattr(c.py, "__abstractmethods__", None):
            raise I.exc(TypeError, f"Can't instantiate abstract class {c.name}")
        if c.py is object:
            if args or kw:
                raise I.exc(TypeError, "object() takes no arguments")
            return Inst(c, {})
        I.taint(f"constructor of {c.qual}")
        return Sym(f"{c.name}(...)", c)
    # repository or scenario class
    abstract = abstract_methods(I, c)
    if abstract:
        raise I.exc(TypeError, f"Can't instantiate abstract class {c.name}")
    new = I.class_attr(c, "__new__")
    if new is not None:
        o = I.call(new.fn if isinstance(new, StaticM) else new, [c] + args, kw)
        if not (isinstance(o, Inst) and issub(o.cls, c)):
            return o
    else:
        o = Inst(c)
        base = next((k for k in c.mro if k.py is not None and k.py is not object
                     and (CTORS.get(k.py) or I.ext.ctor(I, k))), None)
        if base is not None:
            init = I.class_attr(c, "__init__")
            if init is not None:
                if base.py not in (dict, list, set):
                    raise Unsupported(f"subclass of {base.name} with a constructor")
                v = {dict: DictV, list: ListV, set: SetV}[base.py]()
                v.cls = c
                I.call(init, [v] + args, kw)
                return v
            h = CTORS.get(base.py) or I.ext.ctor(I, base)
            v = h(I, c if base.py not in CTORS else base, args, kw)
            if isinstance(v, (ListV, DictV, SetV)):
                v.cls = c
                return v
            if isinstance(v, TupV):
                return Sym(f"{c.name}(...)", c, items=v.items, expr=("new", c, v), truth=bool(v.items))
            if isinstance(v, Sym) and I.class_of(v) is c:
                return v
            return I.app("new", [c, v], c)
    init = I.class_attr(c, "__init__")
    if init is not None:
        I.call(init, [o] + args, kw)
    elif issub(c, ext(BaseException)):
        o.attrs["args"] = TupV(args)
    elif args or kw:
        if new is None:
            raise I.exc(TypeError, f"{c.name}() takes no arguments")
    if issub(c, ext(BaseException)):
        o.attrs.setdefault("args", TupV(args))
    return o


def abstract_methods(I, c):
    if c.meta != "abc" and not any(k.meta == "abc" for k in c.mro):
        return []
    out = []
    for k in c.mro:
        for n, v in k.ns.items():
            if is_abstract(v):
                cur = I.class_attr(c, n)
                if is_abstract(cur):
                    out.append(n)
    return out


def is_abstract(v):
    if isinstance(v, (Fn, Builtin)):
        return v.attrs.get("__isabstractmethod__") is TRUE
    if isinstance(v, (StaticM, ClassM)):
        return is_abstract(v.fn)
    if isinstance(v, Prop):
        return v.fget is not None and is_abstract(v.fget)
    return False


def _t_list(I, c, a, k):
    return ListV(list(iterate(I, a[0])) if a else [])


def _t_tuple(I, c, a, k):
    if a and isinstance(a[0], TupV):
        return a[0]
    return TupV(list(iterate(I, a[0])) if a else [])


def _t_set(frozen):
    def f(I, c, a, k):
        s = SetV(frozen=frozen)
        for x in (iterate(I, a[0]) if a else ()):
            set_add(I, s, x, quiet=True)
        return s
    return f


def _t_dict(I, c, a, k):
    d = DictV()
    if c.py is not dict:
        d.cls = c
    if a:
        dict_update(I, d, a[0], quiet=True)
    for n, v in k.items():
        dict_set(I, d, const(n) if isinstance(n, str) else n, v, quiet=True)
    return d


def _t_defaultdict(I, c, a, k):
    d = _t_dict(I, c, a[1:], k)
    if a and a[0] is not NONE:
        d.default_factory = a[0]
    return d


def _t_bool(I, c, a, k):
    return const(I.truth(a[0])) if a else FALSE


def _t_str(I, c, a, k):
    if not a:
        return const("")
    if len(a) > 1:
        return I.app("decode", a, STR)
    r = to_str(I, a[0])
    return r


def _t_int(I, c, a, k):
    if not a:
        return const(0)
    v = a[0]
    base = a[1] if len(a) > 1 else k.get("base")
    if base is not None:
        if isinstance(v, Const) and isinstance(base, Const):
            return fold(I, lambda s, b: int(s, b), v.v, base.v)
        kb = bound(I, v)
        if kb is not None and not issub(kb, STR) and not issub(kb, BYTES):
            raise I.exc(TypeError, "int() can't convert non-string with explicit base")
        if kb is None:
            unknown_op(I, v, what="int")
        may_raise(I, ("int_base", vid(v)), ValueError)
        return I.app("int_base", [v, base], INT)
    if isinstance(v, Const):
        if not isinstance(v.v, (int, float, str, bytes)):
            raise I.exc(TypeError, "int() argument must be a string or a number")
        return fold(I, int, v.v)
    if isinstance(v, Inst) and v.cls.flags.get("int_enum"):
        return v.attrs["value"]
    kk = bound(I, v)
    if kk is None:
        unknown_op(I, v, what="int")
        may_raise(I, ("int", vid(v)), ValueError)
        return I.app("int", [v], INT)
    if kk is INT and I.class_of(v) is INT:
        return v
    if issub(kk, INT):
        return I.app("int", [v], INT)
    if issub(kk, FLOAT):
        if not (v.props.get("frac") or v.props.get("integral")):
            may_raise(I, ("int", vid(v)), OverflowError, ValueError)
        return I.app("int", [v], INT)
    if issub(kk, STR) or issub(kk, BYTES):
        may_raise(I, ("int", vid(v)), ValueError)
        return I.app("int", [v], INT)
    if cls_has(kk, "__int__") or cls_has(kk, "__index__"):
        may_raise(I, ("int", vid(v)), OverflowError, ValueError)
        return I.app("int", [v], INT)
    raise I.exc(TypeError, "int() argument must be a string or a number")


def _t_float(I, c, a, k):
    if not a:
        return const(0.0)
    v = a[0]
    if isinstance(v, Const):
        if not isinstance(v.v, (int, float, str, bytes)):
            raise I.exc(TypeError, "float() argument must be a string or a number")
        return fold(I, float, v.v)
    kk = bound(I, v)
    if kk is None:
        unknown_op(I, v, what="float")
        may_raise(I, ("float", vid(v)), ValueError, OverflowError)
        return I.app("float", [v], FLOAT)
    if kk is FLOAT:
        return v
    if issub(kk, FLOAT) or kk is BOOL:
        return I.app("float", [v], FLOAT)
    if issub(kk, INT):
        if not rounding_of(v, v.expr[1] if isinstance(v, Sym) and v.expr else None):
            may_raise(I, ("float", vid(v)), OverflowError)
        return I.app("float", [v], FLOAT)
    if issub(kk, STR) or issub(kk, BYTES):
        may_raise(I, ("float", vid(v)), ValueError)
        return I.app("float", [v], FLOAT)
    if cls_has(kk, "__float__"):
        return I.app("float", [v], FLOAT)
    raise I.exc(TypeError, "float() argument must be a string or a number")


def _t_bytes(I, c, a, k):
    if not a:
        return const(b"")
    if all(isinstance(x, Const) for x in a):
        return fold(I, bytes, *[x.v for x in a])
    if I.class_of(a[0]) is BYTES:
        return a[0]
    return I.app("bytes", a, BYTES)


def _t_type(I, c, a, k):
    if len(a) == 1:
        return type_of(I, a[0])
    name, bases, ns = a
    if not isinstance(ns, DictV):
        raise Unsupported("type()")
    nc = mkcls(key_name(name) or "dynamic", [b for b in bases.items] or [OBJECT], module="dynamic",
               ns={key_name(p[0]): p[1] for p in ns.pairs})
    for v in nc.ns.values():
        I.own(v, nc)
    return nc


def _t_object(I, c, a, k):
    return Inst(OBJECT)


def _t_deque(I, c, a, k):
    return ListV(list(iterate(I, a[0])) if a else [], c)


def _t_property(I, c, a, k):
    return Prop(a[0] if a else k.get("fget"), arg(a, k, 1, "fset"))


def _t_range(I, c, a, k):
    ns = []
    for x in a:
        if isinstance(x, Const) and isinstance(x.v, int):
            ns.append(x.v)
        else:
            kk = I.class_of(x)
            if kk is not None and not issub(kk, INT):
                raise I.exc(TypeError, "range() of a non-integer")
            raise Unsupported("range of an unknown number")
    r = range(*ns)
    if len(r) > 64:
        raise Unsupported("long range")
    return TupV([const(i) for i in r])


def _t_iter_zip(I, c, a, k):
    its = [I.iter_value(x) for x in a]
    strict = k.get("strict")
    strict = strict is not None and I.truth(strict)

    def gen():
        if not its:
            return
        while True:
            out = []
            for i, it in enumerate(its):
                try:
                    out.append(next(it))
                except StopIteration:
                    if strict:
                        if i > 0:
                            raise I.exc(ValueError, "zip() argument is shorter")
                        for other in its[1:]:
                            for _ in other:
                                raise I.exc(ValueError, "zip() argument is longer")
                    return
            yield TupV(out)
    return IterV(gen(), "zip")


def _t_enumerate(I, c, a, k):
    start = arg(a, k, 1, "start", const(0))
    it = I.iter_value(a[0])
    if not isinstance(start, Const):
        raise Unsupported("enumerate start")

    def gen():
        i = start.v
        for x in it:
            yield TupV([const(i), x])
            i += 1
    return IterV(gen(), "enumerate")


def _t_map(I, c, a, k):
    its = [I.iter_value(x) for x in a[1:]]

    def gen():
        while True:
            xs = []
            for it in its:
                try:
                    xs.append(next(it))
                except StopIteration:
                    return
            yield I.call(a[0], xs, {})
    return IterV(gen(), "map")


def _t_filter(I, c, a, k):
    it = I.iter_value(a[1])

    def gen():
        for x in it:
            if I.truth(x if a[0] is NONE else I.call(a[0], [x], {})):
                yield x
    return IterV(gen(), "filter")


def _t_reversed(I, c, a, k):
    v = a[0]
    if isinstance(v, (ListV, TupV)):
        return IterV(iter(list(v.items)[::-1]), "reversed")
    if isinstance(v, (DictV,)):
        return IterV(iter([p[0] for p in v.pairs][::-1]), "reversed")
    if isinstance(v, ViewV):
        return IterV(iter(list(view_items(I, v))[::-1]), "reversed")
    if isinstance(v, Sym):
        kk = I.class_of(v)
        if kk is not None and not (cls_has(kk, "__reversed__") or issub(kk, ext(cabc.Sequence))):
            raise I.exc(TypeError, "not reversible")
        return IterV(iter(list(iterate(I, v))[::-1]), "reversed")
    if isinstance(v, Inst):
        m = I.class_attr(v.cls, "__reversed__")
        if m is not None:
            return I.call(m, [v], {})
        if I.class_attr(v.cls, "__len__") is not None and I.class_attr(v.cls, "__getitem__") is not None:
            return IterV(iter(list(iterate(I, v))[::-1]), "reversed")
    raise I.exc(TypeError, "object is not reversible")


def _t_slice(I, c, a, k):
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)


CTORS = {list: _t_list, tuple: _t_tuple, set: _t_set(False), frozenset: _t_set(True), dict: _t_dict,
         collections.OrderedDict: _t_dict, collections.defaultdict: _t_defaultdict, collections.deque: _t_deque,
         bool: _t_bool, str: _t_str, int: _t_int, float: _t_float, bytes: _t_bytes, type: _t_type, object: _t_object,
         property: _t_property, staticmethod: lambda I, c, a, k: StaticM(a[0]),
         classmethod: lambda I, c, a, k: ClassM(a[0]), range: _t_range, zip: _t_iter_zip, enumerate: _t_enumerate,
         map: _t_map, filter: _t_filter, reversed: _t_reversed, slice: _t_slice,
         type(None): lambda I, c, a, k: NONE, types.MappingProxyType: lambda I, c, a, k: a[0]}


# ------------------------------------------------------------------------------------------------ builtins

def builtin_class(name):
    p = getattr(_b, name, None)
    if isinstance(p, type):
        return ext(p)
    return None


def call_object(I, f, args, kw):
    if isinstance(f, Inst):
        m = I.class_attr(f.cls, "__call__")
        if m is None:
            raise I.exc(TypeError, f"{f.cls.name!r} object is not callable")
        if isinstance(m, StaticM):
            return I.call(m.fn, args, kw)
        return I.call(m, [f] + args, kw)
    h = f.props.get("call")
    if h is not None:
        return h(I, args, kw)
    k = I.class_of(f)
    if k is not None and not cls_has(k, "__call__"):
        raise I.exc(TypeError, f"{k.name!r} object is not callable")
    I.taint(f"call of unknown {f!r}")
    return I.app("call", [f] + args)


def call_special(I, f, args, kw):
    raise I.exc(TypeError, f"{f.name} is not callable")


def special_base(I, s):
    if s.name in ("Generic", "Protocol"):
        return I.ext.special_cls(s.name)
    if s.name == "NamedTuple":
        return I.ext.NAMEDTUPLE
    if s.name == "TypedDict":
        return I.ext.TYPEDDICT
    if s.name == "Any":
        return None
    raise Unsupported(f"base class {s.name}")


def context_manager(I, cm):
    if isinstance(cm, Inst):
        en, ex = I.class_attr(cm.cls, "__enter__"), I.class_attr(cm.cls, "__exit__")
        if en is None or ex is None:
            raise I.exc(AttributeError, "__enter__")

        def exit_(r):
            if r is None:
                I.call(ex, [cm, NONE, NONE, NONE], {})
                return False
            return I.truth(I.call(ex, [cm, r.exc.cls if isinstance(r.exc, Inst) else NONE, r.exc, NONE], {}))
        return (lambda: I.call(en, [cm], {})), exit_
    if isinstance(cm, IterV) and cm.kind == "contextmanager":
        g = cm.it

        def enter():
            for x in g:
                return x
            raise I.exc(RuntimeError, "generator didn't yield")

        def exit2(r):
            if r is None:
                for _ in g:
                    raise I.exc(RuntimeError, "generator didn't stop")
                return False
            try:
                g.throw(r)
            except StopIteration:
                return True
            except Raised as q:
                if q.exc is r.exc:
                    return False
                raise
            raise I.exc(RuntimeError, "generator didn't stop after throw()")
        return enter, exit2
    if isinstance(cm, Builtin) and cm.name == "suppress":
        classes = cm.attrs["classes"]
        return (lambda: NONE), (lambda r: r is not None and any(I.exc_matches(r.exc, c) for c in classes))
    raise Unsupported("with statement on unknown context manager")


def _b_isinstance(I, a, k):
    return const(I.isinstance(a[0], a[1]))


BARE_TUPLE = None


def issubclass_(I, c, d):
    if d is BARE_TUPLE:
        d = TUPLE
    if isinstance(d, TupV):
        return any(issubclass_(I, c, x) for x in d.items)
    if isinstance(d, Alias) and isinstance(d.origin, Special) and d.origin.name in ("Union", "Optional"):
        return any(issubclass_(I, c, NONETYPE if x is NONE else x) for x in d.args)
    if isinstance(c, Alias) or isinstance(c, Special):
        raise I.exc(TypeError, "issubclass() arg 1 must be a class")
    if isinstance(c, Sym) or isinstance(d, Sym):
        if isinstance(c, Sym) and c.expr and c.expr[0] == "typeof":
            return I.isinstance(c.expr[1], d)
        kc = I.class_of(c)
        if kc is not None and not issub(kc, TYPE):
            raise I.exc(TypeError, "issubclass() arg 1 must be a class")
        if isinstance(d, Sym) and d.props.get("issub") is not None:
            return d.props["issub"](I, c)
        return I.choose(("issub", vid(c), vid(d)), [True, False], f"issubclass({c!r}, {d!r})")
    if not isinstance(c, Cls):
        raise I.exc(TypeError, "issubclass() arg 1 must be a class")
    if not isinstance(d, Cls):
        raise I.exc(TypeError, "issubclass() arg 2 must be a class")
    if d.flags.get("nocheck"):
        raise I.exc(TypeError, f"{d.name} does not support instance and class checks")
    return issub(c, d)


def _b_getattr(I, a, k):
    n = a[1]
    if not isinstance(n, Const):
        kk = I.class_of(n)
        if kk is not None and not issub(kk, STR):
            raise I.exc(TypeError, "attribute name must be string")
        h = I.ext.getattr_sym(I, a[0], n, a[2] if len(a) > 2 else None)
        if h is not None:
            return h
        raise Unsupported("getattr with unknown name")
    if not isinstance(n.v, str):
        raise I.exc(TypeError, "attribute name must be string")
    if len(a) > 2:
        return I.getattr(a[0], n.v, a[2])
    return I.getattr(a[0], n.v)


def _b_hasattr(I, a, k):
    try:
        _b_getattr(I, a[:2], k)
        return TRUE
    except Raised as r:
        if I.raises(r.exc, AttributeError):
            return FALSE
        raise


def _b_setattr(I, a, k):
    n = attr_name(I, a[1])
    if n is None:
        if isinstance(a[1], Sym) and isinstance(a[0], Inst):
            I.touch(a[0], "setattr ?")
            a[0].attrs[a[1]] = a[2]
            return NONE
        raise Unsupported("setattr with unknown name")
    I.setattr(a[0], n, a[2])
    return NONE


def _b_delattr(I, a, k):
    n = attr_name(I, a[1])
    if n is None:
        raise Unsupported("delattr")
    I.delattr(a[0], n)
    return NONE


def _b_iter(I, a, k):
    if len(a) == 2:
        def gen():
            n = 0
            while True:
                n += 1
                if n > 60:
                    raise Unsupported("unbounded iter()")
                x = I.call(a[0], [], {})
                if eq(I, x, a[1]):
                    return
                yield x
        return IterV(gen(), "callable_iterator")
    v = a[0]
    if isinstance(v, IterV):
        return v
    if isinstance(v, Inst):
        m = I.class_attr(v.cls, "__iter__")
        if m is not None:
            return I.call(m, [v], {})
    return IterV(I.iter_value(v))


def _b_any(I, a, k):
    for x in iterate(I, a[0]):
        if I.truth(x):
            return TRUE
    return FALSE


def _b_all(I, a, k):
    for x in iterate(I, a[0]):
        if not I.truth(x):
            return FALSE
    return TRUE


def _b_sum(I, a, k):
    r = a[1] if len(a) > 1 else k.get("start", const(0))
    for x in iterate(I, a[0]):
        r = binop(I, ast.Add(), r, x)
    return r


def _b_callable(I, a, k):
    v = a[0]
    if isinstance(v, (Fn, Builtin, BoundM, Cls, StaticM, Alias)):
        return TRUE
    if isinstance(v, Inst):
        return const(I.class_attr(v.cls, "__call__") is not None)
    if isinstance(v, Sym):
        if v.props.get("call"):
            return TRUE
        kk = I.class_of(v)
        if kk is not None:
            return const(cls_has(kk, "__call__"))
        return const(I.choose(("callable", v.sid), [True, False]))
    return FALSE


def _b_vars(I, a, k):
    v = a[0]
    if isinstance(v, (Cls, Inst, Fn)):
        return get_attribute(I, v, "__dict__")
    if isinstance(v, ModV):
        return NsV(v.ns, v)
    if isinstance(v, Sym):
        if v.props.get("trusted"):
            return I.app("vars", [v], trusted=True)
        kk = I.class_of(v)
        if kk is not None and kk.py is not None and solid(kk):
            raise I.exc(TypeError, "vars() argument must have __dict__ attribute")
        return NsV(v.attrs, v)
    raise I.exc(TypeError, "vars() argument must have __dict__ attribute")


def _b_repr(I, a, k):
    v = a[0]
    if isinstance(v, Const):
        return const(repr(v.v))
    if isinstance(v, Inst):
        m = I.class_attr(v.cls, "__repr__")
        if m is not None and deep_text(I, m):
            return I.call(m, [v], {})
    return I.app("repr", [v], STR, truth=True)


def _b_hash(I, a, k):
    need_hash(I, a[0])
    if isinstance(a[0], Inst):
        m = I.class_attr(a[0].cls, "__hash__")
        if m is not None:
            return I.call(m, [a[0]], {})
    return I.app("hash", [a[0]], INT)


def _b_num(name):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, Const) and all(isinstance(x, Const) for x in a):
            return fold(I, getattr(_b, name), *[x.v for x in a])
        kk = bound(I, v)
        if is_num_cls(kk):
            if name == "round":
                if issub(kk, FLOAT) and len(a) == 1:
                    if not (v.props.get("frac") or v.props.get("integral")):
                        may_raise(I, ("round", vid(v)), OverflowError, ValueError)
                    return I.app("round", a, INT)
                return I.app("round", a, kk)
            if name == "abs":
                return numeric_abs(I, v, INT if kk is BOOL else kk)
            return I.app(name, a, kk)
        if kk is not None:
            raise I.exc(TypeError, f"bad operand type for {name}()")
        unknown_op(I, v, what=name)
        return I.app(name, a)
    return f


def _b_divmod(I, a, k):
    return TupV([binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1])])


def _b_super(I, a, k):
    return SuperV(a[0], a[1])


def _b_format(I, a, k):
    return format_value(I, a[0], -1, a[1] if len(a) > 1 else None)


def _b_dir(I, a, k):
    raise Unsupported("dir()")


def make_builtins(I):
    t = {
        "isinstance": _b_isinstance, "issubclass": lambda I, a, k: const(issubclass_(I, a[0], a[1])),
        "getattr": _b_getattr, "hasattr": _b_hasattr, "setattr": _b_setattr, "delattr": _b_delattr,
        "len": lambda I, a, k: length(I, a[0]), "iter": _b_iter, "next": next_, "any": _b_any, "all": _b_all,
        "sum": _b_sum, "callable": _b_callable, "vars": _b_vars, "repr": _b_repr, "hash": _b_hash,
        "id": lambda I, a, k: I.app("id", [a[0]], INT, truth=True), "abs": _b_num("abs"), "round": _b_num("round"),
        "sorted": lambda I, a, k: ListV(sorted_(I, list(iterate(I, a[0])), k)),
        "max": lambda I, a, k: extreme(I, a, k, ast.Gt, "max"), "min": lambda I, a, k: extreme(I, a, k, ast.Lt, "min"),
        "print": lambda I, a, k: NONE, "super": _b_super, "divmod": _b_divmod, "pow": lambda I, a, k: binop(I, ast.Pow(), a[0], a[1]), "format": _b_format, "dir": _b_dir,
        "ascii": _b_repr, "chr": _b_num("chr"), "ord": _b_num("ord"), "hex": _b_num("hex"), "bin": _b_num("bin"),
        "locals": _b_dir, "globals": _b_dir, "eval": _b_dir, "exec": _b_dir, "__import__": _b_dir,
    }
    out = {n: Builtin(n, f) for n, f in t.items()}
    out["NotImplemented"] = const(NotImplemented)
    out["Ellipsis"] = const(Ellipsis)
    out["__debug__"] = TRUE
    return out


# ------------------------------------------------------------------------------------------------ classes

def finish_class(I, c, kws):
    """What the metaclass does once the body of a class statement has been evaluated."""
    if c.meta == "enum":
        I.ext.finish_enum(I, c)
    for k in c.mro[1:]:
        h = k.flags.get("init_subclass")
        if h is not None:
            h(I, c, kws)
    isub = None
    for k in c.mro[1:]:
        if "__init_subclass__" in k.ns:
            isub = k.ns["__init_subclass__"]
            break
    if isub is not None:
        I.call(isub.fn if isinstance(isub, ClassM) else isub, [c], {k: v for k, v in kws.items() if k != "metaclass"})
    for n, v in list(c.ns.items()):
        if isinstance(v, Inst):
            sn = I.class_attr(v.cls, "__set_name__")
            if sn is not None:
                I.call(sn, [v, c, const(n)], {})
        if isinstance(v, Prop) and v.cached and v.name is None:
            v.name = n


def no_module(I, name):
    from . import extlib
    return extlib.no_module(I, name)


def ext_module(I, name):
    from . import extlib
    return extlib.ext_module(I, name)


def ext_attr(I, m, name):
    from . import extlib
    return extlib.ext_attr(I, m, name)
