"""Model of the typeapi package: type hint objects over annotation values."""
import ast

from .vals import *
from . import lib, extlib
from .interp import Env, Raised, Unsupported
from .lib import arg, key_name
from .extlib import SPECIALS, module

TH = mkcls("TypeHint", module="typeapi.typehint")
CTH = mkcls("ClassTypeHint", [TH], module="typeapi.typehint")
UTH = mkcls("UnionTypeHint", [TH], module="typeapi.typehint")
LTH = mkcls("LiteralTypeHint", [TH], module="typeapi.typehint")
ATH = mkcls("AnnotatedTypeHint", [TH], module="typeapi.typehint")
VTH = mkcls("TypeVarTypeHint", [TH], module="typeapi.typehint")
FTH = mkcls("ForwardRefTypeHint", [TH], module="typeapi.typehint")
TTH = mkcls("TupleTypeHint", [CTH], module="typeapi.typehint")
CVTH = mkcls("ClassVarTypeHint", [TH], module="typeapi.typehint")
ALLTH = (TH, CTH, UTH, LTH, ATH, VTH, FTH, TTH, CVTH)
TH.ns["__hash__"] = NONE
TDP = mkcls("TypedDictProtocol", [extlib.PROTOCOL], module="typeapi.utils")
ELL = Ellipsis


def is_th(v):
    return isinstance(v, Inst) and any(k is TH for k in v.cls.mro)


def is_newtype(v):
    return isinstance(v, Inst) and v.cls is extlib.NEWTYPE


def origin_of(v):
    if isinstance(v, Alias):
        return v.origin
    if v is SPECIALS["Any"]:
        return OBJECT
    return NONE


def th(I, hint, source=NONE):
    if is_th(hint) and lib.is_(I, hint.attrs["_source"], source):
        return hint
    if hint is NONE:
        hint = NONETYPE
    if isinstance(hint, Const) and isinstance(hint.v, str) or isinstance(hint, Inst) and hint.cls is extlib.FORWARDREF:
        return make(I, FTH, hint, source)
    if isinstance(hint, Alias):
        n = hint.origin.name if isinstance(hint.origin, Special) else None
        if n in ("Union", "Optional"):
            return make(I, UTH, hint, source)
        if n == "Literal":
            return make(I, LTH, hint, source)
        if n == "Annotated":
            return make(I, ATH, hint, source)
        if n == "ClassVar":
            return make(I, CVTH, hint, source)
        if hint.origin is TUPLE:
            return make(I, TTH, hint, source)
    if isinstance(hint, Inst) and hint.cls is extlib.TYPEVAR:
        return make(I, VTH, hint, source)
    if hint is SPECIALS["ClassVar"]:
        return make(I, CVTH, hint, source)
    return make(I, CTH, hint, source)


def make(I, cls, hint, source):
    args = list(hint.args) if isinstance(hint, Alias) else []
    params = extlib.free_params(I, hint) if isinstance(hint, Alias) else \
        (list(extlib.class_params(I, hint)) if isinstance(hint, Cls) else [])
    at = {"_hint": hint, "_origin": origin_of(hint), "_args": TupV(args), "_parameters": TupV(params), "_source": source}
    o = Inst(cls, at)
    o.label = f"TypeHint({hint!r})"
    if issub(cls, CTH):
        if not (is_newtype(hint) or isinstance(hint, Cls) or isinstance(at["_origin"], Cls)
                or isinstance(hint, Sym) and hint.props.get("typehint")):
            raise I.exc(AssertionError, f"ClassTypeHint must be initialized from a real type, got {hint!r}")
    if cls is TTH:
        o.attrs["_repeated"] = FALSE
        if len(args) and isinstance(args[-1], Const) and args[-1].v is ELL:
            o.attrs["_repeated"] = TRUE
            o.attrs["_args"] = TupV(args[:-1])
        if len(args) == 1 and isinstance(args[0], TupV) and not args[0].items:
            o.attrs["_args"] = TupV([])
    return o


def hint_args(I, o):
    a = o.attrs["_args"].items
    if o.cls is LTH:
        return []
    if o.cls is ATH:
        return a[:1]
    return a


def th_type(I, o):
    h, org = o.attrs["_hint"], o.attrs["_origin"]
    if o.cls is TTH:
        return TUPLE
    if isinstance(org, Cls):
        return org
    if isinstance(h, (Cls, Sym)):
        return h
    if is_newtype(h):
        return h.attrs["__supertype__"]
    raise I.exc(AssertionError, "ClassTypeHint not initialized from a real type")


def copy_with_args(I, o, args):
    h = o.attrs["_hint"]
    if o.cls is ATH:
        return make(I, ATH, extlib.annotated(I, args + h.args[1:]), NONE)
    if o.cls is TTH and I.truth(o.attrs["_repeated"]):
        args = args + [const(ELL)]
    org = o.attrs["_origin"]
    if isinstance(org, Special):
        return th(I, extlib.subscript(I, org, TupV(args)))
    return th(I, Alias(org, args))


def parameterize(I, o, m):
    if o.cls is VTH:
        v = None
        if isinstance(m, DictV):
            v = lib.dict_get(I, m, o.attrs["_hint"])
        return th(I, v if v is not None else o.attrs["_hint"])
    if o.cls is LTH:
        return o
    if o.cls is FTH:
        raise I.exc(RuntimeError, "ForwardRef cannot be parameterized")
    if o.cls is CTH and th_type(I, o) is extlib.GENERIC:
        return o
    a = hint_args(I, o)
    if o.attrs["_origin"] is not NONE and a:
        return copy_with_args(I, o, [parameterize(I, th(I, x), m).attrs["_hint"] for x in a])
    return o


def get_context(I, o):
    s = o.attrs["_source"]
    if s is NONE:
        raise I.exc(RuntimeError, f"Missing context for {o!r}.evaluate(), the type hint has no `.source`")
    return source_lookup(I, s)


def source_lookup(I, s):
    """name -> value or None"""
    if isinstance(s, ModV):
        return lambda n: s.ns.get(n)
    if isinstance(s, NsV):
        return lambda n: s.ns.get(n)
    if isinstance(s, DictV):
        return lambda n: lib.dict_get(I, s, const(n))
    if isinstance(s, Cls):
        mod = key_name(s.ns.get("__module__", const(s.module)))
        m = I.modules.get(mod)

        def look(n):
            if n in s.ns:
                return s.ns[n]
            return m.ns.get(n) if m is not None else None
        return look
    if isinstance(s, Inst) and lib.is_mapping(I, s):
        return lambda n: lib.getitem(I, s, const(n))
    raise I.exc(RuntimeError, f"Unable to determine TypeHint.source context from source={s!r}")


class LookupEnv(Env):
    __slots__ = ("look",)


def eval_expr(I, text, look):
    try:
        node = ast.parse(text.strip(), mode="eval").body
    except SyntaxError as e:
        raise I.exc(SyntaxError, str(e))
    names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
    mod = ModV("annotation scope")
    mod.path = "annotation"
    env = Env(None, "module", mod)
    env.vars = mod.ns
    mod.env = env
    for n in names:
        v = look(n)
        if v is not None:
            mod.ns[n] = v
    return I.eval(node, env)


def evaluate(I, o, look):
    if look is None:
        look = get_context(I, o) if o.cls is not VTH else None
    if o.cls is VTH:
        return o
    if o.cls is FTH:
        h = o.attrs["_hint"]
        text = h.v if isinstance(h, Const) else key_name(h.attrs["__forward_arg__"])
        return evaluate(I, th(I, eval_expr(I, text, look)), look)
    a = hint_args(I, o)
    if o.attrs["_origin"] is not NONE and a:
        return copy_with_args(I, o, [evaluate(I, th(I, x), look).attrs["_hint"] for x in a])
    return o


def context_arg(I, a, k):
    c = arg(a, k, 1, "context")
    return None if c is None or c is NONE else source_lookup(I, c)


def bases(I, o):
    t = th_type(I, o)
    if isinstance(t, Cls) and t.orig_bases is not None:
        return TupV(t.orig_bases)
    return TupV(t.bases if t is not OBJECT else []) if isinstance(t, Cls) else TupV([])


def parameter_map(I, o):
    a = hint_args(I, o)
    if not a:
        return DictV()
    t = th_type(I, o)
    if isinstance(t, Cls):
        return DictV(list(zip(extlib.class_params(I, t), a)))
    return DictV()


def recurse_bases(I, o, order="bfs"):
    def gen():
        queue = [o]
        while queue:
            cur = queue.pop(0)
            if not issub(cur.cls, CTH):
                raise I.exc(RuntimeError, "Expected to find a ClassTypeHint")
            sent = yield cur
            if isinstance(sent, Const) and sent.v == "skip":
                continue
            t = th_type(I, cur)
            m = parameter_map(I, cur)
            nxt = []
            for b in bases(I, cur).items:
                h = th(I, b, t)
                nxt.append(parameterize(I, evaluate(I, h, None), m))
            queue = queue + nxt if order == "bfs" else nxt + queue
    return IterV(gen(), "generator", gen=True)


def th_eq(I, a, b):
    if I.class_of(a) is not I.class_of(b):
        return FALSE
    ha, hb = a.attrs["_hint"], b.attrs["_hint"]
    return const(hint_eq(I, ha, hb))


def hint_eq(I, a, b):
    return lib.eq(I, a, b)


def put(c, n, f):
    c.ns[n] = Builtin(f"{c.name}.{n}", f, binds=True)


def prop(c, n, f):
    c.ns[n] = Prop(Builtin(f"{c.name}.{n}", f), name=n)


prop(TH, "hint", lambda I, a, k: a[0].attrs["_hint"])
prop(TH, "origin", lambda I, a, k: a[0].attrs["_origin"])
prop(TH, "args", lambda I, a, k: TupV(hint_args(I, a[0])))
prop(TH, "parameters", lambda I, a, k: a[0].attrs["_parameters"])
prop(TH, "source", lambda I, a, k: a[0].attrs["_source"])
put(TH, "__eq__", lambda I, a, k: th_eq(I, a[0], a[1]) if is_th(a[1]) else FALSE)
put(TH, "__iter__", lambda I, a, k: IterV(iter([th(I, x) for x in hint_args(I, a[0])]), "generator"))
put(TH, "__len__", lambda I, a, k: const(len(hint_args(I, a[0]))))
put(TH, "__repr__", lambda I, a, k: const(f"TypeHint({a[0].attrs['_hint']!r})"))


def _th_item(I, a, k):
    if isinstance(a[1], SliceV):
        return ListV([th(I, x) for x in lib.getitem(I, TupV(hint_args(I, a[0])), a[1]).items])
    return th(I, lib.getitem(I, TupV(hint_args(I, a[0])), a[1]))


put(TH, "__getitem__", _th_item)
put(TH, "parameterize", lambda I, a, k: parameterize(I, a[0], arg(a, k, 1, "parameter_map")))
put(TH, "evaluate", lambda I, a, k: evaluate(I, a[0], context_arg(I, a, k)))
prop(CTH, "type", lambda I, a, k: th_type(I, a[0]))
prop(CTH, "bases", lambda I, a, k: bases(I, a[0]))
put(CTH, "get_parameter_map", lambda I, a, k: parameter_map(I, a[0]))
put(CTH, "recurse_bases", lambda I, a, k: recurse_bases(I, a[0], (arg(a, k, 1, "order") or const("bfs")).v))
put(UTH, "has_none_type", lambda I, a, k: const(any(x is NONETYPE for x in a[0].attrs["_args"].items)))


def _without_none(I, a, k):
    xs = [x for x in a[0].attrs["_args"].items if x is not NONETYPE]
    if len(xs) == 1:
        return th(I, xs[0])
    return copy_with_args(I, a[0], xs)


put(UTH, "without_none_type", _without_none)
prop(LTH, "values", lambda I, a, k: a[0].attrs["_args"])
prop(ATH, "type", lambda I, a, k: a[0].attrs["_args"].items[0])
prop(ATH, "metadata", lambda I, a, k: TupV(a[0].attrs["_args"].items[1:]))
prop(VTH, "name", lambda I, a, k: a[0].attrs["_hint"].attrs["__name__"])
prop(VTH, "bound", lambda I, a, k: a[0].attrs["_hint"].attrs["__bound__"])
prop(VTH, "constraints", lambda I, a, k: a[0].attrs["_hint"].attrs["__constraints__"])
prop(TTH, "repeated", lambda I, a, k: a[0].attrs["_repeated"])
prop(FTH, "expr", lambda I, a, k: a[0].attrs["_hint"])
for _c in ALLTH[1:]:
    _c.ctor = lambda I, c, a, k: make(I, c, a[0], a[1] if len(a) > 1 else k.get("source", NONE))
TH.ctor = lambda I, c, a, k: th(I, a[0], a[1] if len(a) > 1 else k.get("source", NONE))


def get_annotations(I, c):
    d = DictV()
    if not isinstance(c, Cls):
        I.taint("get_annotations of a non-class")
        return d
    ann = c.ns.get("__annotations__")
    if ann is None:
        return d
    for k, v in ann.pairs:
        if isinstance(v, Const) and isinstance(v.v, str):
            h = th(I, v)
            v = evaluate(I, h, source_lookup(I, c)).attrs["_hint"]
        d.pairs.append([k, v])
    return d


def _get_annotations(I, a, k):
    if I.truth(k.get("include_bases", FALSE)):
        d = DictV()
        for b in a[0].mro:
            for x, y in get_annotations(I, b).pairs:
                if lib.dict_get(I, d, x) is None:
                    d.pairs.append([x, y])
        return d
    return get_annotations(I, a[0])


def _is_typed_dict(I, a, k):
    v = a[0]
    if isinstance(v, Sym) and not v.props.get("trusted"):
        return FALSE
    return const(isinstance(v, Cls) and bool(v.flags.get("typeddict")))


def _type_repr(I, a, k):
    return const(f"{a[0]!r}") if not isinstance(a[0], Sym) else I.app("type_repr", [a[0]], STR, truth=True)


module("typeapi").update({c.name: c for c in ALLTH})
module("typeapi").update({
    "TypedDictProtocol": TDP, "get_annotations": Builtin("get_annotations", _get_annotations),
    "is_typed_dict": Builtin("is_typed_dict", _is_typed_dict), "type_repr": Builtin("type_repr", _type_repr),
})
