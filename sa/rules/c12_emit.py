"""C12: serializing a structured value emits every field exactly once."""
from .common import *

RULE = ("for every structured type, field kind (own, aliased, default, flattened, remainder), source of SerializeDefaults "
        "and key collision, the serialized mapping holds every field once under its key, or a ConversionError is raised")

SETUP = TYPES + """
class K:
    pass
class Stop(Exception):
    pass
class Conv(Converter):
    'the serialized form of K: given by the scenario'
    def convert(self, ctx):
        hint = ctx.datatype
        if isinstance(hint, type(TypeHint(Annotated[K, 1]))):
            hint = hint[0]
        if isinstance(hint, type(TypeHint(K))) and hint.type is K:
            log("converted", ctx.value, ctx.key)
            return form(ctx.value) if form else ctx.value
        raise NotImplementedError
def mapper():
    m = get_object_mapper()
    m.module.register(Conv(), first=True)
    return m
form = None
def fac():
    return []
x, y, z = atom("x"), atom("y"), atom("z")
"""

# declaration, value, expected items (in order) of the mapping
SHAPES = {
    "plain fields": ("@dataclass\nclass R:\n    a: Any\n    b: Any\n    c: Any\n", "R(x, y, z)", ["'a': x", "'b': y", "'c': z"]),
    "aliases": ("@dataclass\nclass R:\n    a: Annotated[Any, Alias('A', 'AA')]\n    b: Any\n    c: Annotated[Any, Alias('b2', 'b')]\n",
                "R(x, y, z)", ["'A': x", "'b': y", "'b2': z"]),
    "swapped names": ("@dataclass\nclass R:\n    a: Annotated[Any, Alias('b')]\n    b: Annotated[Any, Alias('a')]\n", "R(x, y)",
                      ["'b': x", "'a': y"]),
    "defaults": ("@dataclass\nclass R:\n    a: Any = None\n    b: Any = 0\n    c: Any = field(default_factory=fac)\n", "R(None, 0, x)",
                 ["'a': None", "'b': 0", "'c': x"]),
    "falsy values": ("@dataclass\nclass R:\n    a: Any\n    b: Any\n    c: Any\n    d: Any\n", "R(None, 0, '', False)",
                     ["'a': None", "'b': 0", "'c': ''", "'d': False"]),
    "a derived class": ("@dataclass\nclass R0:\n    a: Any\n    b: Any\n@dataclass\nclass R(R0):\n    c: Any\n    a: Annotated[Any, Alias('A')]\n",
                        "R(a=x, b=y, c=z)", ["'A': x", "'b': y", "'c': z"]),
    "an instance of a subclass": ("@dataclass\nclass R:\n    a: Any\n    b: Any\n@dataclass\nclass R1(R):\n    c: Any\n", "R1(x, y, z)",
                                  ["'a': x", "'b': y"]),
    "fields that are not initialised": ("@dataclass\nclass R:\n    a: Any\n    n: Any = field(init=False, default=7)\n    c: t.ClassVar[int] = 1\n    b: Any = 3\n",
                                        "R(x, y)", ["'a': x", "'b': y"]),
    "a flattened field": ("@dataclass\nclass In:\n    i: Any\n    j: Annotated[Any, Alias('J')]\n@dataclass\nclass R:\n    a: Any\n"
                          "    f: Annotated[In, Flattened()]\n", "R(x, In(y, z))", ["'a': x", "'i': y", "'J': z"]),
    "two flattened fields": ("@dataclass\nclass In:\n    i: Any\n@dataclass\nclass In2:\n    j: Any\n@dataclass\nclass R:\n"
                             "    f: Annotated[In, Flattened()]\n    a: Any\n    g: Annotated[In2, Flattened()]\n", "R(In(x), y, In2(z))",
                             ["'i': x", "'a': y", "'j': z"]),
    "nested flattening": ("@dataclass\nclass In2:\n    j: Any\n@dataclass\nclass In:\n    i: Any\n    g: Annotated[In2, Flattened()]\n@dataclass\nclass R:\n"
                          "    f: Annotated[In, Flattened()]\n    a: Any\n", "R(In(x, In2(y)), z)", ["'i': x", "'j': y", "'a': z"]),
    "a remainder field": ("@dataclass\nclass R:\n    a: Any\n    r: Annotated[Dict[str, Any], Remainder()]\n    b: Any\n",
                          "R(x, {'p': y, 'q': z}, None)", ["'a': x", "'b': None", "'p': y", "'q': z"]),
    "an empty remainder": ("@dataclass\nclass R:\n    a: Any\n    r: Annotated[Dict[str, Any], Remainder()]\n", "R(x, {})", ["'a': x"]),
    "a disabled remainder": ("@dataclass\nclass R:\n    a: Any\n    r: Annotated[Any, Remainder(False)]\n", "R(x, y)", ["'a': x", "'r': y"]),
    "disabled flattening": ("@dataclass\nclass R:\n    a: Any\n    r: Annotated[Pt, Flattened(False)]\n", "R(x, Pt(1, 'q'))",
                            ["'a': x", "'r': {'x': 1, 'y': 'q'}"]),
    "a flattened remainder holder": ("@dataclass\nclass In:\n    i: Any\n    r: Annotated[Dict[str, Any], Remainder()]\n@dataclass\nclass R:\n"
                                     "    f: Annotated[In, Flattened()]\n    a: Any\n", "R(In(x, {'p': y}), z)", ["'i': x", "'p': y", "'a': z"]),
    "a TypedDict": ("class R(TypedDict):\n    a: Any\n    b: Annotated[Any, Alias('B')]\n    c: Any\n", "{'c': z, 'a': x, 'b': y}",
                    ["'a': x", "'B': y", "'c': z"]),
    "a TypedDict with absent keys": ("class R(TypedDict, total=False):\n    a: Any\n    b: Annotated[Any, Alias('B')]\n    c: Any\n", "{'c': z}", ["'c': z"]),
    "a TypedDict with None": ("class R(TypedDict, total=False):\n    a: Any\n    b: Annotated[Any, Alias('B')]\n", "{'b': None, 'a': 0}", ["'a': 0", "'B': None"]),
    "a TypedDict with optional keys": ("class R(TypedDict):\n    a: Optional[Any]\n    b: Any\n", "{'b': y}", ["'b': y"]),
    "a foreign mapping as TypedDict": ("class R(TypedDict):\n    a: Any\n    b: Any\n", "collections.OrderedDict([('b', y), ('a', x)])", ["'a': x", "'b': y"]),
    "a NamedTuple": ("class R(NamedTuple):\n    a: Any\n    b: Annotated[Any, Alias('B')]\n    c: Any = None\n", "R(x, y)", ["'a': x", "'B': y", "'c': None"]),
    "a generic class": ("T2 = TypeVar('T2')\n@dataclass\nclass G0(Generic[T2]):\n    g: T2\n@dataclass\nclass R(G0[Any]):\n    a: Any\n", "R(x, y)", ["'g': x", "'a': y"]),
    "fields of unusual names": ("@dataclass\nclass R:\n    __v__: Any\n    _p: Any\n    _: Any\n    type: Any\n    items: Any\n    class_: Any\n    X: Any\n",
                                "R(x, y, z, x, None, y, z)", ["'__v__': x", "'_p': y", "'_': z", "'type': x", "'items': None", "'class_': y", "'X': z"]),
    "a TypedDict of unusual names": ("R = TypedDict('R', {'__v__': Any, '_p': Any, 'a-b': Any, '': Any, 'class': Any, 'items': Any, '1': Any})\n",
                                     "{'__v__': x, '_p': y, 'a-b': z, '': x, 'class': y, 'items': z, '1': None}", ["'__v__': x", "'_p': y", "'a-b': z", "'': x", "'class': y", "'items': z", "'1': None"]),
    "slots": ("@dataclass\nclass R:\n    __slots__ = ('a', 'b')\n    a: Any\n    b: Any\n", "R(x, y)", ["'a': x", "'b': y"]),
    "converted fields": ("@dataclass\nclass R:\n    a: K\n    b: List[K]\n    c: Optional[K]\n", "R(x, [y, z], None)", ["'a': x", "'b': [y, z]", "'c': None"]),
}
COLLIDE = {
    "the same alias twice": ("@dataclass\nclass R:\n    a: Annotated[Any, Alias('k')]\n    b: Annotated[Any, Alias('k')]\n", "R(x, y)"),
    "an alias and a name": ("@dataclass\nclass R:\n    a: Annotated[Any, Alias('b')]\n    b: Any\n", "R(x, y)"),
    "a name and an alias": ("@dataclass\nclass R:\n    b: Any\n    a: Annotated[Any, Alias('b')]\n", "R(x, y)"),
    "a flattened field before": ("@dataclass\nclass In:\n    i: Annotated[Any, Alias('k')]\n@dataclass\nclass R:\n    f: Annotated[In, Flattened()]\n    k: Any\n", "R(In(x), y)"),
    "a flattened field after": ("@dataclass\nclass In:\n    i: Annotated[Any, Alias('k')]\n@dataclass\nclass R:\n    k: Any\n    f: Annotated[In, Flattened()]\n", "R(x, In(y))"),
    "two flattened fields": ("@dataclass\nclass In:\n    i: Any\n@dataclass\nclass R:\n    f: Annotated[In, Flattened()]\n    g: Annotated[In, Flattened()]\n", "R(In(x), In(y))"),
    "the remainder": ("@dataclass\nclass R:\n    a: Any\n    r: Annotated[Dict[str, Any], Remainder()]\n", "R(x, {'b': z, 'a': y})"),
    "the remainder and an alias": ("@dataclass\nclass R:\n    r: Annotated[Dict[str, Any], Remainder()]\n    a: Annotated[Any, Alias('A')]\n", "R({'A': y}, x)"),
    "the remainder and a flattened field": ("@dataclass\nclass In:\n    i: Any\n@dataclass\nclass R:\n    r: Annotated[Dict[str, Any], Remainder()]\n"
                                            "    f: Annotated[In, Flattened()]\n", "R({'i': y}, In(x))"),
    "falsy values under one key": ("@dataclass\nclass R:\n    a: Annotated[Any, Alias('k')]\n    b: Annotated[Any, Alias('k')]\n", "R(None, None)"),
    "two remainder fields": ("@dataclass\nclass R:\n    r: Annotated[Dict[str, Any], Remainder()]\n    s: Annotated[Dict[str, Any], Remainder()]\n", "R({'i': y}, {'j': x})"),
    "a TypedDict": ("class R(TypedDict):\n    a: Annotated[Any, Alias('b')]\n    b: Any\n", "{'a': x, 'b': y}"),
    "a flattened field that is no mapping": ("@dataclass\nclass R:\n    f: Annotated[K, Flattened()]\n    k: Any\n", "R(x, y)"),
    "a remainder that is no mapping": ("@dataclass\nclass R:\n    f: Annotated[K, Remainder()]\n    k: Any\n", "R([x], y)"),
}


def cases():
    for what, (decl, value, items) in SHAPES.items():
        yield case(what, SETUP + decl, f"""
m = mapper()
how = choice("settings", None, SerializeDefaults(True))
r = attempt(m.serialize, {value}, R, None, [how] if how else None)
claim(r[0] == "ok", "{what}: serialization fails", r[1])
if r[0] == "ok":
    want = {{{', '.join(items)}}}
    claim(exact(r[1], dict), "{what}: the result is", r[1])
    claim(len(r[1]) == len(want), "{what}: written as", r[1])
    for k in want:
        claim(k in r[1] and (same(r[1][k], want[k]) or eqv(r[1][k], want[k])), "{what}:", k, "is written as", r[1].get(k, "nothing"))
""")
        yield case(f"{what} inside others", SETUP + decl + "@dataclass\nclass Outer:\n    o: R\n    l: List[R]\n", f"""
m = mapper()
v = {value}
r = attempt(m.serialize, Outer(v, [v, {value}]), Outer)
want = {{{', '.join(items)}}}
claim(r[0] == "ok" and len(r[1]) == 2, "{what}: serialization inside others fails", r[1])
if r[0] == "ok":
    for q in (r[1]['o'], r[1]['l'][0], r[1]['l'][1]):
        claim(len(q) == len(want), "{what}: written as", q)
        for k in want:
            claim(k in q and (same(q[k], want[k]) or eqv(q[k], want[k])), "{what}:", k, "is written as", q.get(k, "nothing"))
""")
    for what, (decl, value) in COLLIDE.items():
        yield case(f"collision of {what}", SETUP + decl, f"""
m = mapper()
for v in ({value}, {value.replace('y', 'x')}, {value.replace('z', 'x').replace('y', 'x')}):
    r = attempt(m.serialize, v, R)
    claim(r[0] == "conv", "collision of {what}: written as", r[1])
""")
    # ---- defaults left out: where the setting comes from, and what equals the default
    on = SETUP + """
@dataclass
class R:
    req: Any
    a: Any = None
    b: Annotated[Any, Alias('B')] = 0
    c: Any = ''
    f: Any = field(default_factory=fac)
class N(NamedTuple):
    req: Any
    a: Any = None
    b: Annotated[Any, Alias('B')] = 0
    c: Any = ''
@SerializeDefaults(False) if False else (lambda c: c)
@dataclass
class Plain:
    a: Any = 1
"""
    for src in ("call", "global", "local", "annotation", "provider", "converter"):
        for h in ("R", "N"):
            yield case(f"defaults of {h} disabled by {src}", on, f"""
m = mapper()
s = SerializeDefaults(False)
src = {src!r}
if src == "global":
    m.settings.add_global(s)
if src == "local":
    m.settings.add_local({h}, s)
if src == "provider":
    m.settings.add_conditional(lambda c: True, s)
if src == "converter":
    m = ObjectMapper()
    m.module.register(jc.AnyConverter())
    m.module.register(jc.CollectionConverter() if {h == 'N'} else jc.SchemaConverter(serialize_defaults=False))
hint = Annotated[{h}, s] if src == "annotation" else {h}
default = {{'a': None, 'b': 0, 'c': '', 'f': []}}
kw = {{'req': x}}
given = []
for k in {['a', 'b', 'c', 'f'] if h == 'R' else ['a', 'b', 'c']!r}:
    w = choice("value of " + k, "default", "other")
    kw[k] = default[k] if w == "default" else [x] if k == 'f' else atom("other " + k)
    if w == "other" and kw[k] != default[k]:
        given.append('B' if k == 'b' else k)
r = attempt(m.serialize, {h}(**kw), hint, None, [s] if src == "call" else None)
claim(r[0] == "ok", "serialization fails", r[1])
if r[0] == "ok" and (src != "converter" or {h == 'R'}):
    claim([k for k in r[1]] == ['req'] + given, "of the fields that differ from their default,", given, "only", list(r[1]), "are written")
    for k in r[1]:
        claim(same(r[1][k], kw['b' if k == 'B' else k]), k, "is written as", r[1][k])
""", max_paths=100)
    for inner, outer in ((False, True), (True, False)):
        yield case(f"SerializeDefaults({inner}) for the fields and SerializeDefaults({outer}) for the structure", SETUP + f"""
@dataclass
class V:
    v: Any = 1
@dataclass
class R:
    a: int = 1
    b: Annotated[int, SerializeDefaults({inner})] = 2
    c: V = field(default_factory=V)
class N(NamedTuple):
    a: int = 1
    b: Annotated[int, SerializeDefaults({inner})] = 2
    c: V = V()
""", f"""
m = mapper()
m.settings.add_local(int, SerializeDefaults({inner}))
m.settings.add_local(V, SerializeDefaults({inner}))
h = choice("structure", R, N)
if {not outer}:
    m.settings.add_local(h, SerializeDefaults(False))
r = attempt(m.serialize, h(), h)
claim(r[0] == "ok" and list(r[1]) == ({["a", "b", "c"]} if {outer} else []), "written as", r[1])
r = attempt(m.serialize, h(2, 3, V(2)), h)
claim(r[0] == "ok" and list(r[1]) == ["a", "b", "c"] and list(r[1]["c"]) == ["v"], "written as", r[1])
""")
    yield case("values that only resemble the default", on, """
s = [SerializeDefaults(False)]
r = attempt(M.serialize, R(x, [], '', {}, ()), R, None, s)
claim(r[0] == "ok" and list(r[1]) == ['req', 'a', 'B', 'c', 'f'], "falsy values other than the default are left out:", r[1])
q = val("q")
r = attempt(M.serialize, R(x, q), R, None, s)
claim(r[0] == "ok", "fails", r[1])
claim(r[0] != "ok" or ('a' in r[1]) == (q != None), "a value is left out although it differs from the default, or written although it equals it")
r = attempt(M.serialize, [R(x)], List[R], None, s)
claim(r[0] == "ok" and list(r[1][0]) == ['req'], "written as", r[1])
""")
    odd = ["None", "0", "False", "''", "[]", "{}", "5", "True", "'x'", "1.5", "Color.RED", "(1,)"]
    for dv in odd:
        yield case(f"values other than the default {dv}", SETUP + f"""
@dataclass
class Plain:
    a: Any = 1
@dataclass
class R:
    req: Any
    a: Any = field(default_factory=lambda: {dv})
    o: Optional[Any] = field(default_factory=lambda: {dv})
class N(NamedTuple):
    req: Any
    a: Any = {dv}
    o: Optional[Any] = {dv}
""", f"""
h = choice("structure", R, N)
v = choice("value", {', '.join(odd)}, Plain())
r = attempt(M.serialize, h(x, v, v), h, None, [SerializeDefaults(False)])
claim(r[0] == "ok" and list(r[1]) == (['req'] if v == {dv} else ['req', 'a', 'o']), "with the default", {dv}, "the value", v, "is written as", r[1])
r = attempt(M.serialize, h(v, {dv}, v), h, None, [SerializeDefaults(False)])
claim(r[0] == "ok" and list(r[1]) == (['req'] if v == {dv} else ['req', 'o']), "with the default", {dv}, "the value", v, "is written as", r[1])
""", max_paths=60)
    yield case("required values that look like defaults", on, """
s = [SerializeDefaults(False)]
r = attempt(M.serialize, R(None), R, None, s)
claim(r[0] == "ok" and list(r[1]) == ['req'], "a field without default is left out:", r[1])
""")
    yield case("optional fields without default", SETUP + """
@dataclass
class R:
    o: Optional[Any]
    n: Annotated[Any, Required(False)]
    r: Annotated[Any, Required()] = 3
class T(TypedDict):
    o: Optional[Any]
    r: Any
""", """
r = attempt(M.serialize, R(None, None), R)
claim(r[0] == "ok" and list(r[1]) == ['o', 'n', 'r'], "written as", r[1])
r = attempt(M.serialize, R(x, y, z), R, None, [SerializeDefaults(False)])
claim(r[0] == "ok" and list(r[1]) == ['o', 'n', 'r'], "written as", r[1])
r = attempt(M.serialize, {'o': None, 'r': 0}, T)
claim(r[0] == "ok" and list(r[1]) == ['o', 'r'], "written as", r[1])
""")
    yield case("flattened and remainder fields when defaults are disabled", SETUP + """
@dataclass
class In:
    i: Any = 1
    j: Any = 2
@dataclass
class R:
    f: Annotated[In, Flattened()]
    r: Annotated[Dict[str, Any], Remainder()]
    a: Any = None
""", """
r = attempt(M.serialize, R(In(1, x), {'p': y}), R, None, [SerializeDefaults(False)])
claim(r[0] == "ok" and len(r[1]) == 2 and same(r[1]['j'], x) and same(r[1]['p'], y), "written as", r[1])
r = attempt(M.serialize, R(In(x, 2), {}, z), R, None, [SerializeDefaults(False)])
claim(r[0] == "ok" and len(r[1]) == 2 and same(r[1]['i'], x) and same(r[1]['a'], z), "written as", r[1])
""")
    yield case("missing keys of a TypedDict", SETUP + """
class R(TypedDict):
    a: Any
    b: Any
class P(R, total=False):
    c: Any
""", """
for h, v, ok in ((R, {'a': x}, False), (R, {}, False), (P, {'a': x, 'b': y}, True), (P, {'a': x, 'c': y}, False), (P, {'a': x, 'b': y, 'c': z}, True)):
    r = attempt(M.serialize, v, h)
    claim(r[0] == ("ok" if ok else "conv"), "serializing", v, "as", h.__name__, "gives", r[1])
    claim(not ok or r[0] != "ok" or (len(r[1]) == len(v) and all(same(r[1][k], v[k]) for k in v)), "written as", r[1])
""")
    yield case("the mapping type of the converter", SETUP, """
m = ObjectMapper()
m.module.register(jc.AnyConverter())
m.module.register(jc.PlainDatatypeConverter())
m.module.register(jc.SchemaConverter(collections.OrderedDict))
i = val('i', int)
r = attempt(m.serialize, Pt(i), Pt)
claim(r[0] == "ok" and isinstance(r[1], collections.OrderedDict) and list(r[1]) == ['x', 'y'] and same(r[1]['x'], i), "written as", r[1])
""")
    yield case("each field is converted once", SETUP + """
@dataclass
class R:
    a: K
    b: Annotated[K, Alias('B')]
    c: K = None
    f: Annotated[K, Flattened()] = None
""", """
r = attempt(mapper().serialize, R(x, y, z, {'q': x}), R, None, choice("settings", None, [SerializeDefaults(False)]))
claim(r[0] == "ok" and list(r[1]) == ['a', 'B', 'c', 'q'], "written as", r[1])
claim([c[2] for c in logged("converted")] == ['a', 'b', 'c', 'f'], "fields converted:", [c[2] for c in logged("converted")])
""")
