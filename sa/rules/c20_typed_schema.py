"""C20: TypedDict and NamedTuple schemas mirror their declarations."""
from .common import *
from .c19_dataclass_schema import COMMON

RULE = ("for every shape of TypedDict, the schema has the declared keys in declaration order with their types, declared defaults, "
        "requiredness and flatness; NamedTuples and TypedDicts are converted by those rules and never as plain collections or mappings")

# name -> (definitions, class, ordered [(field, F(...))])
SHAPES = {
    "plain keys": ("class D(TypedDict):\n    a: int\n    b: str\n", "D", "[('a', F(int)), ('b', F(str))]"),
    "no keys": ("class D(TypedDict):\n    pass\n", "D", "[]"),
    "many keys in order": ("class D(TypedDict):\n    z: int\n    m: int\n    a: int\n    y: int\n    b: int\n", "D", "[(n, F(int)) for n in 'zmayb']"),
    "optional keys": ("class D(TypedDict):\n    a: Optional[int]\n    b: t.Union[int, str, None]\n    c: t.Union[int, str]\n    d: Annotated[Optional[int], 'x']\n    e: List[Optional[int]]\n", "D",
                      "[('a', F(Optional[int], False, None)), ('b', F(t.Union[int, str, None], False, None)), ('c', F(t.Union[int, str])), ('d', F(Annotated[Optional[int], 'x'], False, None)), ('e', F(List[Optional[int]]))]"),
    "not total": ("class D(TypedDict, total=False):\n    a: int\n    b: Optional[str]\n", "D", "[('a', F(int, False)), ('b', F(Optional[str], False, None))]"),
    "defaults": ("class D(TypedDict):\n    a: int\n    b: str\n    c: Optional[int]\n    d: bool\nD.b = 'x'\nD.c = 7\nD.d = False\n", "D",
                 "[('a', F(int)), ('b', F(str, False, 'x')), ('c', F(Optional[int], False, 7)), ('d', F(bool, False, False))]"),
    "defaults of non-total": ("class D(TypedDict, total=False):\n    a: int\n    b: str\nD.b = ''\n", "D", "[('a', F(int, False)), ('b', F(str, False, ''))]"),
    "odd defaults": ("class D(TypedDict):\n    a: Any\n    b: Any\nD.a = ODD\nD.b = None\n", "D", "[('a', F(Any, False, ODD)), ('b', F(Any, False, None))]"),
    "names of dict's methods": ("class D(TypedDict):\n    items: int\n    keys: List[str]\n    values: str\n    get: int\n    pop: Optional[int]\n    update: int\n    copy: int\n    clear: int\n    setdefault: int\n    popitem: int\n    fromkeys: int\n", "D",
                                "[('items', F(int)), ('keys', F(List[str])), ('values', F(str)), ('get', F(int)), ('pop', F(Optional[int], False, None)), ('update', F(int)), ('copy', F(int)), ('clear', F(int)), ('setdefault', F(int)), ('popitem', F(int)), ('fromkeys', F(int))]"),
    "names of dict's methods, not total": ("class D(TypedDict, total=False):\n    items: int\n    get: str\n", "D", "[('items', F(int, False)), ('get', F(str, False))]"),
    "required": ("class D(TypedDict):\n    a: Annotated[Optional[int], Required()]\n    b: Annotated[int, Required(False)]\n    c: Annotated[int, 'x']\n", "D",
                 "[('a', F(D.__annotations__['a'])), ('b', F(D.__annotations__['b'], False, None)), ('c', F(D.__annotations__['c']))]"),
    "flattened": ("class D(TypedDict):\n    a: Annotated[A, Flattened()]\n    b: Annotated[A, Flattened(False)]\n    c: A\n", "D",
                  "[('a', F(D.__annotations__['a'], flat=True)), ('b', F(D.__annotations__['b'])), ('c', F(A))]"),
    "inherited": ("class P(TypedDict):\n    p: int\n    q: str\nclass D(P):\n    a: int\n", "D", "[('p', F(int)), ('q', F(str)), ('a', F(int))]"),
    "total below not total": ("class P(TypedDict, total=False):\n    p: int\nclass D(P):\n    a: int\n", "D", "[('p', F(int, False)), ('a', F(int))]"),
    "not total below total": ("class P(TypedDict):\n    p: int\nclass D(P, total=False):\n    a: int\n", "D", "[('p', F(int)), ('a', F(int, False))]"),
    "two bases": ("class P(TypedDict):\n    p: int\nclass Q(TypedDict, total=False):\n    q: int\nclass D(P, Q):\n    a: int\n", "D", "[('p', F(int)), ('q', F(int, False)), ('a', F(int))]"),
    "functional": ("D = TypedDict('D', {'a': int, 'not an identifier': str})\n", "D", "[('a', F(int)), ('not an identifier', F(str))]"),
    "functional, not total": ("D = TypedDict('D', {'a': int, 'class': str}, total=False)\n", "D", "[('a', F(int, False)), ('class', F(str, False))]"),
    "forward references": ("class D(TypedDict):\n    a: 'int'\n    b: 'List[D]'\n    c: 'Optional[Later]'\n    d: List['Later']\nclass Later:\n    pass\n", "D",
                           "[('a', F(int)), ('b', F(List[D])), ('c', F(Optional[Later], False, None)), ('d', F(List[Later]))]"),
    "names of any form": ("class D(TypedDict):\n    _a: int\n    a_: int\n    A: int\n    self: int\n    type: int\n    name: int\n    fields: int\n    Key: str\n    __x__: int\n    ünï: int\n", "D",
                          "[('_a', F(int)), ('a_', F(int)), ('A', F(int)), ('self', F(int)), ('type', F(int)), ('name', F(int)), ('fields', F(int)), ('Key', F(str)), ('__x__', F(int)), ('ünï', F(int))]"),
    "odd keys": ("D = TypedDict('D', {'': int, '$ref': str, 'a.b': int, '0': int, '_': int})\n", "D",
                 "[('', F(int)), ('$ref', F(str)), ('a.b', F(int)), ('0', F(int)), ('_', F(int))]"),
    "one key": ("class D(TypedDict):\n    a: int\n", "D", "[('a', F(int))]"),
}

CONV = TYPES + """
class P0(TypedDict):
    p: int
class Mixed(P0, total=False):
    q: str
class DefT(TypedDict):
    a: int
    b: str
    c: bool
DefT.b = ''
DefT.c = False
class Meth(TypedDict):
    items: int
    get: Optional[str]
class NT0(NamedTuple):
    a: int
class NT3(NamedTuple):
    a: int
    b: str = ''
    c: Optional[int] = 7
class NTO(NamedTuple):
    a: Optional[int]
    b: int
class NTA(NamedTuple):
    a: Annotated[int, Alias('x')]
    b: 'Optional[NT0]' = None
    count: List[int] = []
class NTK(NamedTuple):
    d: bool
    k: Color = Color.RED
"""
# hint -> [(payload, value)]  and payloads that must be rejected
READ = {
    "Mixed": ([("{'p': i}", "{'p': i}"), ("{'p': i, 'q': s}", "{'p': i, 'q': s}"), ("{'q': s, 'p': i}", "{'p': i, 'q': s}")], ["{}", "{'q': s}", "{'p': s}", "{'p': i, 'q': i}", "{'p': i, 'z': 1}", "[i]", "[i, s]", "[('p', i)]", "[]", "None", "{'p': None}"]),
    "DefT": ([("{'a': i}", "{'a': i, 'b': '', 'c': False}"), ("{'a': i, 'b': s}", "{'a': i, 'b': s, 'c': False}"), ("{'a': i, 'c': True}", "{'a': i, 'b': '', 'c': True}")], ["{}", "{'b': s}", "{'a': i, 'b': None}", "{'a': i, 'c': 0}"]),
    "Meth": ([("{'items': i}", "{'items': i, 'get': None}"), ("{'items': i, 'get': s}", "{'items': i, 'get': s}"), ("{'items': i, 'get': None}", "{'items': i, 'get': None}")], ["{}", "{'get': s}", "{'items': i, 'keys': 1}", "{'items': s}"]),
    "TD": ([("{'b': s, 'a': i}", "{'a': i, 'b': s}")], ["{'a': i}", "{'b': s}", "{'a': s, 'b': s}", "{'a': i, 'b': s, 'c': 1}", "[]", "5", "''"]),
    "TDPart": ([("{}", "{}"), ("{'a': i}", "{'a': i}"), ("{'b': s}", "{'b': s}"), ("{'a': i, 'b': s}", "{'a': i, 'b': s}")], ["{'a': s}", "{'b': i}", "{'a': None}", "{'c': 1}"]),
    "NT0": ([("{'a': i}", "NT0(i)")], ["{}", "[i]", "(i,)", "[]", "NT0(i)", "[{'a': i}]", "[('a', i)]", "{'a': s}", "{'a': i, 'b': 1}", "5", "None", "''"]),
    "NT3": ([("{'a': i}", "NT3(i, '', 7)"), ("{'a': i, 'b': s}", "NT3(i, s, 7)"), ("{'c': None, 'a': i}", "NT3(i, '', None)"), ("{'c': j, 'b': s, 'a': i}", "NT3(i, s, j)")], ["{}", "[i]", "[i, s]", "[i, s, j]", "(i, s, j)", "[]", "NT3(i, s, j)", "{'b': s}", "{'a': i, 'c': s}", "{'a': i, 'b': None}"]),
    "NTO": ([("{'b': i, 'a': j}", "NTO(j, i)"), ("{'b': i, 'a': None}", "NTO(None, i)")], ["{}", "{'a': i}", "{'b': i}", "{'a': s, 'b': i}"]),
    "NTA": ([("{'x': i}", "NTA(i, None, [])"), ("{'x': i, 'b': {'a': j}, 'count': [j]}", "NTA(i, NT0(j), [j])")], ["{}", "{'x': i, 'count': 5}", "{'x': i, 'b': {}}", "{'x': i, 'index': 1}"]),
    "NTK": ([("{'d': True}", "NTK(True, Color.RED)"), ("{'d': True, 'k': 'GREEN'}", "NTK(True, Color.GREEN)")], ["{'d': 'x'}", "{'d': True, 'k': 'no'}", "{'k': 'RED'}"]),
}
WRITE = {
    "Mixed": [("{'p': i}", "{'p': i}"), ("{'q': s, 'p': i}", "{'p': i, 'q': s}")],
    "Meth": [("{'items': i, 'get': s}", "{'items': i, 'get': s}"), ("{'get': None, 'items': i}", "{'items': i, 'get': None}")],
    "TDPart": [("{}", "{}"), ("{'b': s}", "{'b': s}"), ("{'b': s, 'a': i}", "{'a': i, 'b': s}")],
    "NT0": [("NT0(i)", "{'a': i}")], "NT3": [("NT3(i, s, j)", "{'a': i, 'b': s, 'c': j}"), ("NT3(i, s, None)", "{'a': i, 'b': s, 'c': None}")],
    "NTO": [("NTO(None, i)", "{'a': None, 'b': i}")], "NTA": [("NTA(i, NT0(j), [j])", "{'x': i, 'b': {'a': j}, 'count': [j]}")],
    "NTK": [("NTK(True, Color.GREEN)", "{'d': True, 'k': 'GREEN'}")],
}
OUTER = [("{h}", "{p}", "{v}"), ("List[{h}]", "[{p}]", "[{v}]"), ("Annotated[{h}, 'x']", "{p}", "{v}"), ("Optional[{h}]", "{p}", "{v}"), ("Dict[str, {h}]", "{{'k': {p}}}", "{{'k': {v}}}")]


def cases():
    for what, (defs, cls, want) in SHAPES.items():
        yield case(f"schema: {what}", COMMON + defs, f"""
want = {want}
for s in (convert_to_schema(TypeHint({cls})), convert_typed_dict_to_schema({cls}), convert_typed_dict_to_schema(TypeHint({cls})), convert_to_schema(TypeHint(Annotated[{cls}, 'm']))):
    check(s, {cls}, dict(want), "{what}")
    claim(list(s.fields) == [n for n, f in want], "{what}: keys in the order", list(s.fields))
claim(s.annotations == ['m'], "{what}: annotations are", s.annotations)
""", strict_setup=True)
    for h in ("int", "Dict[str, int]", "Annotated[TD, 'x']", "List[TD]", "Optional[TD]"):
        yield case(f"not a TypedDict: {h}", COMMON, f"claim(attempt(convert_typed_dict_to_schema, TypeHint({h}))[0] == 'exc', \"a schema is made of {h}\")")
    names = "i, j, s = val('i', int), val('j', int), val('s', str)\n"
    for h, (good, bad) in READ.items():
        for n, (p, v) in enumerate(good):
            for oh, op, ov in OUTER:
                hint = oh.format(h=h)
                yield case(f"reading {hint} #{n}", CONV, names + f"""
r = attempt(M.deserialize, {op.format(p=p)}, {hint})
claim(r[0] == "ok" and eqv(r[1], {ov.format(v=v)}), "{hint}: read as", r[1])
""")
        for n, p in enumerate(bad):
            for oh, op, ov in OUTER[:3]:
                hint = oh.format(h=h)
                yield case(f"rejecting {hint} #{n}", CONV, names + f"""
r = attempt(M.deserialize, {op.format(p=p)}, {hint})
claim(r[0] == "conv", "{hint}: {p} is read as", r[1])
""".replace("{p}", p.replace('"', "'")))
    for h, rows in WRITE.items():
        for n, (v, p) in enumerate(rows):
            for oh, op, ov in OUTER:
                hint = oh.format(h=h)
                yield case(f"writing {hint} #{n}", CONV, names + f"""
r = attempt(M.serialize, {ov.format(v=v)}, {hint})
claim(r[0] == "ok" and eqv(r[1], {op.format(p=p)}), "{hint}: written as", r[1])
""")
    for d in ("DES", "SER"):
        for h in ("TD", "TDPart", "Annotated[TD, 'x']"):
            yield case(f"never a mapping: {h}, {d}", CONV, f"""
ctx = Context(None, {d}, val("v"), TypeHint({h}), Settings(), Context.ROOT, Location.EMPTY, lambda c: log("part", c))
for conv in (jc.MappingConverter(), jc.CollectionConverter()):
    try:
        conv.convert(ctx)
        claim(False, "a TypedDict is converted by", conv)
    except NotImplementedError:
        pass
claim(logged("part") == [], "parts of a TypedDict are converted as those of a mapping:", logged("part"))
""")
