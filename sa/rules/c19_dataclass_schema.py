"""C19: a dataclass schema mirrors the constructor's fields."""
from .common import *

RULE = ("for every shape of dataclass hierarchy, convert_to_schema yields exactly the constructor's fields, each with the declared "
        "type (forward references and type parameters resolved), default, default factory, requiredness and flatness of its most "
        "derived definition; get_fields_expanded lists exactly the fields reachable through flattened ones")

COMMON = TYPES + """
class Odd:
    'a default whose comparison and truth value cannot be used'
    def __eq__(self, o): raise RuntimeError("compared")
    def __ne__(self, o): raise RuntimeError("compared")
    def __hash__(self): raise RuntimeError("hashed")
    def __bool__(self): raise RuntimeError("truth value used")
    def __len__(self): raise RuntimeError("len used")
ODD = Odd()
T, U, V, W = TypeVar('T'), TypeVar('U'), TypeVar('V'), TypeVar('W')
NS = NotSet.Value
def mk(): return [1]
def F(hint, required=True, default=NS, factory=NS, flat=False):
    return (hint, required, default, factory, flat)
def bare(h):
    return h
def check(schema, cls, want, what):
    claim(schema.type is cls, what, ": the schema's type is", schema.type)
    claim(schema.constructor is cls, what, ": the schema's constructor is", schema.constructor)
    claim(set(schema.fields) == set(want), what, ": the schema has the fields", sorted(schema.fields))
    for n, (hint, required, default, factory, flat) in want.items():
        f = schema.fields.get(n)
        if f is None:
            continue
        claim(isinstance(f, Field), what, ":", n, "is described by", f)
        claim(f.datatype.hint == hint, what, ": the type of", n, "is", f.datatype)
        claim(f.required is required, what, ": required of", n, "is", f.required)
        claim(f.default is default, what, ": the default of", n, "is", f.default)
        claim(f.default_factory is factory, what, ": the default factory of", n, "is", f.default_factory)
        claim(f.flattened is flat, what, ": flattened of", n, "is", f.flattened)
        claim(f.has_default() is (default is not NS or factory is not NS), what, ": has_default() of", n, "is", f.has_default())
        if factory is not NS:
            claim(f.get_default() == factory() and f.get_default() is not f.get_default(), what, ": get_default() of", n, "is", f.get_default())
        elif default is not NS:
            claim(f.get_default() is default, what, ": get_default() of", n, "is", f.get_default())
        else:
            claim(attempt(f.get_default)[0] == "exc", what, ": get_default() of", n, "works without a default")
"""

# name -> (definitions, hint, class, {field: F(...)} text)
SHAPES = {
    "plain fields": ("@dataclass\nclass C:\n    a: int\n    b: str\n", "C", "C", "{'a': F(int), 'b': F(str)}"),
    "no fields": ("@dataclass\nclass C:\n    pass\n", "C", "C", "{}"),
    "defaults": ("@dataclass\nclass C:\n    a: int = 0\n    b: str = field(default='')\n    c: List[int] = field(default_factory=mk)\n    d: bool = False\n    e: Any = None\n", "C", "C",
                 "{'a': F(int, False, 0), 'b': F(str, False, ''), 'c': F(List[int], False, NS, mk), 'd': F(bool, False, False), 'e': F(Any, False, None)}"),
    "names of any form": ("@dataclass\nclass C:\n    _a: int\n    a_: int\n    A: int\n    self: int\n    type: int\n    name: int\n    fields: int\n    Key: str\n    __x__: int\n    ünï: int\n    items: int\n", "C", "C",
                          "{n: F(str if n == 'Key' else int) for n in ('_a', 'a_', 'A', 'self', 'type', 'name', 'fields', 'Key', '__x__', 'ünï', 'items')}"),
    "odd defaults": ("@dataclass\nclass C:\n    a: Any = ODD\n", "C", "C", "{'a': F(Any, False, ODD)}"),
    "optionals": ("@dataclass\nclass C:\n    a: Optional[int]\n    b: t.Union[int, str, None]\n    c: Annotated[Optional[int], 'x']\n    d: Optional[int] = 5\n    e: t.Union[int, str] = 3\n    g: Optional[List[int]] = field(default_factory=mk)\n", "C", "C",
                  "{'a': F(Optional[int], False, None), 'b': F(t.Union[int, str, None], False, None), 'c': F(Annotated[Optional[int], 'x'], False, None), 'd': F(Optional[int], False, 5), 'e': F(t.Union[int, str], False, 3), 'g': F(Optional[List[int]], False, NS, mk)}"),
    "required": ("@dataclass\nclass C:\n    a: Annotated[int, Required()]\n    b: Annotated[int, Required(False)]\n    c: Annotated[Optional[int], Required()]\n    d: Annotated[int, Required()] = 4\n    e: Annotated[int, Required(False)] = 5\n    g: Annotated[List[int], Required()] = field(default_factory=mk)\n    h: Annotated[Optional[int], Required(False)] = 6\n", "C", "C",
                 "{'a': F(C.__annotations__['a']), 'b': F(C.__annotations__['b'], False, None), 'c': F(C.__annotations__['c']), 'd': F(C.__annotations__['d'], True, 4), 'e': F(C.__annotations__['e'], False, 5), 'g': F(C.__annotations__['g'], True, NS, mk), 'h': F(C.__annotations__['h'], False, 6)}"),
    "flattened": ("@dataclass\nclass C:\n    a: Annotated[A, Flattened()]\n    b: Annotated[A, Flattened(False)]\n    c: Annotated[List[Annotated[A, Flattened()]], 'x']\n    d: Annotated[A, 'x', Flattened(), 'y']\n    e: Annotated[A, Flattened()] = None\n", "C", "C",
                  "{'a': F(C.__annotations__['a'], flat=True), 'b': F(C.__annotations__['b']), 'c': F(C.__annotations__['c']), 'd': F(C.__annotations__['d'], flat=True), 'e': F(C.__annotations__['e'], False, None, flat=True)}"),
    "settings inside the type": ("@dataclass\nclass C:\n    a: List[Annotated[int, Required(False)]]\n    b: Dict[str, Annotated[A, Flattened()]]\n    c: List[Optional[int]]\n", "C", "C",
                                 "{'a': F(C.__annotations__['a']), 'b': F(C.__annotations__['b']), 'c': F(List[Optional[int]])}"),
    "fields outside the constructor": ("@dataclass\nclass C:\n    a: int\n    b: int = field(init=False)\n    c: int = field(init=False, default=3)\n    d: t.ClassVar[int] = 4\n    e: dataclasses.InitVar[int] = 5\n    g: int = 6\n", "C", "C",
                                       "{'a': F(int), 'g': F(int, False, 6)}"),
    "excluded by a subclass": ("@dataclass\nclass P:\n    a: int\n    b: int = 1\n@dataclass\nclass C(P):\n    a: int = field(init=False, default=2)\n", "C", "C", "{'b': F(int, False, 1)}"),
    "included by a subclass": ("@dataclass\nclass P:\n    a: int = field(init=False, default=2)\n@dataclass\nclass C(P):\n    a: str = 'x'\n", "C", "C", "{'a': F(str, False, 'x')}"),
    "turned into a class variable": ("@dataclass\nclass P:\n    a: int = 1\n    b: int = 2\n@dataclass\nclass C(P):\n    c: int = 3\n", "C", "C", "{'a': F(int, False, 1), 'b': F(int, False, 2), 'c': F(int, False, 3)}"),
    "keyword-only": ("@dataclass(kw_only=True)\nclass C:\n    a: int = 1\n    b: str\n", "C", "C", "{'a': F(int, False, 1), 'b': F(str)}"),
    "frozen and slotted": ("@dataclass(frozen=True, slots=True)\nclass C:\n    a: int = 1\n    b: str = 'x'\n", "C", "C", "{'a': F(int, False, 1), 'b': F(str, False, 'x')}"),
    "inheritance": ("@dataclass\nclass P:\n    a: int\n@dataclass\nclass C(P):\n    b: str = 'x'\n", "C", "C", "{'a': F(int), 'b': F(str, False, 'x')}"),
    "overrides": ("@dataclass\nclass P:\n    a: int\n    b: int = 1\n    c: int = 2\n@dataclass\nclass C(P):\n    a: str = 'x'\n    b: Optional[str] = None\n", "C", "C",
                  "{'a': F(str, False, 'x'), 'b': F(Optional[str], False, None), 'c': F(int, False, 2)}"),
    "overridden default without annotation": ("@dataclass\nclass P:\n    a: int = 1\n@dataclass\nclass C(P):\n    a = 2\n    b: int = 0\n", "C", "C", "{'a': F(int, False, 1), 'b': F(int, False, 0)}"),
    "undecorated subclass": ("@dataclass\nclass P:\n    a: int\nclass C(P):\n    z: str\n", "C", "C", "{'a': F(int)}"),
    "undecorated class between": ("@dataclass\nclass P:\n    a: int\n    b: int = 1\nclass Q(P):\n    z: str\n@dataclass\nclass C(Q):\n    b: str = 'x'\n", "C", "C", "{'a': F(int), 'b': F(str, False, 'x')}"),
    "undecorated class redefining a field": ("@dataclass\nclass P:\n    a: int\nclass Q(P):\n    a: str\n@dataclass\nclass C(Q):\n    b: str = 'x'\n", "C", "C", "{'a': F(int), 'b': F(str, False, 'x')}"),
    "undecorated mixin": ("class Mx:\n    z: int = 5\n@dataclass\nclass P:\n    a: int\n@dataclass\nclass C(Mx, P):\n    b: str = 'x'\n", "C", "C", "{'a': F(int), 'b': F(str, False, 'x')}"),
    "grandparents": ("@dataclass\nclass G:\n    a: int\n    b: int = 0\n@dataclass\nclass P(G):\n    b: str = 'x'\n    c: int = 0\n@dataclass\nclass C(P):\n    c: Optional[str] = None\n", "C", "C",
                     "{'a': F(int), 'b': F(str, False, 'x'), 'c': F(Optional[str], False, None)}"),
    "all overridden": ("@dataclass\nclass P:\n    a: int\n@dataclass\nclass C(P):\n    a: str\n", "C", "C", "{'a': F(str)}"),
    "two bases": ("@dataclass\nclass P:\n    a: int = 0\n    b: int = 1\n@dataclass\nclass Q:\n    b: str = 'q'\n    c: str = 'c'\n@dataclass\nclass C(P, Q):\n    pass\n", "C", "C",
                  "{'a': F(int, False, 0), 'b': F(int, False, 1), 'c': F(str, False, 'c')}"),
    "diamond": ("@dataclass\nclass G:\n    a: int = 0\n    b: int = 0\n@dataclass\nclass P(G):\n    p: int = 0\n@dataclass\nclass Q(G):\n    a: str = 'q'\n@dataclass\nclass C(P, Q):\n    pass\n", "C", "C",
                "{'a': F(str, False, 'q'), 'b': F(int, False, 0), 'p': F(int, False, 0)}"),
    "diamond with a deep override": ("@dataclass\nclass G:\n    a: int = 0\n@dataclass\nclass P(G):\n    p: int = 0\n@dataclass\nclass P2(P):\n    p2: int = 0\n@dataclass\nclass Q(G):\n    a: str = 'q'\n@dataclass\nclass C(P2, Q):\n    pass\n", "C", "C",
                                     "{'a': F(str, False, 'q'), 'p': F(int, False, 0), 'p2': F(int, False, 0)}"),
    "forward references": ("@dataclass\nclass C:\n    a: 'int'\n    b: 'List[C]'\n    c: 'Optional[Later]' = None\n    d: List['Later'] = field(default_factory=mk)\n    e: Annotated['Later', Flattened()] = None\nclass Later:\n    pass\n", "C", "C",
                           "{'a': F(int), 'b': F(List[C]), 'c': F(Optional[Later], False, None), 'd': F(List[Later], False, NS, mk), 'e': F(Annotated[Later, C.__dataclass_fields__['e'].type.__metadata__[0]], False, None, flat=True)}"),
    "quoted settings": ("@dataclass\nclass C:\n    a: 'Annotated[int, Required(False)]'\n    b: 'Optional[int]'\n", "C", "C", None),
    "a parameter": ("@dataclass\nclass C(Generic[T]):\n    a: T\n    b: List[T]\n    c: Dict[str, Optional[T]] = field(default_factory=mk)\n    d: int = 0\n", "C[int]", "C",
                    "{'a': F(int), 'b': F(List[int]), 'c': F(Dict[str, Optional[int]], False, NS, mk), 'd': F(int, False, 0)}"),
    "an unbound parameter": ("@dataclass\nclass C(Generic[T]):\n    a: T\n    b: List[T]\n", "C", "C", "{'a': F(T), 'b': F(List[T])}"),
    "two parameters": ("@dataclass\nclass C(Generic[T, U]):\n    a: T\n    b: U\n    c: Dict[U, T]\n", "C[int, str]", "C", "{'a': F(int), 'b': F(str), 'c': F(Dict[str, int])}"),
    "an optional parameter": ("@dataclass\nclass C(Generic[T]):\n    a: T\n", "C[Optional[int]]", "C", "{'a': F(Optional[int], False, None)}"),
    "an annotated parameter": ("@dataclass\nclass C(Generic[T]):\n    a: Annotated[T, 'x']\n    b: Annotated[List[T], 'y']\n", "C[int]", "C", "{'a': F(Annotated[int, 'x']), 'b': F(Annotated[List[int], 'y'])}"),
    "an inherited parameter": ("@dataclass\nclass P(Generic[T]):\n    a: T\n@dataclass\nclass C(P[int]):\n    b: str\n", "C", "C", "{'a': F(int), 'b': F(str)}"),
    "a passed-on parameter": ("@dataclass\nclass P(Generic[T]):\n    a: T\n@dataclass\nclass C(P[U], Generic[U]):\n    b: U\n", "C[int]", "C", "{'a': F(int), 'b': F(int)}"),
    "a nested passed-on parameter": ("@dataclass\nclass P(Generic[T]):\n    a: T\n@dataclass\nclass C(P[List[U]], Generic[U]):\n    b: U\n", "C[int]", "C", "{'a': F(List[int]), 'b': F(int)}"),
    "swapped parameters": ("@dataclass\nclass P(Generic[T, U]):\n    a: T\n    b: U\n@dataclass\nclass C(P[U, T], Generic[T, U]):\n    c: T\n", "C[int, str]", "C", "{'a': F(str), 'b': F(int), 'c': F(int)}"),
    "reused parameters": ("@dataclass\nclass P(Generic[T]):\n    a: T\n@dataclass\nclass Q(Generic[T]):\n    b: T\n@dataclass\nclass C(P[int], Q[str]):\n    pass\n", "C", "C", "{'a': F(int), 'b': F(str)}"),
    "three generic levels": ("@dataclass\nclass G(Generic[T]):\n    a: T\n@dataclass\nclass P(G[List[T]], Generic[T]):\n    b: T\n@dataclass\nclass C(P[Dict[str, U]], Generic[U]):\n    c: U\n", "C[int]", "C",
                             "{'a': F(List[Dict[str, int]]), 'b': F(Dict[str, int]), 'c': F(int)}"),
    "an overridden generic field": ("@dataclass\nclass P(Generic[T]):\n    a: T\n    b: T\n@dataclass\nclass C(P[int]):\n    a: str\n", "C", "C", "{'a': F(str), 'b': F(int)}"),
    "a generic hint of itself": ("@dataclass\nclass C(Generic[T]):\n    a: T\n    n: 'Optional[C[T]]' = None\n", "C[int]", "C", "{'a': F(int), 'n': F(Optional[C[int]], False, None)}"),
    "annotated hint": ("@dataclass\nclass C:\n    a: int\n", "Annotated[C, 'm1', 'm2']", "C", "{'a': F(int)}"),
}
SHAPES["options of fields"] = ("@dataclass\nclass C:\n    a: int = field(repr=False)\n    b: int = field(compare=False)\n    c: int = field(hash=False)\n    d: int = field(metadata={'skip': True, 'required': False, 'alias': 'x', 'name': 'y'})\n    e: int = field(repr=False, compare=False, default=1)\n    f: int = field(metadata={'skip': True}, default=2)\n", "C", "C",
                             "{'a': F(int), 'b': F(int), 'c': F(int), 'd': F(int), 'e': F(int, False, 1), 'f': F(int, False, 2)}")
SHAPES["keyword-only fields"] = ("@dataclass\nclass P:\n    p: int = field(kw_only=True)\n    q: int = field(default=3, kw_only=True)\n@dataclass(kw_only=True)\nclass C(P):\n    a: int = 1\n    b: int\n    c: str = field(default='x', kw_only=False)\n", "C", "C",
                                "{'p': F(int), 'q': F(int, False, 3), 'a': F(int, False, 1), 'b': F(int), 'c': F(str, False, 'x')}")
SHAPES["unusual names"] = ("@dataclass\nclass C:\n    _a: int\n    b_: int\n    A: int\n    _: int\n    fields: int\n    type: int = 1\n    annotations: int = 2\n    constructor: int = 3\n    datatype: int = 4\n", "C", "C",
                           "{'_a': F(int), 'b_': F(int), 'A': F(int), '_': F(int), 'fields': F(int), 'type': F(int, False, 1), 'annotations': F(int, False, 2), 'constructor': F(int, False, 3), 'datatype': F(int, False, 4)}")
SHAPES["quoted settings"] = ("SFN = Required(False)\n@dataclass\nclass C:\n    a: 'Annotated[int, SFN]'\n    b: 'Optional[int]'\n", "C", "C",
                             "{'a': F(Annotated[int, SFN], False, None), 'b': F(Optional[int], False, None)}")
del SHAPES["turned into a class variable"]

# hierarchies spread over modules that use the same names for different things
MODS = [
    ("names of the defining module", [("scn_a", "Item = int\nclass Other:\n    pass\n@dataclass\nclass P:\n    a: 'Item'\n    b: 'List[Item]'\n    o: 'Other'\n")],
     "import scn_a\nItem = str\n@dataclass\nclass C(scn_a.P):\n    c: 'Item'\n", "C", "{'a': F(int), 'b': F(List[int]), 'o': F(scn_a.Other), 'c': F(str)}"),
    ("overrides across modules", [("scn_a", "Item = int\n@dataclass\nclass P:\n    a: 'Item'\n    b: 'Item'\n")],
     "import scn_a\nItem = str\n@dataclass\nclass C(scn_a.P):\n    a: 'Item'\n", "C", "{'a': F(str), 'b': F(int)}"),
    ("grandparents in other modules", [("scn_a", "Item = int\n@dataclass\nclass G:\n    a: 'Item'\n    b: 'Item'\n"), ("scn_b", "import scn_a\nItem = float\n@dataclass\nclass P(scn_a.G):\n    b: 'Item'\n    c: 'Item'\n")],
     "import scn_b\nItem = str\n@dataclass\nclass C(scn_b.P):\n    c: 'Item'\n", "C", "{'a': F(int), 'b': F(float), 'c': F(str)}"),
    ("an undecorated subclass elsewhere", [("scn_a", "Item = int\n@dataclass\nclass P:\n    a: 'Item'\n")],
     "import scn_a\nItem = str\nclass C(scn_a.P):\n    pass\n", "C", "{'a': F(int)}"),
    ("generic base elsewhere", [("scn_a", "Item = int\nT1 = TypeVar('T1')\n@dataclass\nclass P(Generic[T1]):\n    a: 'Item'\n    b: 'List[T1]'\n")],
     "import scn_a\nItem = str\n@dataclass\nclass C(scn_a.P['Item']):\n    c: 'Item'\n", "C", "{'a': F(int), 'b': F(List[str]), 'c': F(str)}"),
    ("diamond across modules", [("scn_a", "Item = int\n@dataclass\nclass G:\n    a: 'Item' = 0\n"), ("scn_b", "import scn_a\nItem = float\n@dataclass\nclass P(scn_a.G):\n    p: 'Item' = 0.0\n"), ("scn_c", "import scn_a\nItem = bytes\n@dataclass\nclass Q(scn_a.G):\n    a: 'Item' = b''\n")],
     "import scn_b, scn_c\nItem = str\n@dataclass\nclass C(scn_b.P, scn_c.Q):\n    pass\n", "C", "{'a': F(bytes, False, b''), 'p': F(float, False, 0.0)}"),
]

EXPAND = """
@dataclass
class L3:
    e: int
    e2: int = 0
@dataclass
class L2:
    c: str
    d: Annotated[L3, Flattened()]
@dataclass
class L1:
    a: int
    b: Annotated[L2, Flattened()]
    n: L3
@dataclass
class Two:
    x: Annotated[L3, Flattened()]
    y: Annotated[A, Flattened()]
@dataclass
class Own:
    e: Annotated[L3, Flattened()]
@dataclass
class Clash:
    e2: int
    b: Annotated[L3, Flattened()]
class TDF(TypedDict):
    k: int
    f: Annotated[L3, Flattened()]
@dataclass
class WithTD:
    g: Annotated[TDF, Flattened()]
@dataclass
class Plain:
    a: int
@dataclass
class Gen(Generic[T]):
    g: T
    h: Annotated[L3, Flattened()]
@dataclass
class UseGen:
    u: Annotated[Gen[int], Flattened()]
"""
EXPANDED = [("L1", "{'b': ['c', 'e', 'e2']}"), ("L2", "{'d': ['e', 'e2']}"), ("L3", "{}"), ("Plain", "{}"), ("Two", "{'x': ['e', 'e2'], 'y': ['a']}"), ("Own", "{'e': ['e', 'e2']}"),
            ("TDF", "{'f': ['e', 'e2']}"), ("WithTD", "{'g': ['k', 'e', 'e2']}"), ("UseGen", "{'u': ['g', 'e', 'e2']}")]


def cases():
    for what, (defs, hint, cls, want) in SHAPES.items():
        yield case(f"schema: {what}", COMMON + defs, f"""
s = convert_to_schema(TypeHint({hint}))
check(s, {cls}, {want}, "{what}")
claim(s.annotations == {"['m1', 'm2']" if what == 'annotated hint' else "[]"}, "{what}: annotations of the schema are", s.annotations)
s2 = convert_dataclass_to_schema({hint if what != 'annotated hint' else cls})
check(s2, {cls}, {want}, "{what} (by class)")
""", strict_setup=True)
        if what != "annotated hint":
            yield case(f"repeated and annotated: {what}", COMMON + defs, f"""
check(convert_to_schema(TypeHint(Annotated[{hint}, 'm'])), {cls}, {want}, "{what}, annotated")
check(convert_to_schema(TypeHint({hint})), {cls}, {want}, "{what}, again")
check(convert_dataclass_to_schema(TypeHint({hint})), {cls}, {want}, "{what}, by hint")
""", strict_setup=True)
    for what, mods, defs, cls, want in MODS:
        yield case(f"schema: {what}", COMMON + defs, f"check(convert_to_schema(TypeHint({cls})), {cls}, {want}, \"{what}\")", modules=mods, strict_setup=True)
    for h in ("int", "List[A]", "A | B", "Optional[A]", "Annotated[int, 'x']", "Annotated[Optional[A], 'x']", "T1", "Any", "Dict[str, int]", "NT", "Color", "Literal['a']", "Opaque"):
        yield case(f"no schema: {h}", COMMON, f"""
r = attempt(convert_to_schema, TypeHint({h}))
claim(r[0] == "exc" and isinstance(r[1], ValueError), "convert_to_schema({h}) gives", r[1])
""")
    for cls, want in EXPANDED:
        yield case(f"expanded: {cls}", COMMON + EXPAND, f"""
s = convert_to_schema(TypeHint({cls}))
seen = []
def conv(hint):
    seen.append(hint)
    return convert_to_schema(hint)
for r in (get_fields_expanded(s), get_fields_expanded(s, conv)):
    claim(set(r) == set({want}), "{cls}: expanded fields are", r)
    for n, names in {want}.items():
        claim(list(r[n]) == names, "{cls}: the fields below", n, "are", list(r.get(n, ())))
        for k, f in r[n].items():
            claim(isinstance(f, Field) and not f.flattened, "{cls}:", k, "below", n, "is", f)
claim((len(seen) > 0) == (len({want}) > 0), "{cls}: the given schema function is called with", seen)
""")
    yield case("expanded: through the given schema function", COMMON + EXPAND, """
class Tok:
    pass
calls = []
ff = Field(TypeHint(Tok), flattened=True)
inner = Schema({'p': Field(TypeHint(int)), 'q': Field(TypeHint(A), flattened=True)}, Tok, Tok)
deep = Schema({'z': Field(TypeHint(int))}, A, A)
def conv(hint):
    calls.append(hint)
    return inner if hint.hint is Tok else deep
r = get_fields_expanded(Schema({'a': Field(TypeHint(int)), 'f': ff}, Tok, Tok), conv)
claim(set(r) == {'f'} and set(r['f']) == {'p', 'z'}, "expanded fields are", r)
claim(r['f']['p'] is inner.fields['p'] and r['f']['z'] is deep.fields['z'], "the fields listed are not those of the schemas")
claim([c.hint for c in calls] == [Tok, A], "the schema function is called with", calls)
""")
    yield case("expanded: colliding names", COMMON + EXPAND, """
r = attempt(get_fields_expanded, convert_to_schema(TypeHint(Clash)))
claim(r[0] == "exc", "a name used at two levels is accepted:", r[1])
""")
    yield case("aliases of a field", COMMON, """
a = val("a", str)
@dataclass
class C:
    p: Annotated[int, Alias(a, 'b')]
    q: int
    r: Annotated[int, 'x', Alias('z')] = 0
    s: List[Annotated[int, Alias('n')]] = None
f = convert_to_schema(TypeHint(C)).fields
claim(f['p'].aliases == (a, 'b') and f['q'].aliases == () and f['r'].aliases == ('z',) and f['s'].aliases == (), "aliases are", [x.aliases for x in f.values()])
""")
