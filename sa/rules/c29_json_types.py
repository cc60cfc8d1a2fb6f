"""C29: what serialization emits consists of JSON types only."""
from .common import *

RULE = ("for every declared type, value of it, container around it and setting, on every path everything reachable from the result "
        "of serialize() is an exact str, int, float, bool or None, a list, or a dict with such keys; results of converters "
        "defined outside the library and of Any/object are exempt")

SETUP = TYPES + """
SD = SerializeDefaults(True)
@dataclass
class Deep:
    i: int
    s: Set[str]
    t_: Tuple[bytes, ...]
    d: Dict[Color, Decimal]
    o: Optional[Pt] = None
    dt: Annotated[date, Alias('when')] = date.min if False else None
    r: Annotated[Dict[str, Num], Remainder()] = field(default_factory=dict)
@dataclass
class Flattened:
    n: int
    p: Annotated[Pt, Flattened_()] = None
@dataclass
class Gen(Generic[T1]):
    v: T1
def lazy(*xs):
    for x in xs:
        yield x
def check(r, what="the value"):
    claim(r[0] in ("ok", "conv"), "serializing", what, "fails with", r[1])
    if r[0] == "ok":
        claim(json_only(r[1]), "serializing", what, "emits", r[1])
"""
SETUP = SETUP.replace(" = date.min if False else None", " = None").replace("Flattened_()", "Flattened()").replace(
    "class Flattened:\n", "class Flat2:\n")

LEAF = {
    "int": "val('v', int)", "float": "val('v', float)", "str": "val('v', str)", "bool": "val('v', bool)", "bytes": "val('v', bytes)",
    "Decimal": "val('v', Decimal)", "MyDec": "val('v', MyDec)", "date": "val('v', date)", "datetime.datetime": "val('v', datetime.datetime)",
    "time": "val('v', time)", "Color": "Color.RED", "Num": "Num.ONE", "Tag": "Tag.CAT", "uuid.UUID": "val('v', uuid.UUID)",
    "MyUUID": "val('v', MyUUID)", "pathlib.Path": "val('v', pathlib.PosixPath)", "pathlib.PurePath": "val('v', pathlib.PurePosixPath)",
    "duration": "val('v', duration)", "Pt": "Pt(val('x', int), val('y', str))", "NT": "NT(val('a', int), val('b', str))",
    "TD": "{'a': val('a', int), 'b': val('b', str)}", "Nested": "A(val('a', int))", "Flat": "A(val('a', int))", "Keyed": "B(val('b', str))",
    "Optional[Color]": "choice('o', None, Color.RED)", "t.Union[int, Color]": "choice('o', Color.RED, 5)", "Literal['a', 1, None, True]": "choice('l', 'a', 1, None, True)",
    "List[Num]": "[Num.ONE]", "Tuple[Color, Num]": "(Color.RED, Num.TWO)", "Set[int]": "{1, 2}", "Dict[Num, Set[Color]]": "{Num.ONE: {Color.RED}}",
    "Gen[Num]": "Gen(Num.ONE)",
}
AROUND = {
    "List[{}]": ["[{}]", "[]"], "list[{}]": ["[{}]"], "t.Sequence[{}]": ["[{}]", "({},)", "()"], "t.Collection[{}]": ["[{}]", "({},)"],
    "Tuple[{}, ...]": ["({},)", "()"], "Tuple[{}, int]": ["({}, 1)"], "Dict[str, {}]": ["{{'k': {}}}", "{{}}"],
    "Mapping[str, {}]": ["{{'k': {}}}", "FrozenMap({{'k': {}}})"], "Optional[{}]": ["{}", "None"], "t.Union[{}, None]": ["{}"],
    "Annotated[{}, 'x']": ["{}"], "t.OrderedDict[str, {}]": ["{{'k': {}}}", "collections.OrderedDict({{'k': {}}})"], "t.MutableMapping[str, {}]": ["{{'k': {}}}"],
    "Gen[{}]": ["Gen({})"], "Dict[str, List[{}]]": ["{{'k': [{}]}}"], "List[Tuple[{}, ...]]": ["[({},)]"], "t.MutableSequence[{}]": ["[{}]"],
    "Optional[List[Optional[{}]]]": ["[{}, None]"], "StrMapOf[{}]": ["{{'k': {}}}"],
}
HASHABLE = ["int", "str", "bytes", "Decimal", "date", "Color", "Num", "Tag", "uuid.UUID", "pathlib.Path", "float", "bool",
            "Tuple[Color, Num]", "datetime.datetime", "NT", "MyUUID", "Optional[Color]", "Literal['a', 1, None, True]"]


def cases():
    for h, (expr, _, _) in HINTS.items():
        for k in KINDS:
            yield case(f"a {k} value as {h} ({expr})", SETUP, f"check(attempt(M.serialize, {KINDS[k]}, {expr}))", max_paths=40)
    for leaf, v in LEAF.items():
        yield case(f"{leaf}", SETUP, f"check(attempt(M.serialize, {v}, {leaf}))")
        for hint, values in AROUND.items():
            if hint.startswith("StrMapOf"):
                continue
            for value in values:
                if "FrozenMap" in value:
                    continue
                yield case(f"{hint.format(leaf)} of {value.format(v)}", SETUP, f"""
v = {v}
check(attempt(M.serialize, {value.format('v')}, {hint.format(leaf)}))
""")
        yield case(f"a field of type {leaf}", SETUP, f"""
v = {v}
@dataclass
class D:
    f: {leaf}
    g: {leaf} = field(default_factory=lambda: v)
    h: Annotated[Dict[str, {leaf}], Remainder()] = field(default_factory=dict)
class T(TypedDict):
    f: {leaf}
class N(NamedTuple):
    f: {leaf}
    g: {leaf} = v
sd = choice("defaults", None, [SD])
check(attempt(M.serialize, D(v, v, {{'k': v}}), D, None, sd), "a dataclass")
check(attempt(M.serialize, {{'f': v}}, T, None, sd), "a typed dict")
check(attempt(M.serialize, N(v, v), N, None, sd), "a named tuple")
""")
    for key in HASHABLE:
        v = LEAF[key]
        yield case(f"keys and elements of type {key}", SETUP, f"""
v = {v}
check(attempt(M.serialize, {{v: v}}, Dict[{key}, {key}]), "a dictionary")
check(attempt(M.serialize, {{v}}, Set[{key}]), "a set")
check(attempt(M.serialize, frozenset([v]), t.FrozenSet[{key}]), "a frozenset")
check(attempt(M.serialize, {{v: [v]}}, Mapping[{key}, List[{key}]]), "a mapping")
""")
    yield case("a deep structure", SETUP, """
v = Deep(val('i', int), {val('s', str)}, (val('b', bytes),), {Color.RED: val('d', Decimal)}, Pt(1), val('when', date), {'r': Num.ONE})
for h in (Deep, List[Deep], Annotated[Deep, 'x'], Optional[Deep]):
    check(attempt(M.serialize, [v] if h == List[Deep] else v, h), h)
check(attempt(M.serialize, Flat2(1, Pt(2, 'y')), Flat2))
""")
    for cont, value in (("deque", "collections.deque([Num.ONE])"), ("list subclass", "IntList([1])"), ("dict subclass", "StrMap({'a': 1})"),
                        ("range", "range(3)"), ("generator", "lazy(1, 2)"), ("map object", "map(int, ['1'])"), ("dict views", "{'a': 1}.keys()"),
                        ("dict items", "{'a': 1}.items()"), ("mapping proxy", "{'a': 1}.values()"), ("named tuple", "NT(1, 'x')"), ("counter", "collections.OrderedDict(a=1)")):
        yield case(f"containers given as {cont}", SETUP, f"""
for h in (List[int], t.Sequence[int], t.Collection[int], Set[int], t.Deque[int], Tuple[int, ...], Dict[str, int], Mapping[str, int], IntList, StrMap, t.Iterable[int]):
    check(attempt(M.serialize, {value}, h), h)
""")
    # enums whose values are not the plain thing, aliases of unusual classes
    yield case("enumerations", SETUP, """
class S(str):
    pass
class E(enum.Enum):
    A = S('x')
    B: Annotated[int, Alias(S('bb'))] = 2
class I(enum.IntEnum):
    ONE = 1
class St(str, enum.Enum):
    X = 'x'
class Fl(enum.Flag):
    P = 1
    Q = 2
for e in (E.A, I.ONE, St.X, Fl.P):
    check(attempt(M.serialize, e, type(e)), e)
    check(attempt(M.serialize, [e], List[type(e)]), e)
    check(attempt(M.serialize, {e: e}, Dict[type(e), type(e)]), e)
""")
    # unions: the discriminator and what is added around a member
    for style in ("", ", Union.NESTED", ", Union.FLAT", ", Union.KEYED", ", Union.BEST_MATCH"):
        yield case(f"unions{style}", SETUP, f"""
@dataclass
class P:
    n: Num
    s: Set[Color] = field(default_factory=set)
U = Annotated[t.Union[P, B], Union({{'p': P, 'b': B}}{style})]
v = choice("member", P(Num.ONE, {{Color.RED}}), B(val('b', str)))
check(attempt(M.serialize, v, U))
check(attempt(M.serialize, [v], List[U]))
check(attempt(M.serialize, {{'k': v}}, Dict[str, U]))
""")
    for st in ("Strict(False)", "Precision(3)", "SD", "Remainder()", "Alias('a')", "DateFormat('%A')"):
        for v, h in (("val('i', int)", "float"), ("val('f', float)", "int"), ("val('d', Decimal)", "Decimal"), ("val('s', str)", "str"),
                     ("1", "str"), ("'1'", "int"), ("Num.ONE", "Num"), ("Num.ONE", "int"), ("Num.ONE", "float"), ("True", "int"), ("True", "float"),
                     ("Color.RED", "Color"), ("val('t', date)", "date"), ("val('t', StrSub)", "str"), ("val('t', IntSub)", "int"),
                     ("val('t', FloatSub)", "float"), ("val('t', IntSub)", "float"), ("val('t', FloatSub)", "int"), ("val('t', StrSub)", "int")):
            yield case(f"{v} as {h} with {st}", SETUP, f"""
check(attempt(M.serialize, {v}, {h}, None, [{st}]))
check(attempt(M.serialize, [{v}], List[{h}], None, [{st}]))
""")
