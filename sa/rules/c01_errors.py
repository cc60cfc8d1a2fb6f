"""C01: payload and value errors surface only as ConversionError."""
from .common import *

RULE = ("for every supported declared type and every kind of payload or value (contents unknown, containers of bounded "
        "size), no path of serialize()/deserialize() lets an exception other than ConversionError escape")

# further supported hints, with the settings that steer the scalar converters
EXTRA = """
class Rec(TypedDict):
    first: Annotated[int, Alias('one', 'uno')]
    rest: Annotated[Dict[str, int], Remainder()]
@dataclass
class Inner:
    i: int
    o: Optional[str] = None
@dataclass
class Outer:
    n: str
    inner: Annotated[Inner, Flattened()]
    rest: Annotated[Dict[str, Any], Remainder()]
@dataclass
class Deep:
    pts: List[Pt]
    by: Dict[str, Optional[Pt]]
    u: t.Union[int, str, List[int]]
    lit: Literal['a', 1, None]
@Union(style=Union.FLAT, discriminator_key='kind')
class Base:
    pass
@Union.register(Base, 'one')
@dataclass
class One(Base):
    v: int
@Union.register(Base)
@dataclass
class Two(Base):
    v: List[str]
@dataclass
class Holder:
    b: Base
ImportU = Annotated[Any, Union('<import>')]
ChainU = Annotated[Any, Union([{'a': A}, '<import>'])]
PlainMembers = Annotated[t.Union[int, str], Union({'int': int, 'str': str}, Union.FLAT)]
Bad = Annotated[t.Union[A, B], Union({'a': A}, 'no-such-style')]
"""
MORE = {
    "rec": "Rec", "outer": "Outer", "deep": "Deep", "base": "Base", "holder": "Holder", "importu": "ImportU",
    "chainu": "ChainU", "plainflat": "PlainMembers", "badstyle": "Bad",
    "nestedkey": "Annotated[t.Union[A, B], Union({'a': A, 'b': B}, nesting_key='body')]",
    "best": "Annotated[t.Union[A, B], Union({'a': A, 'b': B}, Union.BEST_MATCH)]",
    "optional": "Optional[List[int]]", "plainunion": "t.Union[int, Pt, List[str]]", "literal": "Literal['a', 1, None]",
    "any": "Any", "object": "object", "listany": "List[Any]", "dictany": "Dict[Any, Any]",
    "listpt": "List[Pt]", "dictpt": "Dict[Num, List[Pt]]", "setany": "Set[Any]", "setlist": "Set[List[int]]",
    "tuplekeys": "Dict[Tuple[int, int], int]", "listkeys": "Dict[t.FrozenSet[int], int]", "dictkey_dict": "Dict[Any, int]",
    "nonstrict_int": "Annotated[int, Strict(False)]", "nonstrict_float": "Annotated[float, Strict(False)]",
    "nonstrict_str": "Annotated[str, Strict(False)]", "nonstrict_bool": "Annotated[bool, Strict(False)]",
    "nonstrict_dec": "Annotated[Decimal, Strict(False)]", "precise": "Annotated[Decimal, Precision(prec=3)]",
    "nonstrict_precise": "Annotated[Decimal, Precision(prec=3), Strict(False)]",
    "datefmt": "Annotated[date, DateFormat('%d.%m.%Y', '.ISO_8601')]",
    "timefmt": "Annotated[time, DateFormat(date_format.compile('%Y'))]",
    "dtfmt": "Annotated[datetime.datetime, DateFormat('.JAVA_OFFSET_DATETIME')]",
    "extras": "Annotated[Pt, ExtraKeys(True)]", "cnt": "CNT", "mixed": "Tuple[int, List[Pt], Optional[str]]",
    "empty": "Tuple[()]", "emptyenum": "Annotated[Tag, Alias('x')]",
    "as": "Annotated[Any, DeserializeAs(Pt)]",
}
CONTENT = {
    "list of anything": "[val('e0'), val('e1')]",
    "dict with any value under x": "{'x': val('e0'), 'y': val('e1')}",
    "dict with any value under a": "{'a': val('e0')}",
    "dict with any value under a, b": "{'a': val('e0'), 'b': val('e1')}",
    "dict with type": "{'type': val('e0'), 'a': val('e1')}",
    "dict with type a": "{'type': 'a', 'a': val('e1'), 'b': val('e0')}",
    "dict of anything": "val('v', dict, sizes=[1])",
    "string-keyed dict": "{val('k', str): val('e0')}",
}
NAMED = {
    "rec": ["{'one': val('e0'), 'first': val('e1'), 'z': val('e2')}", "{'first': val('e1'), 'rest': val('e2')}"],
    "outer": ["{'n': val('n', str), 'i': val('e0'), 'o': val('e1'), 'extra': val('e2')}",
              "Outer(val('n', str), Inner(val('i', int), val('o', str)), {'k': val('e')})",
              "Outer(val('n', str), Inner(val('i', int), None), val('e'))"],
    "deep": ["{'pts': [val('e0')], 'by': {'k': val('e1')}, 'u': val('e2'), 'lit': val('e3')}",
             "Deep([Pt(val('e0', int), val('e1', str))], {'k': None}, val('e2'), val('e3'))"],
    "base": ["{'kind': val('e0'), 'v': val('e1')}", "One(val('e0'))", "Two(val('e0'))", "{'kind': 'one', 'v': val('e1'), 'w': 1}"],
    "holder": ["{'b': {'kind': val('e0'), 'v': val('e1')}}", "Holder(One(val('e0')))", "Holder(val('e0'))"],
    "nestedkey": ["{'type': val('e0'), 'body': val('e1')}", "{'type': 'a'}"],
    "importu": ["{'type': val('e0', str), val('k', str): val('e1')}", "{'type': '', '': 1}"],
    "chainu": ["{'type': val('e0', str), val('k', str): val('e1')}"],
    "mixed": ["[val('e0'), val('e1'), val('e2')]", "(val('e0'), val('e1'), val('e2'))"],
    "typeddict": ["{'a': val('e0'), 'b': val('e1'), 'c': val('e2')}"],
    "namedtuple": ["{'a': val('e0'), 'b': val('e1')}", "NT(val('e0'), val('e1'))"],
    "dataclass": ["Pt(val('e0'), val('e1'))", "{'x': val('e0', int), 'q': val('e1')}"],
    "dictpt": ["{val('k', int): [val('e0')]}", "{Num.ONE: [Pt(val('x'), val('y', str))]}"],
    "tagenum": ["'kitty'", "'CAT'", "'nothing'"],
    "enum": ["'nothing'", "''"],
    "keyed": ["{val('e0', hashable=True): val('e1')}", "{'a': val('e0'), 'b': 1}", "{'a': val('e0')}"],
    "setlist": ["[[val('e0', int)]]", "{val('e0', hashable=True)}"],
    "tuplekeys": ["{val('k', hashable=True): val('e0', int)}", "{(1, 2): val('e0', int)}"],
    "listkeys": ["{val('k', hashable=True): val('e0', int)}"],
    "dictkey_dict": ["{val('k', hashable=True): val('e0', int)}"],
}
OPEN = {"int", "float", "str", "bool", "bytes", "decimal", "date", "datetime", "time", "enum", "tagenum", "intenum", "uuid",
        "path", "purepath", "duration", "list", "set", "tuple2", "tuplevar", "dict", "mapping", "nested", "flat", "keyed",
        "optional", "literal", "any", "nonstrict_int", "nonstrict_float", "nonstrict_str", "nonstrict_bool",
        "nonstrict_dec", "nonstrict_precise", "precise", "datefmt", "timefmt", "dtfmt"}


def body(v, expr, what):
    return f"""
v = {v}
d = choice("direction", DES, SER)
r = attempt(M.convert, d, v, {expr})
claim(r[0] != "exc", "converting {what} as {expr} lets escape", r[1])
claim(r[0] != "conv" or isinstance(str(r[1].message), str), "the error has no message")
"""


def cases():
    hints = {h: e[0] for h, e in HINTS.items()}
    hints.update(MORE)
    for h, expr in hints.items():
        for k, v in KINDS.items():
            yield case(f"convert a {k} as {h} ({expr})", TYPES + EXTRA, body(v, expr, f"a {k}"), max_paths=150)
        for k, v in CONTENT.items():
            yield case(f"convert a {k} as {h} ({expr})", TYPES + EXTRA, body(v, expr, f"a {k}"), max_paths=150)
        for i, v in enumerate(NAMED.get(h, ())):
            what = v.replace('"', "'")
            yield case(f"convert {what} as {h} ({expr})", TYPES + EXTRA, body(v, expr, what), max_paths=250)
        if h in OPEN:
            yield case(f"deserialize any value as {h} ({expr})", TYPES + EXTRA, f"""
r = attempt(M.deserialize, val("v"), {expr})
claim(r[0] != "exc", "deserializing some value as {expr} lets escape", r[1])
""", max_paths=250)
