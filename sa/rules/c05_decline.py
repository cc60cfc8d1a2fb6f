"""C05: decline unsupported hints before touching the value; never end in an accidental None."""
from .common import *

RULE = ("for every built-in converter and every type hint outside its types, convert() on an arbitrary value in either "
        "direction ends in NotImplementedError without converting anything; for a hint it supports, it ends in a result "
        "that is not an accidental None, or in an error")

SETUP = TYPES + """
class Plain:
    pass
class Sub(str):
    pass
class IntSub2(int):
    pass
class FloatSub2(float):
    pass
class BytesSub2(bytes):
    pass
class DateSub(date):
    pass
class DatetimeSub(datetime.datetime):
    pass
class TimeSub(time):
    pass
class Iter:
    def __iter__(self):
        return iter([])
class Sized:
    def __len__(self):
        return 0
T2 = TypeVar('T2')
@dataclass
class Gen(Generic[T2]):
    v: T2
@Union(style=Union.FLAT)
class Base:
    pass
@Union.register(Base)
@dataclass
class One(Base):
    v: int
def inner(ctx):
    log("inner", ctx)
    return stub
CONV = {
    "any": jc.AnyConverter(), "collection": jc.CollectionConverter(), "datetime": jc.DatetimeConverter(),
    "decimal": jc.DecimalConverter(), "enum": jc.EnumConverter(), "mapping": jc.MappingConverter(),
    "optional": jc.OptionalConverter(), "plain": jc.PlainDatatypeConverter(), "schema": jc.SchemaConverter(),
    "union": jc.UnionConverter(), "literal": jc.LiteralConverter(),
    "uuid": jc.StringifyConverter(uuid.UUID), "path": jc.StringifyConverter(pathlib.Path),
    "purepath": jc.StringifyConverter(pathlib.PurePath), "duration": jc.StringifyConverter(duration, duration.parse),
}
"""
# hint -> converters that support it
HINTS5 = {
    "Any": "any", "object": "any",
    "int": "plain", "float": "plain", "str": "plain", "bool": "plain", "bytes": "plain",
    "bytearray": "", "memoryview": "", "complex": "", "type(None)": "", "Plain": "", "Sub": "", "IntSub2": "", "FloatSub2": "", "BytesSub2": "", "Iter": "", "Sized": "",
    "type": "", "t.Iterable[int]": "", "t.Iterator[int]": "", "t.Sized": "", "t.Hashable": "", "range": "-",
    "Decimal": "decimal", "MyDec": "decimal",
    "date": "datetime", "time": "datetime", "datetime.datetime": "datetime", "datetime.timedelta": "",
    "DateSub": "", "DatetimeSub": "", "TimeSub": "", "datetime.tzinfo": "",
    "Color": "enum", "Num": "enum", "Tag": "enum",
    "uuid.UUID": "uuid", "MyUUID": "uuid", "pathlib.Path": "path purepath", "pathlib.PurePath": "purepath",
    "pathlib.PosixPath": "path purepath", "pathlib.PurePosixPath": "purepath", "duration": "duration schema",
    "List[int]": "collection", "Set[int]": "collection", "t.FrozenSet[int]": "collection", "list[Pt]": "collection",
    "t.Sequence[int]": "collection", "t.Collection[int]": "collection", "t.Deque[int]": "collection",
    "IntList": "collection", "Tuple[int, str]": "collection", "Tuple[int, ...]": "collection", "Tuple[()]": "collection",
    "NT": "collection", "list": "collection", "set": "collection", "CNT": "collection",
    "Dict[str, int]": "mapping", "Mapping[str, int]": "mapping", "t.MutableMapping[str, int]": "mapping", "StrMap": "mapping",
    "t.OrderedDict[str, int]": "mapping", "dict": "mapping",
    "TD": "schema", "TDPart": "schema", "Pt": "schema", "PtSub": "schema", "A": "schema", "Gen[int]": "schema",
    "Optional[int]": "optional", "Optional[Pt]": "optional", "t.Union[int, str, None]": "optional",
    "t.Union[int, str]": "union", "t.Union[int, List[str]]": "union", "t.Union[Pt, A]": "union",
    "t.Union[int, t.Literal['a']]": "", "t.Union[List[int], List[str]]": "",
    "Nested": "union", "Flat": "union", "Keyed": "union", "Base": "union", "One": "schema",
    "Literal['a', 1]": "literal", "Literal[None, 'b']": "literal",
}
ALL = ("any collection datetime decimal enum mapping optional plain schema union literal uuid path purepath duration").split()
VALUES = {"any value": "val('v')", "None": "None"}
# a value for which a non-None result is possible and conversions inside return a non-None stub
NOT_NONE = {"optional", "any", "literal"}


def cases():
    for h, sup in HINTS5.items():
        if sup == "-":
            continue
        sup = sup.split()
        for ann in ("", "Strict(False)", "Alias('q')"):
            expr = f"Annotated[{h}, {ann}]" if ann else h
            no = [c for c in ALL if c not in sup]
            if h in ("Nested", "Flat", "Keyed", "Base") or "Union[" in h:
                # members without the union setting would be handled by the wrapped hint
                no = [c for c in no if c != "schema"] if h == "Base" else no
            for d in ("SER", "DES"):
                yield case(f"unsupported {expr}, {d}", SETUP, f"""
stub = val("converted", str)
hint = TypeHint({expr})
for name in {no!r}:
    ctx = Context(None, {d}, val("v"), hint, Settings(), Context.ROOT, Location.EMPTY, inner)
    r = attempt(CONV[name].convert, ctx)
    claim(r[0] != "ok", "the", name, "converter does not decline {expr} but returns", r[1])
    claim(r[0] != "conv", "the", name, "converter does not decline {expr} but reports", r[1])
    claim(r[0] == "ok" or isinstance(r[1], NotImplementedError), "the", name, "converter does not decline {expr} but raises", r[1])
    claim(len(logged("inner")) == 0, "the", name, "converter converts something before declining {expr}")
""")
        for c in sup:
            if c in NOT_NONE:
                continue
            for d in ("SER", "DES"):
                yield case(f"{c} converter, {h}, {d}", SETUP, f"""
stub = val("converted", str)
ctx = Context(None, {d}, val("v"), TypeHint({h}), Settings(), Context.ROOT, Location.EMPTY, inner)
r = attempt(CONV[{c!r}].convert, ctx)
claim(not (r[0] == "ok" and r[1] is None), "the {c} converter gives no result for {h}")
claim(not (r[0] == "exc" and isinstance(r[1], NotImplementedError)), "the {c} converter declines {h}")
""", max_paths=200)
    # a structure is supported, whatever its constructor raises
    yield case("constructors that fail", SETUP, """
cls = choice("class", ValueError, TypeError, KeyError, AssertionError, AttributeError, LookupError, RuntimeError, NotImplementedError)
err = cls("no")
@dataclass
class Bad:
    v: int = 0
    def __post_init__(self):
        raise err
def makes(**kw):
    raise err
from databind.core.schema import Schema, Field
schema = Schema({'v': Field(TypeHint(int))}, makes, Bad)
how = choice("how", "dataclass", "schema")
hint, conv = (TypeHint(Bad), jc.SchemaConverter()) if how == "dataclass" else (TypeHint(Bad), jc.SchemaConverter(convert_to_schema=lambda h: schema))
payload = {'v': 1}
ctx = Context(None, DES, payload, hint, Settings(), Context.ROOT, Location.EMPTY, M.module.convert)
r = attempt(conv.convert, ctx)
claim(r[0] != "ok" and (r[1] is err or r[0] == "conv"), "a constructor's", err, "turns into", r[1])
if cls is not NotImplementedError:
    r = attempt(M.deserialize, payload, Bad)
    claim(r[0] != "ok" and (r[1] is err or r[0] == "conv" and not isinstance(r[1], NoMatchingConverter)), "the structure is declined for its constructor's", err, ":", r[1])
""")
    # a value of every kind, through the whole module: nobody claims a hint nothing supports
    for h in ("bytearray", "complex", "type(None)", "Plain", "Sub", "IntSub2", "FloatSub2", "BytesSub2", "DateSub", "DatetimeSub", "TimeSub", "Iter", "datetime.timedelta", "t.Iterable[int]"):
        for d in ("SER", "DES"):
            yield case(f"nobody supports {h}, {d}", SETUP, f"""
r = attempt(M.convert, {d}, val("v"), {h})
claim(r[0] == "conv" and isinstance(r[1], NoMatchingConverter), "converting as unsupported {h} does not end in NoMatchingConverter but", r[0], r[1])
claim(r[0] != "conv" or len(r[1].errors) == 0, "a converter reports an error for {h} that it does not support")
""")
