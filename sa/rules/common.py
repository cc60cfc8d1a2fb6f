"""Shared scenario texts: declared types, the kinds of payloads and values, and how they combine."""
from ..world import Case, OPAQUE, FROZENMAP, STRSUB, INTSUB, FLOATSUB, LISTSUB, DICTSUB

# names of scenario-level classes that exist outside the repository
CLASSES = {"Opaque": OPAQUE, "FrozenMap": FROZENMAP, "StrSub": STRSUB, "IntSub": INTSUB, "FloatSub": FLOATSUB,
           "ListSub": LISTSUB, "DictSub": DICTSUB}

# classes a user of the library would declare
TYPES = """
M = get_object_mapper()
class Color(enum.Enum):
    RED = 1
    GREEN = 2
class Num(enum.IntEnum):
    ONE = 1
    TWO = 2
class Tag(enum.Enum):
    CAT: Annotated[int, Alias('kitty', 'puss')] = 1
    DOG = 2
@dataclass
class Pt:
    x: int
    y: str = 'dflt'
@dataclass
class PtSub(Pt):
    z: int = 0
class TD(TypedDict):
    a: int
    b: str
class TDPart(TypedDict, total=False):
    a: int
    b: str
class NT(NamedTuple):
    a: int
    b: str = 'dflt'
CNT = collections.namedtuple('CNT', 'a b')
class MyDec(Decimal):
    pass
class MyUUID(uuid.UUID):
    pass
T1 = TypeVar('T1')
class IntList(List[int]):
    pass
class StrMap(Dict[str, int]):
    pass
@dataclass
class A:
    a: int
@dataclass
class B:
    b: str
class OddAttrs:
    'an object whose attributes are named like the parts of other types'
    items = keys = values = get = copy = pop = update = name = value = year = hour = aliases = type = isoformat = _fields = None
class SizedOnly:
    def __len__(self):
        return 1
class IterOnly:
    def __iter__(self):
        return iter([1, 2])
class ItemOnly:
    def __getitem__(self, i):
        raise KeyError(i)
    def keys(self):
        return ['a']
    def items(self):
        return [('a', 1)]
Nested = Annotated[t.Union[A, B], Union({'a': A, 'b': B})]
Flat = Annotated[t.Union[A, B], Union({'a': A, 'b': B}, Union.FLAT)]
Keyed = Annotated[t.Union[A, B], Union({'a': A, 'b': B}, Union.KEYED)]
"""

# kind of runtime value -> scenario expression creating an unknown value of that kind
KINDS = {
    "none": "None",
    "bool": "val('v', bool)",
    "int": "val('v', int)",
    "float": "val('v', float)",
    "complex": "val('v', complex)",
    "str": "val('v', str)",
    "bytes": "val('v', bytes)",
    "bytearray": "val('v', bytearray)",
    "memoryview": "val('v', memoryview)",
    "list": "val('v', list, sizes=[0, 2])",
    "tuple": "val('v', tuple, sizes=[0, 2])",
    "set": "val('v', set, sizes=[0, 2])",
    "frozenset": "val('v', frozenset, sizes=[0, 2])",
    "dict": "val('v', dict, sizes=[0, 1])",
    "mapping": "val('v', FrozenMap, sizes=[0, 1])",
    "strsub": "val('v', StrSub)",
    "intsub": "val('v', IntSub)",
    "floatsub": "val('v', FloatSub)",
    "listsub": "val('v', ListSub, sizes=[0, 1])",
    "dictsub": "val('v', DictSub, sizes=[0, 1])",
    "decimal": "val('v', Decimal)",
    "date": "val('v', date)",
    "datetime": "val('v', datetime.datetime)",
    "time": "val('v', time)",
    "timedelta": "val('v', datetime.timedelta)",
    "uuid": "val('v', uuid.UUID)",
    "path": "val('v', pathlib.PosixPath)",
    "purepath": "val('v', pathlib.PurePosixPath)",
    "duration": "val('v', duration)",
    "color": "choice('member', Color.RED, Color.GREEN)",
    "num": "choice('member', Num.ONE, Num.TWO)",
    "tag": "choice('member', Tag.CAT, Tag.DOG)",
    "pt": "Pt(val('x', int), val('y', str))",
    "ptsub": "PtSub(val('x', int), val('y', str), val('z', int))",
    "unset pt": "PtSub.__new__(PtSub)",
    "nt": "NT(val('a', int), val('b', str))",
    "cnt": "CNT(val('a', int), val('b', str))",
    "mydec": "val('v', MyDec)",
    "myuuid": "val('v', MyUUID)",
    "a": "A(val('a', int))",
    "b": "B(val('b', str))",
    "object": "atom('v')",
    "class": "Pt",
    "odd attributes": "OddAttrs()",
    "sized": "SizedOnly()",
    "iterable": "IterOnly()",
    "subscriptable": "ItemOnly()",
    "function": "(lambda: 0)",
    "generator": "(i for i in [1, 2])",
}

PAYLOAD_KINDS = [k for k in KINDS]

COLL = {"list", "tuple", "set", "frozenset", "listsub", "nt", "cnt"}
MAPPINGS = {"dict", "mapping", "dictsub"}
STRS = {"str", "strsub"}

# hint -> (expression, payload kinds it calls for, value kinds of the declared type)
HINTS = {
    "int": ("int", {"int", "float"}, {"int", "float"}),
    "float": ("float", {"int", "float"}, {"int", "float"}),
    "str": ("str", {"str"}, {"str"}),
    "bool": ("bool", {"bool"}, {"bool"}),
    "bytes": ("bytes", {"str"}, {"bytes"}),
    "decimal": ("Decimal", STRS, {"decimal", "mydec"}),
    "mydec": ("MyDec", STRS, {"mydec"}),
    "date": ("date", STRS | {"date", "datetime"}, {"date"}),
    "datetime": ("datetime.datetime", STRS | {"datetime"}, {"datetime"}),
    "time": ("time", STRS | {"time"}, {"time"}),
    "enum": ("Color", STRS, {"color"}),
    "tagenum": ("Tag", STRS, {"tag"}),
    "intenum": ("Num", {"int", "intsub", "num"}, {"num"}),
    "uuid": ("uuid.UUID", STRS, {"uuid", "myuuid"}),
    "myuuid": ("MyUUID", STRS, {"myuuid"}),
    "path": ("pathlib.Path", STRS, {"path"}),
    "purepath": ("pathlib.PurePath", STRS, {"path", "purepath"}),
    "duration": ("duration", STRS | MAPPINGS, {"duration"}),
    "list": ("List[int]", COLL, {"list", "listsub"}),
    "builtin_list": ("list[str]", COLL, {"list", "listsub"}),
    "set": ("Set[int]", COLL, {"set"}),
    "frozenset": ("t.FrozenSet[int]", COLL, {"frozenset"}),
    "sequence": ("t.Sequence[int]", COLL, None),
    "collection": ("t.Collection[int]", COLL, None),
    "deque": ("t.Deque[int]", COLL, set()),
    "intlist": ("IntList", COLL, set()),
    "tuple2": ("Tuple[int, str]", COLL, {"tuple", "nt", "cnt"}),
    "tuplevar": ("Tuple[int, ...]", COLL, {"tuple", "nt", "cnt"}),
    "dict": ("Dict[str, int]", MAPPINGS, MAPPINGS),
    "mapping": ("Mapping[str, int]", MAPPINGS, MAPPINGS),
    "mutmapping": ("t.MutableMapping[str, int]", MAPPINGS, MAPPINGS),
    "intkeys": ("Dict[int, Pt]", MAPPINGS, MAPPINGS),
    "strmap": ("StrMap", MAPPINGS, MAPPINGS),
    "ordered": ("t.OrderedDict[str, int]", MAPPINGS, MAPPINGS),
    "dataclass": ("Pt", MAPPINGS, {"pt", "ptsub"}),
    "typeddict": ("TD", MAPPINGS, MAPPINGS),
    "typeddict_part": ("TDPart", MAPPINGS, MAPPINGS),
    "namedtuple": ("NT", MAPPINGS, {"nt"}),
    "nested": ("Nested", MAPPINGS, {"a", "b"}),
    "flat": ("Flat", MAPPINGS, {"a", "b"}),
    "keyed": ("Keyed", MAPPINGS, {"a", "b"}),
}
ABSTRACT_VALUES = {
    "sequence": {"list", "tuple", "listsub", "nt", "cnt", "str", "strsub", "bytes", "bytearray", "memoryview"},
    "collection": {"list", "tuple", "listsub", "nt", "cnt", "set", "frozenset", "dict", "mapping", "dictsub", "str",
                   "strsub", "bytes", "bytearray", "memoryview"},
}


def value_kinds(h):
    v = HINTS[h][2]
    return ABSTRACT_VALUES[h] if v is None else v


def case(name, setup, body, params=None, **k):
    p = dict(CLASSES)
    p.update(params or {})
    return Case(name, setup, body, p, **k)
