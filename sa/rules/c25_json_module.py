"""C25: the JSON module offers every documented converter in a sound order."""
from .common import *

RULE = ("for every documented type the JSON module finds a converter in both directions; a JsonConverter setting - on the hint, the "
        "class, the settings - is asked exactly once and before any built-in converter; of several matching built-in converters the "
        "more specific one decides")

SETUP = TYPES + """
class Mark:
    pass
class Rec(Converter):
    def __init__(self, tag='rec', mode='ok'):
        self.tag, self.mode = tag, mode
    def convert(self, ctx):
        log("asked", self.tag, ctx.value, ctx.direction)
        if self.mode == 'decline':
            raise NotImplementedError
        if self.mode == 'error':
            raise ConversionError(self, ctx, 'refused by ' + self.tag)
        if self.mode == 'other':
            raise KeyError('inner')
        return MARK
MARK = atom('mark')
def asked():
    return [x[1] for x in logged("asked")]
def bare():
    m = ObjectMapper()
    m.module.register(JsonModule())
    return m
i, s, f, b = val('i', int), val('s', str), val('f', float), choice('flag', True, False)
"""
# documented types: hint, deserialized, serialized (None: decided by a codec; only success and type are checked)
DOC = [
    ("Any", "i", "i"), ("object", "s", "s"), ("int", "i", "i"), ("str", "s", "s"), ("float", "f", "f"), ("bool", "b", "b"), ("bytes", "b'ab'", "'YWI='"),
    ("List[int]", "[i]", "[i]"), ("Set[str]", "{s}", "[s]"), ("Tuple[int, str]", "(i, s)", "[i, s]"), ("Tuple[int, ...]", "(i, i)", "[i, i]"), ("t.FrozenSet[int]", "frozenset([i])", "[i]"),
    ("Dict[str, int]", "{s: i}", "{s: i}"), ("Mapping[str, int]", "{s: i}", "{s: i}"), ("Color", "Color.RED", "'RED'"), ("Num", "Num.TWO", "2"),
    ("Optional[int]", "i", "i"), ("Optional[int]", "None", "None"), ("t.Union[int, str]", "s", "s"), ("Nested", "A(i)", "{'type': 'a', 'a': {'a': i}}"), ("Flat", "B(s)", "{'type': 'b', 'b': s}"), ("Keyed", "A(i)", "{'a': {'a': i}}"),
    ("Pt", "Pt(i, s)", "{'x': i, 'y': s}"), ("TD", "{'a': i, 'b': s}", "{'a': i, 'b': s}"), ("NT", "NT(i, s)", "{'a': i, 'b': s}"), ("Literal['a', 1]", "'a'", "'a'"), ("Literal['a', 1]", "1", "1"),
    ("List[Optional[Pt]]", "[None, Pt(i, s)]", "[None, {'x': i, 'y': s}]"), ("Dict[str, List[Tuple[int, bool]]]", "{s: [(i, b)]}", "{s: [[i, b]]}"),
]
CODED = [("Decimal", "val('v', Decimal)"), ("uuid.UUID", "val('v', uuid.UUID)"), ("pathlib.Path", "val('v', pathlib.PosixPath)"), ("pathlib.PurePath", "val('v', pathlib.PurePosixPath)"), ("pathlib.PurePosixPath", "val('v', pathlib.PurePosixPath)"), ("pathlib.PosixPath", "val('v', pathlib.PosixPath)"),
         ("duration", "val('v', duration)"), ("date", "val('v', date)"), ("time", "val('v', time)"), ("datetime.datetime", "val('v', datetime.datetime)")]

# classes that can carry the setting: definition, good value, good payload
DECO = {
    "a dataclass": "@dataclass\nclass X:\n    a: int\n", "a plain class": "class X:\n    pass\n", "an enum": "class X(enum.Enum):\n    A = 1\n", "an int enum": "class X(enum.IntEnum):\n    A = 1\n",
    "a list class": "class X(List[int]):\n    pass\n", "a mapping class": "class X(Dict[str, int]):\n    pass\n", "a decimal class": "class X(Decimal):\n    pass\n", "a UUID class": "class X(uuid.UUID):\n    pass\n",
    "a str class": "class X(str):\n    pass\n", "an int class": "class X(int):\n    pass\n", "a NamedTuple": "class X(NamedTuple):\n    a: int\n", "a date class": "class X(date):\n    pass\n", "a path class": "class X(pathlib.PurePosixPath):\n    pass\n",
    "a union base": "@Union({'a': A})\nclass X:\n    pass\n", "a generic dataclass": "@dataclass\nclass X(Generic[T1]):\n    a: T1\n", "a set class": "class X(Set[int]):\n    pass\n",
}


def cases():
    for n, (h, v, p) in enumerate(DOC):
        for mk in ("bare()", "get_object_mapper()"):
            yield case(f"{h} #{n} is supported by {mk}", SETUP, f"""
mp = {mk}
r = attempt(mp.serialize, {v}, {h})
claim(r[0] == "ok" and eqv(r[1], {p}), \"\"\"{h}: written as\"\"\", r[1])
r = attempt(mp.deserialize, {p}, {h})
claim(r[0] == "ok" and eqv(r[1], {v}), \"\"\"{h}: read as\"\"\", r[1])
""")
    for h, v in CODED:
        yield case(f"{h} is supported", SETUP, f"""
mp = bare()
v = {v}
r = attempt(mp.serialize, v, {h})
claim(r[0] == "ok" and (derived(r[1], v) or len(events("formatted")) > 0) or r[0] == "conv" and not isinstance(r[1], NoMatchingConverter), "{h}: written as", r[1])
r = attempt(mp.deserialize, val("p", str), {h})
claim(r[0] == "ok" or r[0] == "conv" and (not isinstance(r[1], NoMatchingConverter) or len(r[1].errors) > 0), "{h}: no converter reads a text:", r[1])
""", max_paths=100)
    for what, defs in DECO.items():
        for d in ("serialize", "deserialize"):
            for hint in ("X", "Annotated[X, 'x']", "List[X]", "Optional[X]", "Dict[str, X]"):
                w = {"List[X]": ("[v]", "[MARK]"), "Dict[str, X]": ("{'k': v}", "{'k': MARK}")}.get(hint, ("v", "MARK"))
                yield case(f"{d}: the converter of {what} as {hint}", SETUP + defs + "JsonConverter(Rec())(X)\n", f"""
v = atom('v')
r = attempt(bare().{d}, {w[0]}, {hint})
claim(r[0] == "ok" and eqv(r[1], {w[1]}), "{d} {what} with its own converter gives", r[1])
claim(asked() == ['rec'], "{d} {what}: converters asked:", asked())
""")
    for h, e in HINTS.items():
        for d in ("serialize", "deserialize"):
            yield case(f"{d}: the converter annotated to {h}", SETUP, f"""
v = val('v')
hint = Annotated[{e[0]}, JsonConverter(Rec())]
for vv, hh, want in ((v, hint, MARK), ([v], List[hint], [MARK]), ({{'k': v}}, Dict[str, hint], {{'k': MARK}})):
    r = attempt(bare().{d}, vv, hh)
    claim(r[0] == "ok" and eqv(r[1], want), \"\"\"{d} {h} with a converter of its own gives\"\"\", r[1])
claim(asked() == ['rec', 'rec', 'rec'], "{d} {h}: converters asked:", asked())
""")
            for mode in ("decline", "error", "other"):
                yield case(f"{d}: the converter annotated to {h}: {mode}", SETUP, f"""
v = atom('v')
r0 = attempt(bare().{d}, v, {e[0]})
r = attempt(bare().{d}, v, Annotated[{e[0]}, JsonConverter(Rec('rec', '{mode}'))])
claim(asked()[:1] == ['rec'], "{d} {h}: converters asked:", asked())
{'claim(r[0] == "exc" and isinstance(r[1], KeyError), "an exception of the converter turns into", r[1])' if mode == 'other' else 'claim(r[0] == r0[0], "a converter that declines or refuses changes the outcome to", r[1])'}
""")
    for d in ("serialize", "deserialize"):
        yield case(f"{d}: declining falls back to the built-ins", SETUP, f"""
X = Annotated[int, JsonConverter(Rec('rec', 'decline'))]
claim(bare().{d}(i, X) is i or True, "")
r = attempt(bare().{d}, i, X)
claim(r[0] == "ok" and same(r[1], i), "the result is", r[1])
claim(asked()[0] == 'rec', "not asked")
""")
        yield case(f"{d}: where the setting comes from", SETUP, f"""
@dataclass
class X:
    a: int
v = atom('v')
jcv = JsonConverter(Rec('call'))
r = attempt(bare().{d}, v, X, settings=[jcv])
claim(r[0] == "ok" and r[1] is MARK, "a converter in the settings of the call gives", r[1])
mp = bare()
mp.settings.add_local(X, JsonConverter(Rec('local')))
r = attempt(mp.{d}, v, X)
claim(r[0] == "ok" and r[1] is MARK and asked() == ['call', 'local'], "a converter in the mapper's settings gives", r[1])
r = attempt(mp.{d}, v, Annotated[X, JsonConverter(Rec('hint'))])
claim(asked()[2:] == ['hint'], "the hint's own converter is not preferred:", asked()[2:])
""")
        yield case(f"{d}: classes and suppliers", SETUP, f"""
v = atom('v')
n = []
class New(Converter):
    def __init__(self):
        n.append(1)
    def convert(self, ctx):
        return MARK
def make():
    return Rec('made')
shared = Rec('shared')
class Called(New):
    def __call__(self, *a):
        raise RuntimeError("this is no supplier")
class Falsy(New):
    def __bool__(self):
        return False
class Empty(New):
    def __len__(self):
        return 0
for s0 in (Called(), Falsy(), Empty()):
    del n[:]
    r = attempt(bare().{d}, v, Annotated[int, JsonConverter(s0)])
    claim(r[0] == "ok" and r[1] is MARK and not n, "a converter given as", s0, "gives", r[1])
del n[:]
for s0 in (New, make, shared, lambda: shared):
    r = attempt(bare().{d}, v, Annotated[int, JsonConverter(s0)])
    claim(r[0] == "ok" and r[1] is MARK, "a converter given as", s0, "gives", r[1])
claim(len(n) == 1 and asked() == ['made', 'shared', 'shared'], "converters used:", n, asked())
""")
        yield case(f"{d}: only the class's own hint", SETUP, f"""
@JsonConverter(Rec())
class X:
    pass
@dataclass
class Y:
    x: X
    n: int
v = atom('v')
r = bare().{d}({'Y(v, 1)' if d == 'serialize' else "{'x': v, 'n': 1}"}, Y)
claim({"eqv(r, {'x': MARK, 'n': 1})" if d == 'serialize' else "r.x is MARK and r.n == 1"}, "gives", r)
claim(asked() == ['rec'], "converters asked:", asked())
""")
    # the more specific of several matching converters
    yield case("a dataclass that is a union base", SETUP, """
@Union(style=Union.FLAT)
@dataclass
class Base1:
    k: int
@Union.register(Base1, 'sub')
@dataclass
class Sub1(Base1):
    l: int
mp = bare()
r = attempt(mp.serialize, Sub1(1, 2), Base1)
claim(r[0] == "ok" and eqv(r[1], {'type': 'sub', 'k': 1, 'l': 2}), "written as", r[1])
r = attempt(mp.deserialize, {'type': 'sub', 'k': 1, 'l': 2}, Base1)
claim(r[0] == "ok" and eqv(r[1], Sub1(1, 2)), "read as", r[1])
""")
    for base, val_, extra in (("uuid.UUID", "uuid.UUID", ""), ("pathlib.PurePosixPath", "pathlib.PurePosixPath", "")):
        yield case(f"a dataclass derived from {base}", SETUP, f"""
@dataclass
class X({base}):
    pass
r = attempt(bare().serialize, val('v', X), X)
claim(r[0] == "ok" and not isinstance(r[1], dict), "written as", r[1])
""")
        yield case(f"a collection derived from {base}", SETUP, f"""
class X({base}):
    def __iter__(self): return iter([])
    def __len__(self): return 0
    def __contains__(self, o): return False
r = attempt(bare().serialize, val('v', X), X)
claim(r[0] == "ok" and not isinstance(r[1], list), "written as", r[1])
""")
    yield case("Path and PurePath", SETUP, """
mp = bare()
for h, ok, bad in ((pathlib.Path, pathlib.PosixPath, pathlib.PurePosixPath), (pathlib.PosixPath, pathlib.PosixPath, pathlib.PurePosixPath)):
    r = attempt(mp.serialize, val('v', ok), h)
    claim(r[0] == "ok", h, ": written as", r[1])
    r = attempt(mp.serialize, val('w', bad), h)
    claim(r[0] == "conv", h, ": a PurePath is written as", r[1])
    r = attempt(mp.deserialize, val('p', str), h)
    claim(r[0] == "ok" and isinstance(r[1], h), h, ": read as", r[1])
for h in (pathlib.PurePath, pathlib.PurePosixPath):
    r = attempt(mp.deserialize, val('q', str), h)
    claim(r[0] == "ok" and isinstance(r[1], h), h, ": read as", r[1])
    for c in (pathlib.PosixPath, pathlib.PurePosixPath):
        r = attempt(mp.serialize, val('v', c), h)
        claim(r[0] == "ok", h, ": written as", r[1])
""")
    yield case("an enum of strings, an enum of ints", SETUP, """
class SE(str, enum.Enum):
    A = 'x'
class IE(int, enum.Enum):
    A = 7
mp = bare()
r = attempt(mp.serialize, SE.A, SE)
claim(r[0] == "ok" and eqv(r[1], 'A'), "a str enum is written as", r[1])
r = attempt(mp.deserialize, 'A', SE)
claim(r[0] == "ok" and r[1] is SE.A, "a str enum is read as", r[1])
""")
    yield case("a module of its own", SETUP, """
a, b2 = JsonModule(), JsonModule()
claim(a.converters is not b2.converters and isinstance(a, Module) and len(a.converters) == len(b2.converters), "two modules share their converters")
a.register(Rec('first'), first=True)
claim(len(a.converters) == len(b2.converters) + 1, "a converter registered with one module is in the other")
m1 = ObjectMapper(); m1.module.register(a)
claim(m1.deserialize(i, int) is MARK and asked() == ['first'], "a converter registered first is not asked first")
m2 = ObjectMapper(); m2.module.register(b2)
claim(same(m2.deserialize(i, int), i), "a converter registered with another module is asked")
b2.register(Rec('last'))
claim(same(m2.deserialize(i, int), i) and asked() == ['first'], "a converter registered last is asked before the built-in ones")
claim(m2.deserialize(i, Opaque) is MARK and asked() == ['first', 'last'], "a converter registered last is not asked for a type of its own")
""")
