"""C17: conversion never modifies its inputs and keeps no state."""
from .common import *

RULE = ("every write to a container, object, class or module made during a conversion has a receiver that was created during "
        "that conversion (private caches of union member registries and functools caches excepted), and a conversion gives the same "
        "result after any other conversion as it gives alone")

SETUP = TYPES + """
@dataclass
class In:
    i: Any
    j: Annotated[Any, Alias('J')] = None
@dataclass
class Rem:
    a: Any
    r: Annotated[Dict[str, Any], Remainder()]
@dataclass
class Big:
    f: Annotated[In, Flattened()]
    l: List[Any]
    d: Dict[str, Any] = field(default_factory=dict)
    s: Any = field(default_factory=list)
    t: Annotated[Any, Alias('T', 'tt')] = None
@dataclass
class FlRem:
    f: Annotated[Rem, Flattened()]
    k: Any = 1
class PTD(TypedDict, total=False):
    p: List[Any]
    q: Dict[str, Any]
class PNT(NamedTuple):
    p: List[Any]
    q: Any = None
@Union({}, Union.FLAT)
class Base(abc.ABC):
    pass
@Union.register(Base, 'm')
@dataclass
class Member(Base):
    m: Any
@Union.register(Base, 'r')
@dataclass
class RMember(Base):
    r: Annotated[Dict[str, Any], Remainder()]
NestedR = Annotated[t.Union[Rem, In], Union({'r': Rem, 'i': In}, Union.NESTED, 'kind', 'data')]
KeyedR = Annotated[t.Union[Rem, In], Union({'r': Rem, 'i': In}, Union.KEYED)]
FlatR = Annotated[t.Union[Rem, In], Union({'r': Rem, 'i': lambda: In}, Union.FLAT)]
class Own:
    'a value whose converter hands out parts of it'
    def __init__(self, form):
        self.form = form
class OwnConv(Converter):
    def convert(self, ctx):
        if type(ctx.datatype).__name__ == 'ClassTypeHint' and ctx.datatype.type is Own:
            if ctx.direction is SER:
                return ctx.value.form
            return Own(ctx.value)
        raise NotImplementedError
OwnFlat = Annotated[t.Union[Own, A], Union({'own': Own, 'a': A}, Union.FLAT)]
@dataclass
class OwnHolder:
    o: Annotated[Own, Flattened()]
    x: Any = None
@dataclass
class OwnRem:
    o: Annotated[Own, Remainder()]
    x: Any = None
@dataclass
class OwnBoth:
    x: Any
    o: Annotated[Own, Flattened()]
    r: Annotated[Own, Remainder()]
M.module.register(OwnConv())
class Temp:
    pass
x, y, z = atom("x"), atom("y"), atom("z")
"""

# hint, payload, value
DOCS = {
    "a list": ("List[Any]", "[x, [y], {'a': z}]", "[x, [y], {'a': z}]"),
    "a list of ints": ("List[int]", "[1, val('i', int), 2.0]", "[1, val('i', int)]"),
    "a set": ("Set[int]", "[1, 2]", "{1, 2}"),
    "a tuple": ("Tuple[int, List[Any]]", "[1, [x]]", "(1, [x])"),
    "a mapping": ("Dict[str, List[Any]]", "{'a': [x], 'b': []}", "{'a': [x], 'b': []}"),
    "a mapping with int keys": ("Dict[int, Any]", "{1: x, 2: [y]}", "{1: x, 2: [y]}"),
    "a dataclass": ("Pt", "{'x': 1, 'y': 'q'}", "Pt(1, 'q')"),
    "a dataclass with flattened fields": ("Big", "{'i': [x], 'J': y, 'l': [z], 'd': {'k': x}, 'tt': {'q': []}}", "Big(In([x], {'p': y}), [z], {'k': x})"),
    "a dataclass with defaults": ("Big", "{'i': x, 'l': []}", "Big(In(x), [])"),
    "a remainder": ("Rem", "{'a': x, 'p': [y], 'q': z}", "Rem(x, {'p': [y], 'q': z})"),
    "a flattened remainder": ("FlRem", "{'a': x, 'p': [y], 'q': z}", "FlRem(Rem(x, {'p': [y], 'q': z}))"),
    "a TypedDict": ("PTD", "{'p': [x], 'q': {'r': y}}", "{'p': [x], 'q': {'r': y}}"),
    "a NamedTuple": ("PNT", "{'p': [x], 'q': {'r': y}}", "PNT([x], {'r': y})"),
    "a flat union": ("FlatR", "{'type': 'r', 'a': x, 'p': [y]}", "Rem(x, {'p': [y]})"),
    "a flat union with deferred members": ("FlatR", "{'type': 'i', 'i': [x]}", "In([x])"),
    "a nested union": ("NestedR", "{'kind': 'r', 'data': {'a': x, 'p': [y]}}", "Rem(x, {'p': [y]})"),
    "a keyed union": ("KeyedR", "{'r': {'a': x, 'p': [y]}}", "Rem(x, {'p': [y]})"),
    "a decorated union": ("Base", "{'type': 'm', 'm': [x]}", "Member([x])"),
    "a remainder in a decorated union": ("Base", "{'type': 'r', 'm': [x]}", "RMember({'m': [x]})"),
    "a plain union": ("t.Union[A, B, In]", "{'i': [x]}", "In([x])"),
    "an optional": ("Optional[List[Any]]", "[x]", "[x]"),
    "any": ("Any", "{'a': [x]}", "{'a': [x]}"),
    "a converter's own mapping, flat": ("OwnFlat", "{'type': 'own', 'p': x}", "Own({'p': x})"),
    "a converter's own mapping, flattened": ("OwnHolder", None, "OwnHolder(Own({'p': x}), y)"),
    "a converter's own mapping, remainder": ("OwnRem", "{'p': x, 'x': y}", "OwnRem(Own({'p': x}), y)"),
    "a converter's own mappings": ("OwnBoth", None, "OwnBoth(z, Own({'p': x}), Own({'q': y}))"),
    "a date": ("date", "val('s', str)", "val('d', date)"),
    "an enum": ("Tag", "choice('t', 'kitty', 'DOG', 'CAT')", "Tag.CAT"),
    "a literal": ("Literal['a', 1]", "'a'", "1"),
    "a decimal": ("Annotated[Decimal, Precision(2)]", "val('s', str)", "val('d', Decimal)"),
    "rejected documents": ("List[Big]", "[{'i': 1, 'l': [], 'zz': [x]}]", "[Big(In(x), x)]"),
    "a rejected union": ("FlatR", "{'type': 'r', 'b': x, 'p': [y]}", "A(1)"),
    "missing fields": ("List[Rem]", "[{'p': [x]}, {'a': 1}]", "[Rem(x, y)]"),
}


def cases():
    for what, (hint, payload, value) in DOCS.items():
        for d, src in (("deserialize", payload), ("serialize", value)):
            if src is None:
                continue
            yield case(f"{d} {what} twice", SETUP, f"""
settings = choice("settings", None, "sequence", "provider")
v = {src}
s = [SerializeDefaults(False), ExtraKeys(False), Strict(True)] if settings == "sequence" else None
if settings == "provider":
    s = Settings(M.settings)
    s.add_global(SerializeDefaults(False))
hint = {hint}
registries(*[h.__metadata__[0].members for h in (FlatR, NestedR, KeyedR, OwnFlat)])
run_start()
r1 = attempt(M.{d}, v, hint, None, s)
claim(not mutations(), "{d} {what}: a conversion modifies an object that existed before it:", mutations())
r2 = attempt(M.{d}, v, hint, None, s)
claim(not mutations(), "{d} {what}: a repeated conversion modifies an object that existed before it:", mutations())
claim(r1[0] == r2[0], "{d} {what}: repeating a conversion gives", r1[1], "then", r2[1])
claim(r1[0] != "ok" or eqv(r1[1], r2[1]), "{d} {what}: repeating a conversion gives", r1[1], "then", r2[1])
claim(r1[0] != "exc", "{d} {what}: fails with", r1[1])
""", max_paths=200)
    # ---- unknown documents of any kind
    for h, (expr, pk, vk) in HINTS.items():
        for d in ("deserialize", "serialize"):
            for kind in sorted((pk if d == "deserialize" else value_kinds(h)) | {"dict", "list", "object"}):
                yield case(f"{d} {kind} as {h}", SETUP, f"""
v = {KINDS[kind]}
registries(*[h.__metadata__[0].members for h in (Nested, Flat, Keyed)])
run_start()
r1 = attempt(M.{d}, v, {expr})
claim(not mutations(), "{d} {kind} as {h}: modifies", mutations())
""")
    # ---- results depend on nothing that happened before
    probes = ["a dataclass with flattened fields", "a remainder", "a flat union", "a decorated union", "a nested union", "a TypedDict",
              "a NamedTuple", "a mapping", "a list", "a decimal", "a converter's own mapping, flat", "an enum", "a plain union"]
    for what in probes:
        hint, payload, value = DOCS[what]
        for d, src in (("deserialize", payload), ("serialize", value)):
            others = [n for n in DOCS if DOCS[n][1] is not None]
            yield case(f"{d} {what} after anything else", SETUP, f"""
v = {src}
alone = attempt(M.{d}, v, {hint})
i = choice("history", {', '.join(str(i) for i in range(len(others)))})
before = [{', '.join(f'lambda: ({DOCS[n][0]}, {DOCS[n][1]}, {DOCS[n][2]})' for n in others)}][i]
h, p, w = before()
attempt(M.deserialize, p, h, None, [Strict(False), Alias('zz'), ExtraKeys(True)])
attempt(M.serialize, w, h, None, [SerializeDefaults(False), Alias('zz'), DateFormat('%d')])
again = attempt(M.{d}, v, {hint})
claim(alone[0] == again[0], "{d} {what}: gives", alone[1], "but after another conversion", again[1])
claim(alone[0] != "ok" or eqv(alone[1], again[1]), "{d} {what}: gives", alone[1], "but after another conversion", again[1])
""", max_paths=200)
    # ---- settings are not written to
    for what, supplier in (("a class", "Probe"), ("a function", "supply"), ("a lambda", "lambda: Probe()")):
        yield case(f"a field converter supplied by {what}", SETUP + f"""
class Probe(Converter):
    def __init__(self):
        self.seen = 0
    def convert(self, ctx):
        self.seen = self.seen + 1
        return (self.seen, ctx.value)
def supply():
    return Probe()
@dataclass
class Host:
    a: Annotated[Any, JsonConverter({supplier})]
    b: List[Annotated[int, JsonConverter({supplier})]]
@JsonConverter({supplier})
class Own1:
    pass
""", """
s = JsonConverter(Probe)
f = choice("direction", SER, DES)
v, h = choice("document", (choice("host", Host(x, [y, z])) if f is SER else {'a': x, 'b': [y, z]}, Host), (x, Annotated[Any, s]), (x, Own1))
run_start()
r1 = attempt(M.convert, f, v, h)
claim(not mutations(), "a conversion modifies an object that existed before it:", mutations())
r2 = attempt(M.convert, f, v, h)
claim(not mutations(), "a repeated conversion modifies an object that existed before it:", mutations())
claim(r1[0] == "ok" and r2[0] == "ok" and eqv(r1[1], r2[1]), "repeating a conversion gives", r1[1], "then", r2[1])
""")
    yield case("classes of the same name", SETUP, """
def make(n):
    if n == 1:
        @dataclass
        class Same:
            a: Any = 1
        return Same
    @dataclass
    class Same:
        b: Any = 2
    return Same
P, Q = make(1), make(2)
order = choice("order", 0, 1)
for cls, k in ((P, 'a'), (Q, 'b')) if order == 0 else ((Q, 'b'), (P, 'a')):
    r = attempt(M.deserialize, {k: x}, cls)
    claim(r[0] == "ok" and exact(r[1], cls) and same(getattr(r[1], k), x), cls.__qualname__, "is read as", r[1])
    w = attempt(M.serialize, r[1], cls)
    claim(w[0] == "ok" and len(w[1]) == 1 and same(w[1][k], x), "written as", w[1])
""")
    yield case("settings of one conversion in the next", SETUP, """
p = {'a': 1, 'b': 2}
first = choice("first", "lenient", "strict")
seen = []
def lenient():
    return attempt(M.deserialize, p, A, None, [ExtraKeys(True, lambda c, k: seen.append(k))])
def strict():
    return attempt(M.deserialize, p, A)
r = (lenient, strict) if first == "lenient" else (strict, lenient)
a, b = r[0](), r[1]()
l, s = (a, b) if first == "lenient" else (b, a)
claim(l[0] == "ok" and s[0] == "conv", "with", first, "first: lenient gives", l[1], "strict gives", s[1])
claim(len(seen) == 1 and len(p) == 2, "recorded", seen)
for fmt in (1, 2):
    d = val('d', date)
    f = date_format.compile('f' + str(fmt))
    n = len(events("formatted"))
    r = attempt(M.serialize, d, date, None, [DateFormat(f)])
    ev = events("formatted")[n:]
    claim(r[0] != "ok" or (len(ev) == 1 and ev[0][0] is f), "formatted by the format of another call:", ev)
for how in (True, False, True):
    r = attempt(M.serialize, Pt(1), Pt, None, [SerializeDefaults(how)])
    claim(r[0] == "ok" and len(r[1]) == (2 if how else 1), "written as", r[1])
for how in (False, True, False):
    r = attempt(M.deserialize, '1', int, None, [Strict(how)])
    claim(r[0] == ("conv" if how else "ok"), "read as", r[1])
""")
    yield case("settings changed between conversions take effect", SETUP, """
m = get_object_mapper()
r = attempt(m.deserialize, '1', int)
claim(r[0] == "conv", "read as", r[1])
m.settings.add_global(Strict(False))
r = attempt(m.deserialize, '1', int)
claim(r[0] == "ok" and same(r[1], 1), "a setting added after a conversion does not take effect:", r[1])
m.settings.add_local(int, Strict(True, priority=Priority.HIGH))
r = attempt(m.deserialize, '1', int)
claim(r[0] == "conv", "a setting added after a conversion does not take effect:", r[1])
r = attempt(m.deserialize, {'x': 1}, A)
m.settings.add_global(ExtraKeys(True))
r = attempt(m.deserialize, {'a': 1, 'x': 1}, A)
claim(r[0] == "ok", "a setting added after a conversion does not take effect:", r[1])
Union.register(Base, 'late')(RMember)
@Union.register(Base, 'later')
@dataclass
class Later(Base):
    k: Any
r = attempt(m.deserialize, {'type': 'later', 'k': x}, Base)
claim(r[0] == "ok" and exact(r[1], Later), "a member registered after a conversion is unknown:", r[1])
class C2(Converter):
    def convert(self, ctx):
        if ctx.datatype.type is Temp:
            return 'by C2'
        raise NotImplementedError
r = attempt(m.serialize, Temp(), Temp)
claim(r[0] == "conv", "written as", r[1])
m.module.register(C2())
r = attempt(m.serialize, Temp(), Temp)
claim(r[0] == "ok" and r[1] == 'by C2', "a converter registered after a conversion is not consulted:", r[1])
""")
    yield case("results are not shared between conversions", SETUP, """
h, p, w = choice("type", (List[Any], [x], [x]), (Dict[str, Any], {'a': x}, {'a': x}), (In, {'i': x}, In(x)), (PTD, {'p': [x]}, {'p': [x]}),
                 (Big, {'i': x, 'l': []}, Big(In(x), [])), (Rem, {'a': x}, Rem(x, {})), (FlatR, {'type': 'i', 'i': x}, In(x)))
a, b = M.deserialize(p, h), M.deserialize(p, h)
claim(a is not b and a is not p, "two conversions give the same object", a)
if h is Big:
    claim(a.l is not b.l and a.d is not b.d and a.s is not b.s and a.f is not b.f, "two conversions share a part")
if h is Rem:
    claim(a.r is not b.r, "two conversions share the remainder")
if h is PTD:
    claim(a['p'] is not b['p'], "two conversions share a part")
a, b = M.serialize(w, h), M.serialize(w, h)
claim(a is not b and a is not w, "two conversions give the same object", a)
""")
    yield case("the mapping type of a remainder belongs to the payload", SETUP, """
p = {'a': x, 'k': y}
r = attempt(M.deserialize, p, Rem)
claim(r[0] == "ok" and r[1].r is not p and len(p) == 2 and len(r[1].r) == 1, "the remainder is the payload itself", r[1])
keys = []
r = attempt(M.deserialize, p, A, None, [ExtraKeys(True, lambda c, k: keys.append(k))])
claim(len(p) == 2, "the payload lost a key")
""")
