"""C11: readers and writers agree on field and member aliases."""
from .common import *

RULE = ("for every structured type, source of an alias setting and number of aliases, a field is written under its first "
        "alias and read from the first alias present in declared order; enum members likewise by alias or name")

STRUCTS = {
    "a dataclass": ("@dataclass\nclass R:\n    o: Any\n    f: {}\n", "R(o=x, f=y)", "attr"),
    "a derived dataclass": ("@dataclass\nclass R0:\n    f: {}\n@dataclass\nclass R(R0):\n    o: Any\n", "R(o=x, f=y)", "attr"),
    "a dataclass with defaults": ("@dataclass\nclass R:\n    o: Any = None\n    f: {} = None\n", "R(o=x, f=y)", "attr"),
    "a generic dataclass": ("T2 = TypeVar('T2')\n@dataclass\nclass R(Generic[T2]):\n    o: T2\n    f: {}\n", "R(o=x, f=y)", "attr"),
    "a TypedDict": ("class R(TypedDict):\n    o: Any\n    f: {}\n", "{'o': x, 'f': y}", "item"),
    "a partial TypedDict": ("class R(TypedDict, total=False):\n    o: Any\n    f: {}\n", "{'f': y, 'o': x}", "item"),
    "a NamedTuple": ("class R(NamedTuple):\n    o: Any\n    f: {}\n", "R(o=x, f=y)", "attr"),
    "a flattened dataclass": ("@dataclass\nclass In:\n    f: {}\n@dataclass\nclass R:\n    o: Any\n    i: Annotated[In, Flattened()]\n",
                              "R(o=x, i=In(y))", "inner"),
    "a twice flattened TypedDict": ("class In2(TypedDict):\n    f: {}\n@dataclass\nclass In:\n    j: Annotated[In2, Flattened()]\n"
                                    "@dataclass\nclass R:\n    i: Annotated[In, Flattened()]\n    o: Any\n",
                                    "R(o=x, i=In({'f': y}))", "inner2"),
}
GETF = {"attr": "{}.f", "item": "{}['f']", "inner": "{}.i.f", "inner2": "{}.i.j['f']"}
# the annotation of the field, further settings, names in order of preference
SOURCES = {
    "no alias": ("Any", "[]", ["f"]),
    "one alias": ("Annotated[Any, Alias('A')]", "[]", ["A"]),
    "three aliases": ("Annotated[Any, Alias('C', 'A', 'B')]", "[]", ["C", "A", "B"]),
    "aliases including the name": ("Annotated[Any, Alias('A', 'f')]", "[]", ["A", "f"]),
    "the name first": ("Annotated[Any, Alias('f', 'A')]", "[]", ["f", "A"]),
    "aliases of two priorities": ("Annotated[Any, Alias('low'), 'note', Alias('A', 'B', priority=Priority.HIGH)]", "[]", ["A", "B"]),
    "two alias settings": ("Annotated[Any, Alias('A', 'B'), Alias('second')]", "[]", ["A", "B"]),
    "an alias set for the type": ("K", "[local]", ["L", "M"]),
    "an alias from a provider": ("K", "[provider]", ["L", "M"]),
    "a forced alias from a provider": ("Annotated[K, Alias('A')]", "[forced]", ["L", "M"]),
    "the empty alias": ("Annotated[Any, Alias('', 'A')]", "[]", ["", "A"]),
}
SETUP = TYPES + """
class K:
    pass
class Keep(Converter):
    def convert(self, ctx):
        if isinstance(ctx.value, K) or type(ctx.value) is type(x):
            return ctx.value
        raise NotImplementedError
x, y = atom("x"), atom("y")
def mapper(kind):
    m = get_object_mapper()
    m.module.register(Keep(), first=True)
    if kind == "local":
        m.settings.add_local(K, Alias('L', 'M'))
    if kind == "provider":
        m.settings.add_provider(lambda c: [Alias('L', 'M')] if c.key == 'f' else [])
    if kind == "forced":
        m.settings.add_conditional(lambda c: c.key == 'f', Alias('L', 'M', priority=Priority.HIGH))
    return m
"""


def cases():
    for s, (decl, make, kind) in STRUCTS.items():
        for src, (hint, sets, names) in SOURCES.items():
            mk = sets.strip("[]")
            if mk in ("local", "provider", "forced") and kind.startswith("inner"):
                # the field is looked up when the flattened part is collected and again when it is converted
                pass
            name = f"{s}, {src}"
            yield case(f"write {name}", SETUP + decl.format(hint), f"""
m = mapper({mk!r})
r = attempt(m.serialize, {make}, R)
claim(r[0] == "ok", "{name}: serialization fails", r[1])
if r[0] == "ok":
    claim({names[0]!r} in r[1] and same(r[1][{names[0]!r}], y), "{name}: the field is not written as {names[0]} but", r[1])
    claim(len(r[1]) == 2 and same(r[1]['o'], x), "{name}: written as", r[1])
    q = attempt(m.deserialize, r[1], R)
    claim(q[0] == "ok" and same({GETF[kind].format('q[1]')}, y), "{name}: what is written cannot be read:", q[1])
""")
            others = [n for n in ("f", "A", "B", "L", "zz") if n not in names]
            yield case(f"read {name}", SETUP + decl.format(hint), f"""
m = mapper({mk!r})
names = {names!r}
payload = {{'o': x}}
present = [n for n in names[::-1] if choice("payload has " + n, True, False)]
for n in present:
    payload[n] = atom("under " + n)
r = attempt(m.deserialize, payload, R, None, [ExtraKeys(True)])
first = [n for n in names if n in payload]
if first:
    claim(r[0] == "ok", "{name}: reading from", present, "fails", r[1])
    claim(r[0] != "ok" or same({GETF[kind].format('r[1]')}, payload[first[0]]), "{name}: not read from", first[0], "of", names)
else:
    claim(r[0] == {'ok' if s in ("a partial TypedDict", "a dataclass with defaults") else 'conv'!r}, "{name}: read from a payload without it:", r[1])
for n in {others!r}:
    q = attempt(m.deserialize, {{'o': x, n: y}}, R, None, [ExtraKeys(True)])
    claim(q[0] == {'ok' if s in ("a partial TypedDict", "a dataclass with defaults") else 'conv'!r}, "{name}: read from", n)
""")
    for s, (decl, make, kind) in STRUCTS.items():
        for src, names in (("Any", ["f"]), ("Annotated[Any, Alias('fooBar', 'a-b')]", ["fooBar", "a-b"])):
            opt = s in ("a partial TypedDict", "a dataclass with defaults")
            yield case(f"keys that are none of the names, {s}, {names[0]}", SETUP + decl.format(src), f"""
names = {names!r}
k = choice("key", val('k', str), *[g for n in names for g in (n.upper(), n + '_', '_' + n, n + ' ', ' ' + n, n + n, n[:-1], n.replace('B', '_b'), n.replace('-', '_'), n.replace('-', ''), n.capitalize())], 'foobar', 'foo_bar', 'a_b', b'f', 1, None)
assume(k not in names and k != 'o')
r = attempt(mapper('none').deserialize, {{'o': x, k: y}}, R, None, [ExtraKeys(True)])
if {opt}:
    claim(r[0] == "ok" and not derived({GETF[kind].format('r[1]') if s != 'a partial TypedDict' else "r[1].get('f')"}, y), "read from the key", k, ":", r[1])
else:
    claim(r[0] == "conv", "read from the key", k, ":", r[1])
p = {{'o': x, k: atom('other'), names[-1]: y}}
p = choice("order", p, {{a: p[a] for a in reversed(list(p))}})
r = attempt(mapper('none').deserialize, p, R, None, [ExtraKeys(True)])
claim(r[0] == "ok" and same({GETF[kind].format('r[1]')}, y), "with a further key", k, "read as", r[1])
r = attempt(mapper('none').deserialize, {{'o': x, k: y, names[0]: y}}, R)
claim(r[0] == "conv", "the key", k, "is accepted:", r[1])
""")
    for s, (decl, make, kind) in STRUCTS.items():
        yield case(f"falsy values under several aliases, {s}", SETUP + decl.format("Annotated[Any, Alias('A', 'B', 'C')]"), f"""
first, rest = choice("first", None, 0, False, '', [], {{}}), choice("rest", None, 1, y)
names = choice("names", ['A', 'B', 'C'], ['B', 'C'], ['A', 'C'])
payload = {{'o': x}}
for n in reversed(names):
    payload[n] = first if n == names[0] else rest
r = attempt(mapper('none').deserialize, payload, R, None, [ExtraKeys(True)])
claim(r[0] == "ok" and same({GETF[kind].format('r[1]')}, first), "of", names, "the value under the first,", first, ", is not used but", r[1])
""")
    yield case("aliases of fields that are converted", SETUP + """
@dataclass
class R:
    p: Annotated[Pt, Alias('P')]
    l: Annotated[List[int], Alias('L', 'l2')]
    o: Annotated[Optional[int], Alias('O')] = None
""", """
i = val('i', int)
r = attempt(M.serialize, R(Pt(i), [i], None), R)
claim(r[0] == "ok" and list(r[1]) == ['P', 'L', 'O'] and list(r[1]['P']) == ['x', 'y'], "written as", r[1])
r = attempt(M.deserialize, {'l2': [i], 'P': {'x': i}, 'O': i}, R)
claim(r[0] == "ok" and same(r[1].p.x, i) and same(r[1].l[0], i) and same(r[1].o, i), "read as", r[1])
""")
    yield case("the aliases property of a schema field", SETUP, """
claim(Field(TypeHint(Annotated[int, Alias('a', 'b')])).aliases == ('a', 'b'), "Field.aliases differs from the annotation")
claim(Field(TypeHint(int)).aliases == (), "Field.aliases of a plain field")
claim(Alias('a', 'b', 'c').aliases == ('a', 'b', 'c'), "Alias loses the order of its names")
""")
    # ---- enumerations
    enum = SETUP + """
class E(enum.Enum):
    ONE = 1
    TWO: Annotated[int, Alias('deux', 'zwei')] = 2
    THREE: Annotated[int, 'note', Alias('drei')] = 3
    FOUR: Annotated[int, Alias('FIVE')] = 4
    FIVE: Annotated[int, Alias('FOUR')] = 5
    SIX: int = 6
    ALSO_ONE = 1
class F(enum.Enum):
    FALSE = 0
    EMPTY: Annotated[str, Alias('')] = ''
    NONE = None
"""
    written = {"ONE": "ONE", "TWO": "deux", "THREE": "drei", "FOUR": "FIVE", "FIVE": "FOUR", "SIX": "SIX"}
    for n, w in written.items():
        yield case(f"write enum member {n}", enum, f"""
r = attempt(M.serialize, E.{n}, E)
claim(r[0] == "ok" and r[1] == {w!r}, "member {n} is not written as {w} but", r[1])
q = attempt(M.deserialize, {w!r}, E)
claim(q[0] == "ok" and q[1] is E.{n}, "{w} is not read as {n} but", q[1])
""")
    read = {"ONE": "ONE", "deux": "TWO", "zwei": "TWO", "drei": "THREE", "FIVE": "FOUR", "FOUR": "FIVE", "SIX": "SIX", "ALSO_ONE": "ONE"}
    for w, n in read.items():
        yield case(f"read enum text {w}", enum, f"""
q = attempt(M.deserialize, {w!r}, E)
claim(q[0] == "ok" and q[1] is E.{n}, "{w} is not read as {n} but", q[1])
""")
    yield case("read any enum text", enum, """
s = val("s", str)
q = attempt(M.deserialize, s, E)
table = {'ONE': E.ONE, 'deux': E.TWO, 'zwei': E.TWO, 'drei': E.THREE, 'FIVE': E.FOUR, 'FOUR': E.FIVE, 'SIX': E.SIX, 'ALSO_ONE': E.ONE,
         'TWO': E.TWO, 'THREE': E.THREE}
if q[0] == "ok":
    claim(s in table, "a text that names no member is read as", q[1])
else:
    claim(q[0] == "conv", "reading fails with", q[1])
    claim(not any(s == k for k in ('ONE', 'deux', 'zwei', 'drei', 'FIVE', 'FOUR', 'SIX', 'ALSO_ONE')), "a member's text is rejected")
""")
    yield case("enum members with falsy values", enum, """
for n, w, v in (("FALSE", "FALSE", F.FALSE), ("EMPTY", "", F.EMPTY), ("NONE", "NONE", F.NONE)):
    r = attempt(M.serialize, v, F)
    claim(r[0] == "ok" and r[1] == w, "member", n, "is not written as", w, "but", r[1])
    q = attempt(M.deserialize, w, F)
    claim(q[0] == "ok" and q[1] is v, w, "is not read as", n, "but", q[1])
""")
    yield case("enum members in containers", enum, """
r = attempt(M.serialize, {E.TWO: [E.ONE, E.THREE]}, Dict[E, List[E]])
claim(r[0] == "ok" and r[1] == {'deux': ['ONE', 'drei']}, "written as", r[1])
q = attempt(M.deserialize, {'zwei': ['ONE', 'drei']}, Dict[E, List[E]])
claim(q[0] == "ok" and q[1] == {E.TWO: [E.ONE, E.THREE]}, "read as", q[1])
""")
