"""C18: errors locate the offending value in the payload."""
from .common import *
from . import c01_errors as C01

RULE = ("for every converter that converts parts of a value, each part's context has the enclosing context as parent, the key it "
        "was found under, and the inherited direction, settings and file name; every reported error carries the context of the "
        "offending value; the formatted trace has one entry per level for keys of any type")

SETUP = TYPES + """
class K:
    pass
class Probe(Converter):
    'records the contexts in which a K is converted, and fails or succeeds'
    def __init__(self, fail):
        self.fail = fail
    def convert(self, ctx):
        hint = ctx.datatype
        while type(hint).__name__ == 'AnnotatedTypeHint':
            hint = hint[0]
        if type(hint).__name__ == 'ClassTypeHint' and hint.type is K:
            log("ctx", ctx)
            if self.fail:
                raise ConversionError(self, ctx, "probe")
            return {} if type(ctx.value) is dict else ctx.value
        raise NotImplementedError
def mapper(fail=False):
    m = get_object_mapper()
    m.module.register(Probe(fail), first=True)
    return m
def up(ctx):
    'contexts from the root down to ctx'
    out = []
    while ctx is not None:
        out.insert(0, ctx)
        ctx = ctx.parent
    return out
def keys(ctx):
    return [c.key for c in up(ctx)]
def check_chain(ctx, direction, filename, what):
    for c in up(ctx):
        claim(c.direction is direction, what, ": the direction of a sub-context is", c.direction)
        claim(c.location.filename == filename, what, ": the file name of a sub-context is", c.location.filename)
        claim(c is up(ctx)[0] or (c.location.line is None and c.location.column is None), what, ": line or column are inherited")
        claim(c.settings is ctx.settings and c.convert_func == ctx.convert_func, what, ": settings or dispatcher change on the way")
    claim(up(ctx)[0].key is Context.ROOT, what, ": the outermost context is not the root but has key", up(ctx)[0].key)
@dataclass
class F1:
    a: K
    b: Annotated[K, Alias('bb')] = None
@dataclass
class Outer:
    f: F1
    l: List[F1]
@dataclass
class FlIn:
    i: K
@dataclass
class Fl:
    f: Annotated[FlIn, Flattened()]
    a: Any = None
@dataclass
class RemK:
    r: Annotated[Dict[str, K], Remainder()]
class TK(TypedDict):
    a: K
class NK(NamedTuple):
    a: K
UN = Annotated[t.Union[F1, A], Union({'f': F1, 'a': A}, Union.NESTED, 'kind', 'data')]
UN0 = Annotated[t.Union[F1, A], Union({'f': F1, 'a': A}, Union.NESTED)]
UF = Annotated[t.Union[F1, A], Union({'f': F1, 'a': A}, Union.FLAT)]
UK = Annotated[t.Union[F1, A], Union({'f': F1, 'a': A}, Union.KEYED)]
x, y, z = atom("x"), atom("y"), atom("z")
R = Context.ROOT
"""
# whatever error is reported, for whatever reason: it names the converter and the context, can be printed, and so do its causes
WELL = """
def well(e, v, d, what):
    c = e.context
    claim(isinstance(c, Context), what, "the error's context is", c)
    claim(isinstance(e.origin, Converter), what, "the error's origin is", e.origin)
    if isinstance(c, Context):
        top = c
        while top.parent is not None:
            top = top.parent
        claim(top.value is v and top.direction is d and c.direction is d, what, "the error's context does not belong to the conversion but to", top.value)
        s = attempt(e.__str__)
        claim(s[0] == "ok" and isinstance(s[1], str), what, "printing the error gives", s[1])
        claim(s[0] != "ok" or lines(s[1])[:1] == lines(e.message)[:1], what, "the text does not begin with the message but is", s[1])
    for origin, cause in e.errors:
        claim(isinstance(origin, Converter), what, "a cause is attributed to", origin)
        if isinstance(cause, ConversionError):
            well(cause, v, d, what)
"""
# hint, payload, value, [(object, keys when deserializing, keys when serializing)]
WHERE = {
    "the root": ("K", "x", "x", [("x", "[R]", "[R]")]),
    "an annotated root": ("Annotated[K, 1]", "x", "x", [("x", "[R]", "[R]")]),
    "list items": ("List[K]", "[x, y]", "[x, y]", [("x", "[R, 0]", "[R, 0]"), ("y", "[R, 1]", "[R, 1]")]),
    "nested lists": ("List[List[K]]", "[[], [x, y]]", "[[], [x, y]]", [("x", "[R, 1, 0]", "[R, 1, 0]"), ("y", "[R, 1, 1]", "[R, 1, 1]")]),
    "variable tuples": ("Tuple[K, ...]", "[x, y]", "(x, y)", [("x", "[R, 0]", "[R, 0]"), ("y", "[R, 1]", "[R, 1]")]),
    "fixed tuples": ("Tuple[int, K]", "[1, x]", "(1, x)", [("x", "[R, 1]", "[R, 1]")]),
    "mapping values": ("Dict[str, K]", "{'p': x, 'q': y}", "{'p': x, 'q': y}", [("x", "[R, 'p']", "[R, 'p']"), ("y", "[R, 'q']", "[R, 'q']")]),
    "int-keyed mappings": ("Dict[int, K]", "{1: x}", "{1: x}", [("x", "[R, 1]", "[R, 1]")]),
    "mapping keys": ("Dict[K, int]", "{'p': 1}", "{'p': 1}", [("'p'", "[R, \"Key('p')\"]", "[R, \"Key('p')\"]")]),
    "fields": ("F1", "{'a': x, 'bb': y}", "F1(x, y)", [("x", "[R, 'a']", "[R, 'a']"), ("y", "[R, 'b']", "[R, 'b']")]),
    "nested fields": ("Outer", "{'f': {'a': x}, 'l': [{'a': y}, {'a': z}]}", "Outer(F1(x, 0), [F1(y, 0), F1(z, 0)])",
                      [("x", "[R, 'f', 'a']", "[R, 'f', 'a']"), ("y", "[R, 'l', 0, 'a']", "[R, 'l', 0, 'a']"), ("z", "[R, 'l', 1, 'a']", "[R, 'l', 1, 'a']")]),
    "flattened fields": ("Fl", "{'i': x}", "Fl(FlIn(x))", [("x", "[R, 'f', 'i']", "[R, 'f', 'i']")]),
    "remainders": ("RemK", "{'p': x}", "RemK({'p': x})", [("x", "[R, 'r', 'p']", "[R, 'r', 'p']")]),
    "TypedDict keys": ("TK", "{'a': x}", "{'a': x}", [("x", "[R, 'a']", "[R, 'a']")]),
    "NamedTuple fields": ("NK", "{'a': x}", "NK(x)", [("x", "[R, 'a']", "[R, 'a']")]),
    "optionals": ("Optional[K]", "x", "x", [("x", "[R, None]", "[R, None]")]),
    "optional items": ("List[Optional[K]]", "[None, x]", "[None, x]", [("x", "[R, 1, None]", "[R, 1, None]")]),
    "plain unions": ("t.Union[int, K]", "x", "x", [("x", "[R, None]", "[R, None]")]),
    "optional unions": ("t.Union[int, K, None]", "x", "x", [("x", "[R, None, None]", "[R, None, None]")]),
    "nested unions": ("UN", "{'kind': 'f', 'data': {'a': x}}", "F1(x, 0)", [("x", "[R, 'data', 'a']", "[R, None, 'a']")]),
    "nested unions, default key": ("UN0", "{'type': 'f', 'f': {'a': x}}", "F1(x, 0)", [("x", "[R, 'f', 'a']", "[R, None, 'a']")]),
    "flat unions": ("UF", "{'type': 'f', 'a': x}", "F1(x, 0)", [("x", "[R, None, 'a']", "[R, None, 'a']")]),
    "keyed unions": ("UK", "{'f': {'a': x}}", "F1(x, 0)", [("x", "[R, 'f', 'a']", "[R, None, 'a']")]),
    "sets": ("Set[K]", "['p']", "{'p'}", [("'p'", "[R, 0]", "[R, 0]")]),
    "deep mixtures": ("Dict[str, List[Optional[Tuple[K, K]]]]", "{'p': [None, [x, y]]}", "{'p': [None, (x, y)]}",
                      [("x", "[R, 'p', 1, None, 0]", "[R, 'p', 1, None, 0]"), ("y", "[R, 'p', 1, None, 1]", "[R, 'p', 1, None, 1]")]),
}
# hint, payload or value, direction, keys of the context the error is reported in
ERR = [
    ("List[int]", "[1, 'x']", "d", "[R, 1]"), ("List[int]", "[1, 'x']", "s", "[R, 1]"), ("List[int]", "5", "d", "[R]"), ("List[int]", "5", "s", "[R]"),
    ("List[List[int]]", "[[], 5]", "d", "[R, 1]"), ("Dict[str, int]", "{'p': 'x'}", "d", "[R, 'p']"), ("Dict[str, int]", "5", "d", "[R]"),
    ("Dict[int, int]", "{'p': 1}", "d", "[R, \"Key('p')\"]"), ("Tuple[int, str]", "[1]", "d", "[R]"), ("Tuple[int, str]", "(1, 2)", "s", "[R, 1]"),
    ("Tuple[int, str]", "[1, 2]", "d", "[R, 1]"), ("List[Tuple[int]]", "[[1, 2]]", "d", "[R, 0]"), ("Pt", "{'x': 'q'}", "d", "[R, 'x']"), ("Pt", "{}", "d", "[R]"), ("Pt", "{'x': 1, 'n': 2}", "d", "[R]"),
    ("Pt", "5", "d", "[R]"), ("Pt", "5", "s", "[R]"), ("Pt", "Pt('q')", "s", "[R, 'x']"), ("List[Pt]", "[{'x': 1}, {}]", "d", "[R, 1]"),
    ("TD", "{'a': 1}", "d", "[R]"), ("TD", "{'a': 1}", "s", "[R]"), ("TD", "{'a': 'x', 'b': 'y'}", "d", "[R, 'a']"), ("NT", "{'a': 'x'}", "d", "[R, 'a']"),
    ("Optional[int]", "'x'", "d", "[R, None]"), ("List[Color]", "['RED', 'NO']", "d", "[R, 1]"), ("List[Color]", "[1]", "s", "[R, 0]"),
    ("List[Num]", "[1, 9]", "d", "[R, 1]"), ("List[date]", "[1]", "d", "[R, 0]"), ("List[date]", "[1]", "s", "[R, 0]"), ("List[Decimal]", "['1', 'x']", "d", "[R, 1]"),
    ("List[Decimal]", "['1']", "s", "[R, 0]"), ("List[uuid.UUID]", "['x']", "d", "[R, 0]"), ("List[pathlib.Path]", "[1]", "d", "[R, 0]"), ("List[pathlib.Path]", "[1]", "s", "[R, 0]"),
    ("List[duration]", "[1]", "d", "[R, 0]"), ("List[Literal['a']]", "['b']", "d", "[R, 0]"), ("List[bytes]", "['x']", "d", "[R, 0]"), ("List[bool]", "[1]", "d", "[R, 0]"),
    ("List[int]", "[1.5]", "d", "[R, 0]"), ("List[Nested]", "[5]", "d", "[R, 0]"), ("List[Nested]", "[{}]", "d", "[R, 0]"), ("List[Nested]", "[{'type': 'z'}]", "d", "[R, 0]"),
    ("List[Nested]", "[{'type': 'a'}]", "d", "[R, 0]"), ("List[Nested]", "[{'type': 1}]", "d", "[R, 0, 'type']"), ("List[Nested]", "[{'type': 'a', 'a': {'a': 'x'}}]", "d", "[R, 0, 'a', 'a']"),
    ("List[Nested]", "[5]", "s", "[R, 0]"), ("List[Keyed]", "[{'a': {}, 'b': {}}]", "d", "[R, 0]"), ("List[Keyed]", "[{1: {}}]", "d", "[R, 0, None]"), ("List[Flat]", "[{'type': 'a', 'a': 'x'}]", "d", "[R, 0, None, 'a']"),
    ("List[t.Union[int, bool]]", "['x']", "d", "[R, 0]"), ("t.Any if False else List[K]", "[x]", "d", "[R, 0]"),
    ("List[Annotated[Pt, Flattened()]]", "[5]", "d", "[R, 0]"), ("Fl", "{'i': x, 'n': 1}", "d", "[R]"), ("Fl", "{}", "d", "[R]"),
]
# declarations that cannot be converted, or collide on some value
BROKEN = [
    ("two remainder fields", """
@dataclass
class W:
    p: Annotated[Dict[str, int], Remainder()]
    q: Annotated[Dict[str, int], Remainder()]
""", [("SER", "W({}, {})", "W"), ("DES", "{}", "W"), ("DES", "{'a': 1}", "W")]),
    ("a remainder that is no mapping", """
@dataclass
class W:
    p: Annotated[Any, Remainder()]
@dataclass
class W2:
    p: Annotated[int, Remainder()]
""", [("SER", "W([])", "W"), ("SER", "W(5)", "W"), ("SER", "W2(5)", "W2"), ("DES", "{'a': 1}", "W2")]),
    ("a remainder that collides with a field", """
@dataclass
class W:
    a: int
    p: Annotated[Dict[str, int], Remainder()]
""", [("SER", "W(1, {'a': 2})", "W"), ("SER", "W(1, {'b': 'x'})", "W")]),
    ("a flattened field that is no mapping", """
@dataclass
class W:
    a: Annotated[int, Flattened()]
@dataclass
class In:
    a: int
@dataclass
class W2:
    a: int
    i: Annotated[In, Flattened()]
@dataclass
class W3:
    i: Annotated[In, Flattened()]
    j: Annotated[In, Flattened()]
@dataclass
class W4:
    d: Annotated[Dict[str, int], Flattened()]
    a: int
@dataclass
class W5:
    i: Annotated[In, Flattened()]
    p: Annotated[Dict[str, int], Remainder()]
""", [("SER", "W4({'a': 1}, 2)", "W4"), ("SER", "W5(In(1), {'a': 2})", "W5")]),
    ("a flattened field whose own converter answers oddly", """
class Odd(Converter):
    def __init__(self, answer): self.answer = answer
    def convert(self, ctx):
        return self.answer
@dataclass
class In:
    a: int
@dataclass
class W:
    i: Annotated[In, Flattened(), JsonConverter(Odd([1]))]
@dataclass
class W2:
    a: int
    i: Annotated[In, Flattened(), JsonConverter(Odd({'a': 1}))]
""", [("SER", "W(In(1))", "W"), ("SER", "W2(1, In(1))", "W2")]),
    ("a value a delegating converter does not take", """
class Deleg:
    def dump(self): return 'd'
    @classmethod
    def load(cls, v): return cls()
J1 = JsonConverter(DelegateToClassmethodConverter(str, serialize='dump', deserialize='load'))
J2 = JsonConverter(DelegateToClassmethodConverter((str, int), serialize='dump', deserialize='load'))
W = Annotated[Deleg, J1]
W2 = Annotated[Deleg, J2]
@JsonConverter.using_classmethods(str, serialize='dump', deserialize='load')
class W3(Deleg): pass
""", [("SER", "5", "W"), ("DES", "5", "W"), ("SER", "5", "W2"), ("DES", "[5]", "W2"), ("SER", "5", "W3"), ("DES", "[]", "W3")]),
    ("several item or key types", """
class W(List[int], t.Collection[str]):
    pass
class W2(Dict[str, int], t.Mapping[int, str]):
    pass
class W3(list):
    pass
class W4(dict):
    pass
""", [("SER", "W()", "W"), ("DES", "[1]", "W"), ("SER", "W2()", "W2"), ("DES", "{}", "W2"), ("DES", "[1]", "W3"), ("DES", "{}", "W4"), ("DES", "[1]", "list"), ("DES", "{}", "dict"), ("DES", "[1]", "set")]),
]
KEYS = ["'k'", "''", "0", "-1", "True", "None", "1.5", "(1, 2)", "b'x'", "Color.RED", "x", "val('k', str)", "val('n', int)", "val('any')", "frozenset()"]


def cases():
    for what, (hint, payload, value, places) in WHERE.items():
        for d in ("deserialize", "serialize"):
            rows = ", ".join(f"({o}, {kd if d == 'deserialize' else ks})" for o, kd, ks in places)
            yield case(f"{d}: contexts of {what}", SETUP, f"""
fn = choice("file name", None, 'data.json', '')
v = {payload if d == 'deserialize' else value}
r = attempt(mapper().{d}, v, {hint}, fn)
claim(r[0] == "ok", "{d} {what}: fails with", r[1])
seen = [c[1] for c in logged("ctx") if c[1].value is not None and c[1].value != 0]
want = [{rows}]
claim(len(seen) == len(want), "{d} {what}: converted in contexts", [keys(c) for c in seen])
if len(seen) == len(want):
    for c, (o, ks) in zip(seen, want):
        claim(same(c.value, o) and keys(c) == ks, "{d} {what}: the context of", o, "is", keys(c), "instead of", ks)
        check_chain(c, {'DES' if d == 'deserialize' else 'SER'}, fn, "{d} {what}")
        claim(up(c)[0].value is v, "{d} {what}: the root context holds", up(c)[0].value)
""")
            yield case(f"{d}: an error among {what}", SETUP, f"""
fn = choice("file name", None, 'data.json')
v = {payload if d == 'deserialize' else value}
r = attempt(mapper(True).{d}, v, {hint}, fn)
claim(r[0] == "conv", "{d} {what}: fails with", r[1])
if r[0] == "conv":
    first = logged("ctx")[0][1]
    e = r[1]
    {'e = [p[1] for p in e.errors][-1]' if 'plain' in what or 'optional unions' in what else ''}
    claim(e.context is first or keys(e.context) == keys(first), "{d} {what}: an error is reported for", keys(e.context), "instead of", keys(first))
    trace = attempt(format_context_trace, e.context)
    claim(trace[0] == "ok" and exact(trace[1], str), "{d} {what}: formatting the error fails with", trace[1])
    n = len(up(e.context)) + (1 if fn else 0)
    claim(trace[0] != "ok" or len(lines(trace[1])) == n, "{d} {what}: the trace has not one entry per level:", trace[1])
""")
    for i, (hint, v, d, want) in enumerate(ERR):
        yield case(f"{'deserialize' if d == 'd' else 'serialize'} {v} as {hint}", SETUP, f"""
r = attempt(M.{'deserialize' if d == 'd' else 'serialize'}, {v}, {hint}, 'f.json')
claim(r[0] == "conv", "gives", r[1])
if r[0] == "conv":
    claim(keys(r[1].context) == {want}, "the error is reported for", keys(r[1].context), "instead of", {want})
    claim(isinstance(r[1].origin, (Converter, Module)), "the error's origin is", r[1].origin)
    check_chain(r[1].context, {'DES' if d == 'd' else 'SER'}, 'f.json', "the error")
    trace = attempt(format_context_trace, r[1].context)
    claim(trace[0] == "ok" and len(lines(trace[1])) == len({want}) + 1, "the trace is", trace[1])
    for c, line in zip(up(r[1].context)[1:], lines(trace[1])[2:]):
        claim(c.key is None or mentions(line, c.key), "the trace entry of", c.key, "is", line)
""")
    # ---- the trace: keys of any type, levels, locations
    for k in KEYS:
        yield case(f"a trace with the key {k}", SETUP, f"""
k = {k}
root = Context(None, choice("direction", SER, DES), x, TypeHint(Any), Settings(), R, Location.EMPTY, None)
c = root.spawn(y, List[int], k)
d = c.spawn(z, int, 'leaf')
for i, ctx in enumerate((root, c, d)):
    r = attempt(format_context_trace, ctx)
    claim(r[0] == "ok", "formatting a trace with the key {k} fails with", r[1])
    if r[0] == "ok":
        ls = lines(r[1])
        claim(len(ls) == i + 1, "the trace of level", i, "has", len(ls), "lines")
        if i >= 1 and {k not in ("None", "''")}:
            claim(k is None or mentions(ls[1], k), "the entry of the key is", ls[1])
        if i == 2:
            claim(mentions(ls[2], 'leaf') and not mentions(ls[0], 'leaf') and not mentions(ls[1], 'leaf'), "levels are not listed from the root down:", ls)
e = ConversionError(Probe(False), d, 'bad')
s = attempt(e.__str__)
claim(s[0] == "ok" and exact(s[1], str), "str() of an error with the key {k} fails with", s[1])
""")
    yield case("spawned contexts", SETUP, """
loc = choice("location", Location.EMPTY, Location('a.json', 3, 4), Location('a.json', None, None), Location(None, 1, None))
s, f = Settings(), (lambda c: c)
root = Context(None, choice("direction", SER, DES), x, TypeHint(Any), s, R, loc, f)
k = choice("key", 'k', 0, None, '', y)
own = choice("own location", None, Location('b.json', 7, 8), Location.EMPTY)
h = choice("hint", int, List[int], TypeHint(str), Annotated[int, 1])
c = root.spawn(y, h, k) if own is None else root.spawn(y, h, k, own)
claim(c.parent is root and c.direction is root.direction and same(c.value, y) and same(c.key, k), "spawned:", c.key)
claim(c.settings is s and c.convert_func is f, "settings or dispatcher are not inherited")
claim(isinstance(c.datatype, TypeHint), "the datatype is", c.datatype)
claim(c.datatype is h if isinstance(h, TypeHint) else c.datatype == TypeHint(h), "the datatype is", c.datatype)
if own is None:
    claim(c.location.filename == loc.filename and c.location.line is None and c.location.column is None, "the location is", c.location)
else:
    claim(c.location == own, "the location is", c.location)
claim(same(root.key, R) and root.location == loc and same(root.value, x), "the parent is changed")
claim([q for q in c.iter_hierarchy_up()] == [c, root], "hierarchy:", [q.key for q in c.iter_hierarchy_up()])
claim(attempt(c.convert)[1] is c, "convert() does not pass the context itself")
""")
    yield case("contexts reject a missing location or root", SETUP, """
r = attempt(Context, None, SER, x, TypeHint(Any), Settings(), 'k', Location.EMPTY, None)
claim(r[0] == "exc", "a root context without root key is accepted")
r = attempt(Context, None, SER, x, TypeHint(Any), Settings(), R, None, None)
claim(r[0] == "exc", "a context without location is accepted")
""")
    yield case("locations in the trace", SETUP, """
root = Context(None, SER, x, TypeHint(Any), Settings(), R, Location('a.json', 1, 2), None)
c = root.spawn(y, int, 'p')
d = c.spawn(z, int, 'q', Location('b.json', 5, 6))
e = d.spawn(z, int, 'r')
r = attempt(format_context_trace, e)
claim(r[0] == "ok", "fails", r[1])
ls = lines(r[1])
claim(len([l for l in ls if mentions(l, 'a.json')]) == 1 and len([l for l in ls if mentions(l, 'b.json')]) == 1, "file names:", ls)
body = [l for l in ls if not mentions(l, 'a.json') and not mentions(l, 'b.json')]
claim(len(body) == 4, "entries:", body)
if len(body) == 4:
    claim(mentions(body[1], 'p') and mentions(body[2], 'q') and mentions(body[3], 'r'), "entries:", body)
    claim(mentions(body[0], 1) and mentions(body[0], 2) and mentions(body[2], 5) and mentions(body[2], 6), "positions:", body)
""")
    yield case("partial positions in the trace", SETUP, """
line, col = choice("line", None, 11), choice("column", None, 22)
f = choice("file name", None, 'a.json')
at_root = choice("position of", True, False)
here = Location(f, line, col)
root = Context(None, SER, x, TypeHint(Any), Settings(), R, here if at_root else Location(f, None, None), None)
c = root.spawn(y, int, 'p') if at_root else root.spawn(y, int, 'p', here)
r = attempt(format_context_trace, c)
claim(r[0] == "ok", "fails", r[1])
ls = lines(r[1])[0 if f is None else 1:]
claim(len(ls) == 2 and mentions(ls[1], 'p'), "entries:", ls)
own, other = (ls[0], ls[1]) if at_root else (ls[1], ls[0])
for n in (line, col):
    claim(n is None or mentions(own, n), "the entry does not mention", n, "but is", own)
claim(not mentions(other, 11) and not mentions(other, 22), "another level mentions the position:", other)
""")
    yield case("file names in the trace", SETUP, """
names = [choice("first", None, 'a.json'), choice("second", None, 'a.json', 'b.json'), choice("third", None, 'a.json', 'b.json'), choice("fourth", None, 'b.json')]
ctx = None
for i, n in enumerate(names):
    loc = Location(n, None, None)
    ctx = Context(None, SER, x, TypeHint(Any), Settings(), R, loc, None) if ctx is None else ctx.spawn(y, int, 'key%d' % i, loc)
r = attempt(format_context_trace, ctx)
claim(r[0] == "ok", "fails", r[1])
# the file an entry is read as belonging to: the last one named above it
current, seen = None, []
for l in lines(r[1]):
    named = [n for n in ('a.json', 'b.json') if mentions(l, n)]
    if named:
        current = named[-1]
    else:
        seen.append(current)
last, want = None, []
for n in names:
    last = n if n is not None else last
    want.append(last)
claim(seen == want, "the entries are listed under the files", seen, "instead of", want)
total = len([l for l in lines(r[1]) if mentions(l, 'a.json') or mentions(l, 'b.json')])
claim(total == len([i for i, n in enumerate(want) if n is not None and (i == 0 or want[i - 1] != n)]), "file names are repeated:", lines(r[1]))
""")
    yield case("the message names every cause", SETUP, """
texts = ['alpha', 'beta', 'gamma']
root = Context(None, SER, x, TypeHint(Any), Settings(), R, Location.EMPTY, None)
deep = root.spawn(y, int, 'leafkey')
made = [choice("first cause", ValueError('alpha'), ConversionError(Probe(False), deep, 'alpha')),
        choice("second cause", ConversionError(Probe(False), deep, 'beta', [(Probe(False), ValueError('inner'))]), TypeError('beta'), NotImplementedError('beta')),
        choice("third cause", RuntimeError('gamma'), None)]
own = Probe(False)
causes = [(choice("attributed to", own, Probe(False)), e) for e in made if e is not None]
silent = choice("a cause without a text", None, NotImplementedError(), ValueError())
if silent is not None:
    causes.insert(choice("position", 0, 1), (Probe(False), silent))
e = ConversionError(own, deep, 'outermessage', causes)
s = attempt(text, e)
claim(s[0] == "ok" and exact(s[1], str), "str() fails with", s[1])
if s[0] == "ok":
    ls = lines(s[1])
    def at(what):
        return [i for i, l in enumerate(ls) if mentions(l, what)]
    claim(at('outermessage') == [0], "the message comes in lines", at('outermessage'))
    claim(at('leafkey') and at('leafkey')[0] > 0, "the trace is missing:", ls)
    last = at('leafkey')[0] if at('leafkey') else 0
    for t_ in texts[:len([e for e in made if e is not None])]:
        claim(len(at(t_)) == 1, "the cause", t_, "is mentioned", len(at(t_)), "times")
        claim(not at(t_) or at(t_)[0] > last, "the causes are out of order:", ls)
        last = at(t_)[0] if at(t_) else last
    claim(exact(made[1], ConversionError) is False or at('inner'), "the cause of a cause is missing:", ls)
""")
    yield case("printing an error never fails", SETUP, """
class Boom(Exception):
    pass
class Bad:
    def __repr__(self): raise Boom('no repr')
    def __str__(self): raise Boom('no str')
class BadConverter(Converter):
    def __repr__(self): raise Boom('no repr')
    def convert(self, ctx): raise NotImplementedError
class BadError(Exception):
    def __str__(self): raise Boom('no str')
root = Context(None, SER, Bad(), TypeHint(Any), Settings(), R, Location.EMPTY, None)
key = choice("key", 'k', Bad())
c = root.spawn(Bad(), int, key)
o = choice("origin", Probe(False), BadConverter())
causes = choice("causes", None, [(BadConverter(), ValueError('v'))], [(Probe(False), BadError())])
e = choice("error", ConversionError(o, c, 'msg', causes), NoMatchingConverter(o, c, causes))
s = attempt(text, e)
claim(s[0] == "ok" and isinstance(s[1], str), "printing the error gives", s[1])
""")
    yield case("errors of converters in the message", SETUP, """
class Named(Converter):
    def __init__(self, n):
        self.n = n
    def convert(self, ctx):
        raise ConversionError(self, ctx, self.n)
m = ObjectMapper()
one, two = Named('one'), Named('two')
m.module.register(one)
m.module.register(two)
r = attempt(m.serialize, x, K)
claim(r[0] == "conv" and isinstance(r[1], NoMatchingConverter), "gives", r[1])
claim([p[0] for p in r[1].errors] == [one, two] and [p[1].message for p in r[1].errors] == ['one', 'two'], "carries", r[1].errors)
s = attempt(r[1].__str__)
claim(s[0] == "ok" and exact(s[1], str), "str() fails with", s[1])
e = ConversionError(one, r[1].context, 'outer', [(one, ValueError('v')), (two, KeyError('k'))])
s = attempt(e.__str__)
claim(s[0] == "ok" and exact(s[1], str), "str() fails with", s[1])
e = ConversionError.expected(one, r[1].context, choice("types", int, (int, str), [int]), choice("got", None, str))
claim(e.origin is one and e.context is r[1].context and exact(e, ConversionError), "expected() gives", e)
s = attempt(e.__str__)
claim(s[0] == "ok", "str() fails with", s[1])
""")
    # ---- any error of any built-in converter
    hints = {h: e[0] for h, e in HINTS.items()}
    hints.update(C01.MORE)
    for h, expr in hints.items():
        for v, what in [(v, f"a {k}") for k, v in KINDS.items()] + [(v, v.replace('"', "'")) for v in list(C01.CONTENT.values()) + C01.NAMED.get(h, [])]:
            yield case(f"the error converting {what} as {h} ({expr})", TYPES + C01.EXTRA + WELL, f"""
v = {v}
d = choice("direction", DES, SER)
r = attempt(M.convert, d, v, {expr})
if r[0] == "conv":
    well(r[1], v, d, "{what} as {expr}:")
""", max_paths=150)
    for name, decl, attempts in BROKEN:
        for d, v, h in attempts:
            yield case(f"the error about {name}: {v} as {h}", TYPES + WELL + decl, f"""
v = {v}
r = attempt(M.convert, {d}, v, {h})
claim(r[0] == "conv", "converting {v} as {h} gives", r[1])
if r[0] == "conv":
    well(r[1], v, {d}, "{v} as {h}:")
""")
