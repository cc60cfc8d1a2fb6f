"""C30: Optional accepts None and otherwise defers to the wrapped type; Literal and Any accept what they say."""
from .common import *

RULE = ("on every path, a value of an optional type converts to None exactly if it is None, and otherwise ends as the conversion as "
        "the type without None does (same result, same kind of error); a literal type accepts exactly the values listed and returns "
        "the value; Any and object return the value itself")

SETUP = TYPES + """
from typeapi import ClassTypeHint
class Mine:
    pass
class Conv(Converter):
    "converts Mine as told, and records what it is asked to convert"
    def __init__(self, act, result=None):
        self.act, self.result = act, result
    def convert(self, ctx):
        if not (isinstance(ctx.datatype, ClassTypeHint) and ctx.datatype.type is Mine):
            raise NotImplementedError
        log("conv", ctx.value, ctx.key, ctx.direction)
        if self.act == "ret":
            return self.result
        if self.act == "fail":
            self.error = ConversionError(self, ctx, "no")
            raise self.error
        raise NotImplementedError
def defer(v, opt, inner, d):
    "conversion as the optional type ends as conversion as the wrapped type"
    q = attempt(M.convert, d, v, inner)
    r = attempt(M.convert, d, v, opt)
    claim(r[0] == q[0], "as optional it ends in", r[0], r[1], "and as the wrapped type in", q[0], q[1])
    if r[0] == "ok" and q[0] == "ok":
        claim(same(r[1], q[1]) or eqv(r[1], q[1]), "as optional gives", r[1], "and as the wrapped type", q[1])
"""
FALSY = ["0", "''", "False", "[]", "{}", "()", "0.0", "b''", "set()", "frozenset()", "Decimal(0)"]
SPELLINGS = ["Optional[{}]", "t.Union[{}, None]", "t.Union[None, {}]", "Annotated[Optional[{}], 'x']", "Optional[Annotated[{}, 'x']]", "{} | None"]
FILLERS = {"int": "int", "List[int]": "list"}


def cases():
    for h, (expr, _, _) in HINTS.items():
        for i, sp in enumerate(SPELLINGS):
            if sp == "{} | None" and not h in ("int", "float", "str", "bool", "bytes", "decimal", "dataclass", "enum", "date", "path"):
                continue
            q = sp.format(expr)
            yield case(f"None as {q}", SETUP, f"""
d = choice("direction", SER, DES)
r = attempt(M.convert, d, None, {q})
claim(r[0] == "ok" and r[1] is None, "None converts to", r[1])
""")
            for j, v in enumerate(FALSY):
                if (i + j) % 3 and h not in ("int", "str", "list", "bool", "dict", "dataclass"):
                    continue
                yield case(f"{v} as {q}", SETUP, f"""
d = choice("direction", SER, DES)
defer({v}, {q}, {expr}, d)
r = attempt(M.convert, d, {v}, {q})
claim(r[0] != "ok" or r[1] is not None, "a value other than None converts to None")
""")
        yield case(f"values that compare oddly as Optional[{expr}]", SETUP + """
class Odd:
    def __init__(self, eq):
        self.eq = eq
    def __eq__(self, o): return self.eq
    def __ne__(self, o): return self.eq
    __hash__ = None
class NoLen:
    def __len__(self): return 0
    def __bool__(self): return False
""", f"""
d = choice("direction", SER, DES)
v = choice("value", float('nan'), float('inf'), Odd(True), Odd(False), NoLen(), type(None), Ellipsis, NotImplemented, 'None', 'null', float('-inf'))
h = choice("hint", Optional[{expr}], t.Union[None, {expr}])
r = attempt(M.convert, d, v, h)
claim(r[0] != "ok" or r[1] is not None, "a value other than None converts to None")
q = attempt(M.convert, d, v, {expr})
claim(r[0] == q[0], "as optional it ends in", r[0], r[1], "and as the wrapped type in", q[0], q[1])
if r[0] == "ok" and d is SER:
    claim(same(r[1], q[1]) or eqv(r[1], q[1]) or r[1] != r[1], "as optional gives", r[1], "and as the wrapped type", q[1])
""")
        for k in KINDS:
            if k == "none":
                continue
            yield case(f"a {k} value as Optional[{expr}]", SETUP, f"""
d = choice("direction", SER, DES)
v = {KINDS[k]}
defer(v, Optional[{expr}], {expr}, d)
""", max_paths=40)
    # with a converter of its own: what is asked of it and what becomes of the result
    for res in ("None", "0", "''", "False", "[]", "atom('r')"):
        yield case(f"a converter returning {res} for the wrapped type", SETUP, f"""
r0 = {res}
m = get_object_mapper()
m.module.register(Conv("ret", r0))
h = choice("hint", Optional[Mine], t.Union[None, Mine], Annotated[Optional[Mine], 'x'])
v = choice("value", 0, '', False, [], Mine(), atom('v'))
d = choice("direction", SER, DES)
r = attempt(m.convert, d, v, h)
claim(r[0] == "ok" and same(r[1], r0), "the result of the wrapped type's converter turns into", r[1])
c = logged("conv")
claim(len(c) == 1 and same(c[0][1], v) and c[0][2] is None and c[0][3] is d, "the wrapped type's converter is asked for", c)
r = attempt(m.convert, d, None, h)
claim(r[0] == "ok" and r[1] is None and len(logged("conv")) == 1, "None converts to", r[1], "asking for", logged("conv"))
""")
    yield case("a converter failing for the wrapped type", SETUP, """
c = Conv("fail")
m = get_object_mapper()
m.module.register(c)
h = choice("hint", Optional[Mine], t.Union[None, Mine], Annotated[Optional[Mine], 'x'])
v = choice("value", 0, '', False, Mine(), atom('v'))
d = choice("direction", SER, DES)
r = attempt(m.convert, d, v, h)
claim(r[0] == "conv", "converted to", r[1])
r = attempt(m.convert, d, None, h)
claim(r[0] == "ok" and r[1] is None, "None converts to", r[1])
""")
    yield case("no converter for the wrapped type", SETUP, """
m = get_object_mapper()
m.module.register(Conv("decline"))
d = choice("direction", SER, DES)
v = choice("value", 0, '', Mine(), atom('v'))
r = attempt(m.convert, d, v, Optional[Mine])
claim(r[0] == "conv", "converted to", r[1])
r = attempt(m.convert, d, None, Optional[Mine])
claim(r[0] == "ok" and r[1] is None, "None converts to", r[1])
""")
    # optional unions of several members
    yield case("an optional union", SETUP, """
h = choice("hint", t.Union[int, str, None], t.Union[None, int, str], Optional[t.Union[int, str]], t.Union[int, None, str], Annotated[t.Union[int, str, None], 'x'])
d = choice("direction", SER, DES)
v = choice("value", val('v', int), val('v', str), 0, '', [], {}, val('v', float), atom('v'))
defer(v, h, t.Union[int, str], d)
r = attempt(M.convert, d, None, h)
claim(r[0] == "ok" and r[1] is None, "None converts to", r[1])
""")
    # None where it is not declared
    for h, (expr, _, _) in HINTS.items():
        yield case(f"None as {expr}", SETUP, f"""
d = choice("direction", SER, DES)
for x in ({expr}, Annotated[{expr}, 'x']):
    r = attempt(M.convert, d, None, x)
    claim(r[0] == "conv", "None is accepted without being declared, giving", r[1])
""")
    yield case("optional elements and fields", SETUP, """
@dataclass
class D:
    a: Optional[int]
    b: Optional[Pt]
    c: Optional[List[Optional[str]]]
d = choice("direction", SER, DES)
a, b, c = choice("a", None, 0, val('a', int)), choice("b", None, Pt(0, '')), choice("c", None, [], [None], ['', None])
pb = None if b is None else {'x': 0, 'y': ''}
if d is SER:
    r = attempt(M.serialize, D(a, b, c), D)
    claim(r[0] == "ok" and same(r[1]['a'], a) and eqv(r[1]['b'], pb) and eqv(r[1]['c'], c), "written as", r[1])
else:
    r = attempt(M.deserialize, {'a': a, 'b': pb, 'c': c}, D)
    claim(r[0] == "ok" and same(r[1].a, a) and eqv(r[1].c, c), "read as", r[1])
    claim(r[1].b is None if b is None else exact(r[1].b, Pt) and r[1].b.x == 0 and r[1].b.y == '', "read as", r[1].b)
r = attempt(M.deserialize, {'a': a, 'b': pb, 'c': [0]}, D)
claim(r[0] == "conv", "an element of another type is read as", r[1])
""")
    yield case("None of a dictionary or tuple", SETUP, """
d = choice("direction", SER, DES)
r = attempt(M.convert, d, {'k': None, 'l': 0}, Dict[str, Optional[int]])
claim(r[0] == "ok" and eqv(r[1], {'k': None, 'l': 0}), "converted to", r[1])
r = attempt(M.convert, d, {'k': None}, Dict[str, int])
claim(r[0] == "conv", "converted to", r[1])
r = attempt(M.convert, d, (None, 0), Tuple[Optional[int], Optional[int]])
claim(r[0] == "ok" and list(r[1]) == [None, 0], "converted to", r[1])
r = attempt(M.convert, d, [None, 0], List[int])
claim(r[0] == "conv", "converted to", r[1])
""")
    # ---- literals
    LITS = ["'a'", "'a', 'b'", "1", "0, ''", "None", "True", "False, 'x'", "1, 'a', None", "''"]
    for lit in LITS:
        for w in ("Literal[{}]", "Annotated[Literal[{}], 'x']", "List[Literal[{}]]", "Optional[Literal[{}]]"):
            q = w.format(lit)
            li = w.startswith("List")
            yield case(f"listed values as {q}", SETUP, f"""
d = choice("direction", SER, DES)
v = choice("value", {lit})
r = attempt(M.convert, d, {'[v]' if li else 'v'}, {q})
claim(r[0] == "ok", "a listed value fails with", r[1])
claim(r[0] != "ok" or same({'r[1][0]' if li else 'r[1]'}, v), "converted to", r[1])
""")
            yield case(f"other values as {q}", SETUP, f"""
d = choice("direction", SER, DES)
v = choice("value", 'zz', 'A', 'a ', -1, 2, 7.5, [], {{}}, [1], ('a',), {{'a': 1}}, b'a', b'', atom('v'), Pt(1), Color.RED, Mine())
r = attempt(M.convert, d, {'[v]' if li else 'v'}, {q})
claim(r[0] == "conv", "a value that is not listed is converted to", r[1])
""")
            if "None" not in lit and not w.startswith("Opt"):
                yield case(f"None as {q}", SETUP, f"""
d = choice("direction", SER, DES)
r = attempt(M.convert, d, {'[None]' if li else 'None'}, {q})
claim(r[0] == "conv", "a value that is not listed is converted to", r[1])
""")
        yield case(f"an unknown text as Literal[{lit}]", SETUP, f"""
d = choice("direction", SER, DES)
s = val('s', str)
r = attempt(M.convert, d, s, Literal[{lit}])
hit = [x for x in ({lit},) if isinstance(x, str) and x == s]
claim(r[0] == ("ok" if hit else "conv"), "converted to", r[1], "equal to", hit)
claim(r[0] != "ok" or same(r[1], s), "converted to", r[1])
""")
    # ---- Any
    for hint in ("Any", "object", "Annotated[Any, 'x']", "Annotated[object, 'x']", "Optional[Any]"):
        yield case(f"{hint} returns the value", SETUP, f"""
class Eq:
    def __eq__(self, o): raise RuntimeError("compared")
    def __bool__(self): raise RuntimeError("truth value used")
    __hash__ = None
d = choice("direction", SER, DES)
v = choice("value", atom('v'), None, 0, '', False, [], {{}}, [1, [2]], {{'a': {{1}}}}, (1,), b'x', {{1, 2}}, Pt(1), Color.RED, Eq(), Mine(), val('s', str), val('f', float), Pt, lambda: 0, (i for i in [1]), NotImplemented, NotSet)
s = choice("settings", None, [Strict(False)], [SerializeDefaults(True)], [Remainder()], [Alias('x')])
r = attempt(M.serialize if d is SER else M.deserialize, v, {hint}, None, s)
claim(r[0] == "ok" and same(r[1], v), "converted to", r[1])
""", max_paths=1000)
        yield case(f"{hint} inside containers", SETUP, f"""
d = choice("direction", SER, DES)
v = choice("value", atom('v'), None, 0, [], val('s', str), Mine(), {{'a': 1}})
r = attempt(M.convert, d, [v], List[{hint}])
claim(r[0] == "ok" and same(r[1][0], v), "converted to", r[1])
r = attempt(M.convert, d, {{'k': v}}, Dict[str, {hint}])
claim(r[0] == "ok" and same(r[1]['k'], v), "converted to", r[1])
@dataclass
class D:
    f: {hint}
r = attempt(M.convert, d, D(v) if d is SER else {{'f': v}}, D)
claim(r[0] == "ok" and same(r[1]['f'] if d is SER else r[1].f, v), "converted to", r[1])
""")
