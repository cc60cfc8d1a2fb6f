"""C16: each scalar codec decodes with the inverse of what it encodes with."""
from .common import *

RULE = ("for every scalar codec, hint and setting, the text written is produced by the counterpart of the operation that reads "
        "it, applied to the value itself, so that reading what was written yields the value (or provably the inverse operation "
        "on it); Precision and DateFormat reach the codec in the direction(s) they apply to")

SETUP = TYPES + """
class MyStr(str):
    pass
class Temp:
    pass
class SubTemp(Temp):
    pass
class Swap(enum.Enum):
    A: Annotated[int, Alias('B')] = 1
    B: Annotated[int, Alias('C')] = 2
    C: Annotated[int, Alias('A')] = 3
"""

# declared type: (hint, value, text type)
CODECS = {
    "bytes": ("bytes", "val('v', bytes)"),
    "Decimal": ("Decimal", "val('v', Decimal)"),
    "a Decimal subclass": ("MyDec", "val('v', MyDec)"),
    "date": ("date", "val('v', date)"),
    "datetime": ("datetime.datetime", "val('v', datetime.datetime)"),
    "time": ("time", "val('v', time)"),
    "Enum": ("Color", "choice('member', Color.RED, Color.GREEN)"),
    "Enum with aliases": ("Tag", "choice('member', Tag.CAT, Tag.DOG)"),
    "Enum with names as aliases": ("Swap", "choice('member', Swap.A, Swap.B, Swap.C)"),
    "IntEnum": ("Num", "choice('member', Num.ONE, Num.TWO)"),
    "UUID": ("uuid.UUID", "val('v', uuid.UUID)"),
    "a UUID subclass": ("MyUUID", "val('v', MyUUID)"),
    "Path": ("pathlib.Path", "val('v', pathlib.PosixPath)"),
    "PosixPath": ("pathlib.PosixPath", "val('v', pathlib.PosixPath)"),
    "PurePath": ("pathlib.PurePath", "val('v', pathlib.PurePosixPath)"),
    "PurePosixPath": ("pathlib.PurePosixPath", "val('v', pathlib.PurePosixPath)"),
    "duration": ("duration", "val('v', duration)"),
}


def cases():
    for what, (hint, value) in CODECS.items():
        for wrap in ("{h}", "Annotated[{h}, 'x']", "Optional[{h}]", "Annotated[Optional[{h}], 'x']"):
            h = wrap.format(h=hint)
            yield case(f"{what} ({h}): what is written is read back", SETUP, f"""
v = {value}
r = attempt(M.serialize, v, {h})
claim(r[0] in ("ok", "conv"), "writing fails", r[1])
{'claim(r[0] == "ok", "writing fails", r[1])' if hint not in ("date", "datetime.datetime", "time") else ''}
if r[0] == "ok":
    claim(exact(r[1], {'int' if what == 'IntEnum' else 'str'}), "written as", r[1])
    claim({'True' if 'num' in what or 'Enum' in what else 'derived(r[1], v)'}, "the text does not come from the value:", r[1])
    b = attempt(M.deserialize, r[1], {h})
    claim(b[0] == "ok", "reading back what was written fails:", b[1])
    claim(b[0] != "ok" or same(b[1], v) or eqv(b[1], v), "reads back as", b[1])
""")
    # ---- which text is produced
    for what, hint, value, want in [
        ("bytes", "bytes", "val('v', bytes)", "made_by(r[1], 'decode') and derived(r[1], v)"),
        ("decimal", "Decimal", "val('v', Decimal)", "made_by(r[1], 'str', v)"),
        ("UUID", "uuid.UUID", "val('v', uuid.UUID)", "made_by(r[1], 'str', v)"),
        ("path", "pathlib.Path", "val('v', pathlib.PosixPath)", "made_by(r[1], 'str', v)"),
        ("pure path", "pathlib.PurePath", "val('v', pathlib.PurePosixPath)", "made_by(r[1], 'str', v)"),
        ("duration", "duration", "val('v', duration)", "made_by(r[1], 'str', v)"),
        ("enum", "Color", "Color.GREEN", "r[1] == 'GREEN'"), ("int enum", "Num", "Num.TWO", "r[1] == 2"),
        ("aliased enum", "Tag", "Tag.CAT", "r[1] == 'kitty'"), ("enum without alias", "Tag", "Tag.DOG", "r[1] == 'DOG'"),
    ]:
        yield case(f"text of a {what}", SETUP, f"""
v = {value}
r = attempt(M.serialize, v, {hint})
claim(r[0] == "ok" and ({want}), "written as", r[1])
""")
    for what, hint, op in [("bytes", "bytes", "derived(r[1], v)"), ("decimal", "Decimal", "made_by(r[1], 'Decimal', v)"),
                           ("decimal subclass", "MyDec", "derived(r[1], v) and exact(r[1], MyDec)"),
                           ("UUID", "uuid.UUID", "made_by(r[1], 'UUID', v)"), ("UUID subclass", "MyUUID", "made_by(r[1], 'UUID', v) and exact(r[1], MyUUID)"),
                           ("path", "pathlib.Path", "made_by(r[1], 'Path', v) and isinstance(r[1], pathlib.Path)"),
                           ("pure path", "pathlib.PurePath", "made_by(r[1], 'Path', v) and exact(r[1], pathlib.PurePosixPath)"),
                           ("duration", "duration", "derived(r[1], v) and exact(r[1], duration)")]:
        yield case(f"reading a {what}", SETUP, f"""
v = val('v', str)
r = attempt(M.deserialize, v, {hint})
claim(r[0] in ("ok", "conv"), "reading any text fails with", r[1])
claim(r[0] != "ok" or ({op}), "read as", r[1])
""")
    # ---- enums
    for name in ("mro", "__class__", "__members__", "__name__", "name", "value", "_value2member_map_", "helper", "shout", "CONST", "_hidden", "RED.name", "red", "1", ""):
        for hint in ("E", "Annotated[E, 'x']", "Dict[E, int]"):
            for kind in ("enum.Enum", "str, enum.Enum"):
                yield case(f"the text {name!r} names no member of {hint} ({kind})", SETUP + f"""
class E({kind}):
    RED = 'r'
    BLUE = 'b'
    def helper(self): return 1
    @classmethod
    def shout(cls): return cls.RED
    _hidden: Any
E.CONST = 7
""", f"""
r = attempt(M.deserialize, {{{name!r}: 1}} if {hint!r}[0] == 'D' else {name!r}, {hint})
claim(r[0] == "conv", "the text {name} is read as", r[1])
""")
    yield case("every enum member by its own name only", SETUP + """
class Same(enum.Enum):
    A = 1
    B = 2
    ALSO_A = 1
class Texts(enum.Enum):
    A = 'B'
    B = 'A'
class Ints(enum.IntEnum):
    A = 2
    B = 1
class StrEnum(str, enum.Enum):
    A = 'b'
    B = 'a'
class Falsy(enum.Enum):
    NO = 0
    NONE = None
class Own(enum.Enum):
    RED = 'r'
    BLUE = 'red'
    ONE = 1
    PAIR = ('r', 'b')
class FalsyInt(enum.IntEnum):
    ZERO = 0
    ONE = 1
""", """
for e in (Texts, StrEnum, Falsy, Color):
    for m in e:
        r = attempt(M.serialize, m, e)
        claim(r[0] == "ok" and same(r[1], m.name), m.name, "written as", r[1])
        b = attempt(M.deserialize, m.name, e)
        claim(b[0] == "ok" and b[1] is m, m.name, "read as", b[1])
for m in Ints:
    r = attempt(M.serialize, m, Ints)
    claim(r[0] == "ok" and same(r[1], m.value), m.name, "written as", r[1])
    b = attempt(M.deserialize, m.value, Ints)
    claim(b[0] == "ok" and b[1] is m, m.value, "read as", b[1])
b = attempt(M.deserialize, 0, FalsyInt)
claim(b[0] == "ok" and b[1] is FalsyInt.ZERO, "0 read as", b[1])
b = attempt(M.deserialize, 'ALSO_A', Same)
claim(b[0] == "ok" and b[1] is Same.A, "an enum alias is read as", b[1])
for v in ('r', 'red', 'Red', 'blue', 'BLUE ', '1', 1, 'b', 'RED,BLUE', 'RED|BLUE', 'Own.RED', ('r', 'b'), None, 'PAIRS'):
    r = attempt(M.deserialize, v, Own)
    claim(r[0] == "conv", "no member's name,", v, ", is read as", r[1])
o = val('o', str)
r = attempt(M.deserialize, o, Own)
claim((r[0] == "ok") == (o in ('RED', 'BLUE', 'ONE', 'PAIR')), "any text as Own gives", r[1])
claim(r[0] != "ok" or r[1].name == o, o, "is read as", r[1])
for v in ('ONE', '2', 2, '1', None, 0.5):
    r = attempt(M.deserialize, v, FalsyInt)
    claim(r[0] == "conv", "no member's value,", v, ", is read as", r[1])
v = val('s', str)
r = attempt(M.deserialize, v, Color)
claim(r[0] == ("ok" if v in ('RED', 'GREEN') else "conv"), "any text as Color gives", r[1])
claim(r[0] != "ok" or r[1] is (Color.RED if v == 'RED' else Color.GREEN), "read as", r[1])
i = val('i', int)
r = attempt(M.deserialize, i, Num)
claim(r[0] == ("ok" if i in (1, 2) else "conv"), "any int as Num gives", r[1])
""")
    # ---- DateFormat: the same resolved setting in both directions, whatever its source
    for src in ("call", "global", "local", "annotation", "conditional", "default", "priority"):
        for h in ("date", "time", "datetime.datetime"):
            cls = h.split(".")[-1]
            yield case(f"date format of {h} from {src}", SETUP, f"""
f1, f2 = {cls}_format.compile('one'), {cls}_format.compile('two')
s = DateFormat(f1, f2)
m = get_object_mapper()
hint = {h}
call = None
src = {src!r}
if src == "call":
    call = [s]
if src == "global":
    m.settings.add_global(s)
if src == "local":
    m.settings.add_local({h}, s)
if src == "conditional":
    m.settings.add_conditional(lambda ctx: True, s)
if src == "annotation":
    hint = Annotated[{h}, s]
    call = [DateFormat('{cls} other')]
if src == "priority":
    pass
v = val('v', {h})
r = attempt(m.serialize, v, hint, None, call)
fm = events("formatted")
if r[0] == "ok":
    claim(len(fm) == 1 and fm[0][1] is v and made_by(r[1], "fmt", v), "formatted by", fm)
    claim(src in ("default", "priority") or fm[0][0] is f1 or fm[0][0] is f2, "the setting does not reach the formatter:", fm)
    if src in ("default", "priority") or fm[0][0] is f1:
        b = attempt(m.deserialize, r[1], hint, None, call)
        claim(b[0] == "ok" and same(b[1], v), "what was written is read as", b[1])
t0 = val('t', str)
n = len(events("parsed"))
b = attempt(m.deserialize, t0, hint, None, call)
pa = events("parsed")[n:]
if b[0] == "ok":
    claim(len(pa) == 1 and same(pa[0][1], t0) and made_by(b[1], "parse_{cls}", t0), "parsed by", pa)
    claim(src in ("default", "priority") or pa[0][0] is f1 or pa[0][0] is f2, "the setting does not reach the parser:", pa)
else:
    claim(b[0] == "conv", "unparsable text fails with", b[1])
""")
    # ---- Precision reaches the decimal context
    for src in ("call", "global", "annotation", "none"):
        yield case(f"precision from {src}", SETUP, f"""
p = Precision(3, rounding=decimal.ROUND_DOWN)
m = get_object_mapper()
src = {src!r}
h = choice("type", Decimal, MyDec)
hint, call = (Annotated[h, p] if src == "annotation" else h), ([p] if src == "call" else None)
if src == "global":
    m.settings.add_global(p)
v = val('v', str)
r = attempt(m.deserialize, v, hint, None, call)
claim(r[0] in ("ok", "conv"), "fails with", r[1])
if r[0] == "ok":
    claim(exact(r[1], h), "read as", r[1])
    c = r[1] if h is Decimal else arg_of(r[1], 0)
    if src == "none":
        claim(made_by(c, "Decimal", v), "without a precision, read by", r[1])
    else:
        claim(made_by(c, "create_decimal", v) and derived(c, 3) and derived(c, decimal.ROUND_DOWN), "the precision does not reach the conversion:", r[1])
n = choice("number", val('i', int), val('f', float))
r = attempt(m.deserialize, n, hint, None, (call or []) + [Strict(False)])
if r[0] == "ok" and src != "none":
    c = r[1] if h is Decimal else arg_of(r[1], 0)
    claim(made_by(c, "create_decimal", n) and derived(c, 3), "the precision does not reach the conversion of a number:", r[1])
""")
    # ---- the stringify helper: the registered parser and formatter, the declared type
    yield case("a registered string codec", SETUP, """
parsed, formatted = atom("parsed"), val("text", str)
def parse(s):
    log("parse", s)
    return parsed
def fmt(x):
    log("format", x)
    return formatted
m = get_object_mapper()
m.module.register(jc.StringifyConverter(Temp, parse, fmt), first=True)
x = choice("value", Temp(), SubTemp())
r = attempt(m.serialize, x, Temp)
claim(r[0] == "ok" and same(r[1], formatted) and logged("format")[0][1] is x, "written as", r[1])
s = val('s', str)
b = attempt(m.deserialize, s, Temp)
claim(b[0] == "ok" and same(b[1], parsed) and same(logged("parse")[0][1], s), "read as", b[1])
b = attempt(m.deserialize, val('i', int), Temp)
claim(b[0] == "conv", "read as", b[1])
""")
    for exc in ("ValueError", "TypeError", "UnicodeError"):
        yield case(f"a string codec whose parser raises {exc}", SETUP, f"""
def parse(s):
    raise {exc}("no")
m = get_object_mapper()
m.module.register(jc.StringifyConverter(Temp, parse), first=True)
b = attempt(m.deserialize, 's', Temp)
claim(b[0] == "conv", "read as", b[1])
""")
    yield case("string codecs of types without a parser use the declared type", SETUP + """
class Name:
    def __init__(self, s):
        self.s = s
    def __str__(self):
        return self.s
class Sub(Name):
    pass
""", """
m = get_object_mapper()
m.module.register(jc.StringifyConverter(Name), first=True)
s = val('s', str)
h = choice("hint", Name, Sub)
b = attempt(m.deserialize, s, h)
claim(b[0] == "ok" and exact(b[1], h) and same(b[1].s, s), "read as", b[1])
r = attempt(m.serialize, b[1], h)
claim(r[0] == "ok" and same(r[1], s), "written as", r[1])
r = attempt(m.serialize, Name('x'), Sub)
claim(r[0] == "conv", "an instance of the base class is written as", r[1])
""")
    # ---- durations
    yield case("durations are read by their parser", SETUP, """
v = val('v', str)
b = attempt(M.deserialize, v, duration)
claim(b[0] in ("ok", "conv"), "fails with", b[1])
claim(b[0] != "ok" or made_by(b[1], "duration.parse", v), "read by", b[1])
""")
