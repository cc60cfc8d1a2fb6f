"""C32: settings carry exactly what they are built with."""
from .common import *

RULE = ("for every setting class and combination of arguments, each argument arrives in the attribute of its name with the documented "
        "default otherwise, the priority included; abstract settings cannot be built; a boolean setting switched off behaves as "
        "the absence of the behaviour; every parameter of a Precision reaches the decimal context under its own name")

SETUP = TYPES + """
import databind.core.settings as cs
from databind.core.settings import Setting, ClassDecoratorSetting, BooleanSetting, get_highest_setting
P = choice("priority", None, Priority.LOW, Priority.NORMAL, Priority.HIGH, Priority.ULTIMATE)
KW = {} if P is None else {'priority': P}
WANT = Priority.NORMAL if P is None else P
def built(f, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except TypeError as x:
        return ("te", x)
    except Exception as x:
        return ("exc", x)
"""
BOOL = ["Required", "Flattened", "Strict", "SerializeDefaults", "Remainder"]


def cases():
    for b in BOOL:
        yield case(f"{b}", SETUP, f"""
on = choice("argument", 'none', True, False)
s = choice("given", 'positionally', 'by name') if on != 'none' else 'not'
x = {b}(**KW) if s == 'not' else {b}(on, **KW) if s == 'positionally' else {b}(enabled=on, **KW)
claim(x.enabled is (True if on == 'none' else on), "enabled is", x.enabled)
claim(x.priority is WANT, "the priority is", x.priority)
claim(isinstance(x, Setting) and isinstance(x, BooleanSetting) and x == {b}(x.enabled, x.priority) and x != {b}(not x.enabled, x.priority), "comparison")
""")
    yield case("abstract settings", SETUP, """
c = choice("class", Setting, ClassDecoratorSetting, BooleanSetting)
r = built(c)
claim(r[0] == "te", "an abstract setting is built:", r)
class Own(Setting):
    pass
class OwnBool(BooleanSetting):
    pass
class OwnDeco(ClassDecoratorSetting):
    pass
o = choice("own", Own, OwnBool, OwnDeco)
r = built(o)
claim(r[0] == "ok" and r[1].priority is Priority.NORMAL, "a setting of the user's own is", r)
""")
    yield case("Alias", SETUP, """
a, b, c = val('a', str), val('b', str), val('c', str)
n = choice("number", 1, 2, 3)
x = Alias(*(a, b, c)[:n], **KW)
claim(isinstance(x.aliases, tuple) and list(x.aliases) == [a, b, c][:n], "the aliases are", x.aliases)
claim(x.priority is WANT, "the priority is", x.priority)
claim(built(Alias)[0] == "te", "an alias without name is built")
claim(x == x and x in [x], "comparison")
""")
    yield case("falsy arguments are arguments", SETUP, """
x = choice("names", ('',), ('', 'a'), ('a', ''), ('a', 'a'), ('0', ' '))
claim(Alias(*x).aliases == x, "the aliases are", Alias(*x).aliases)
x = choice("formats", ('',), ('%Y', ''))
f = choice("type", 0, '', None, ())
claim(DeserializeAs(f).type is f, "the type is", DeserializeAs(f).type)
seen = []
e = ExtraKeys(False, lambda c, k: seen.append(k))
claim(e.allow is False and e.recorder is not None, "is", e.allow, e.recorder)
for b in (Required, Flattened, Strict, SerializeDefaults, Remainder):
    claim(b(False).enabled is False and b(enabled=False).enabled is False and b(False, Priority.LOW).priority is Priority.LOW, "switched off", b)
""")
    yield case("DeserializeAs", SETUP, """
x = DeserializeAs(Pt, **KW)
claim(x.type is Pt and x.priority is WANT, "is", x)
claim(built(DeserializeAs)[0] == "te", "built without a type")
""")
    for f in ("prec", "rounding", "Emin", "Emax", "capitals", "clamp"):
        yield case(f"Precision({f}=)", SETUP, f"""
v = choice("value", 0, 5, atom('v')) if {f!r} != 'rounding' else decimal.ROUND_UP
x = Precision({f}=v, **KW)
c = x.to_decimal_context()
for n in ('prec', 'rounding', 'Emin', 'Emax', 'capitals', 'clamp'):
    claim(same(getattr(x, n), v) if n == {f!r} else getattr(x, n) is None, "attribute", n, "is", getattr(x, n))
    claim(same(getattr(c, n), v) if n == {f!r} else getattr(c, n) is None, "the context's", n, "is", getattr(c, n))
claim(x.priority is WANT, "the priority is", x.priority)
""")
    yield case("Precision with all parameters", SETUP, """
vs = [atom('1'), decimal.ROUND_UP, atom('3'), atom('4'), atom('5'), atom('6')]
x = choice("given", Precision(*vs), Precision(**dict(zip(('prec', 'rounding', 'Emin', 'Emax', 'capitals', 'clamp'), vs))))
c = x.to_decimal_context()
for n, v in zip(('prec', 'rounding', 'Emin', 'Emax', 'capitals', 'clamp'), vs):
    claim(same(getattr(x, n), v) and same(getattr(c, n), v), n, "is", getattr(x, n), getattr(c, n))
d = x.to_decimal_context()
claim(d is not c, "the contexts of one setting are the same object")
""")
    yield case("ExtraKeys", SETUP, """
f = choice("recorder", None, lambda c, k: 0)
al = choice("allow", 'none', True, False)
x = ExtraKeys(**KW) if al == 'none' else choice("given", ExtraKeys(al, f, **KW), ExtraKeys(allow=al, recorder=f, **KW), ExtraKeys(al, recorder=f, **KW))
claim(x.allow is (True if al == 'none' else al) and x.recorder is (None if al == 'none' else f) and x.priority is WANT, "is", x.allow, x.recorder, x.priority)
""")
    yield case("Union", SETUP, """
m = {'a': A, 'b': B}
st = choice("style", None, 'nested', 'flat', 'keyed', 'best_match')
dk, nk = choice("discriminator", None, 'kind'), choice("nesting", None, 'body')
kw = {k: v for k, v in (('style', st), ('discriminator_key', dk), ('nesting_key', nk)) if v is not None}
x = Union(m, **kw)
claim(x.style == (st or Union.NESTED) and x.discriminator_key == (dk or 'type') and x.nesting_key == nk, "is", x.style, x.discriminator_key, x.nesting_key)
claim(x.members.get_type_by_id('a') is A and x.members.get_type_by_id('b') is B, "members are", x.members)
y = Union(m, st or 'nested', dk or 'type', nk)
claim(y.style == x.style and y.discriminator_key == x.discriminator_key and y.nesting_key == x.nesting_key, "positionally", y)
claim((Union.NESTED, Union.FLAT, Union.KEYED, Union.BEST_MATCH) == ('nested', 'flat', 'keyed', 'best_match'), "styles are", Union.NESTED, Union.FLAT, Union.KEYED, Union.BEST_MATCH)
st, dk, nk = choice("style", '', 'other', 'flat'), choice("discriminator", '', 'kind'), choice("nesting", None, '', 'body')
for z in (Union(m, st, dk, nk), Union(m, style=st, discriminator_key=dk, nesting_key=nk), Union(members=m, style=st, discriminator_key=dk, nesting_key=nk)):
    claim(same(z.style, st) and same(z.discriminator_key, dk) and same(z.nesting_key, nk), "with", st, dk, nk, "built as", z.style, z.discriminator_key, z.nesting_key)
m['c'] = Pt
claim(list(x.members.get_type_ids()) == ['a', 'b'], "the members change with the mapping given")
""")
    yield case("Priority", SETUP, """
claim([p.name for p in sorted(Priority, key=lambda p: p.value)] == ['LOW', 'NORMAL', 'HIGH', 'ULTIMATE'], "priorities are", list(Priority))
""")
    # ---- switched off is switched off
    yield case("Remainder(False)", SETUP, """
@dataclass
class R:
    a: int
    r: Annotated[Dict[str, int], Remainder(False)]
x = val('x', int)
r = attempt(M.deserialize, {'a': 1, 'r': {'k': x}}, R)
claim(r[0] == "ok" and eqv(r[1].r, {'k': x}), "read as", r[1])
r = attempt(M.deserialize, {'a': 1, 'k': x}, R)
claim(r[0] == "conv", "an extra key goes to a field whose remainder setting is switched off:", r[1])
r = attempt(M.serialize, R(1, {'k': x}), R)
claim(r[0] == "ok" and eqv(r[1], {'a': 1, 'r': {'k': x}}), "written as", r[1])
""")
    yield case("Flattened(False)", SETUP, """
@dataclass
class F:
    p: Annotated[Pt, Flattened(False)]
x = val('x', int)
r = attempt(M.deserialize, {'p': {'x': x}}, F)
claim(r[0] == "ok" and same(r[1].p.x, x), "read as", r[1])
r = attempt(M.deserialize, {'x': x}, F)
claim(r[0] == "conv", "read as", r[1])
r = attempt(M.serialize, F(Pt(x, 'y')), F)
claim(r[0] == "ok" and eqv(r[1], {'p': {'x': x, 'y': 'y'}}), "written as", r[1])
""")
    yield case("Required(False) and Required()", SETUP, """
@dataclass
class R:
    a: Annotated[int, Required()] = 5
    b: Annotated[Optional[int], Required()] = None
    c: Annotated[Optional[int], Required(False)] = None
f = convert_to_schema(TypeHint(R)).fields
claim(f['a'].required and f['b'].required and not f['c'].required, "required:", f)
class T(TypedDict):
    a: Annotated[int, Required(False)]
    b: Annotated[Optional[int], Required()]
f = convert_to_schema(TypeHint(T)).fields
claim(not f['a'].required and f['b'].required, "required:", f)
r = attempt(M.deserialize, {'b': None}, T)
claim(r[0] == "ok" and r[1]['b'] is None, "read as", r[1])
""")
    yield case("Strict and SerializeDefaults of different levels", SETUP, """
m = get_object_mapper()
m.settings.add_global(Strict(False))
r = attempt(m.deserialize, '5', Annotated[int, Strict()])
claim(r[0] == "conv", "a strict field takes a text:", r[1])
r = attempt(m.deserialize, '5', int)
claim(r[0] == "ok" and r[1] == 5, "read as", r[1])
r = attempt(m.deserialize, '5', int, None, [Strict(True, Priority.HIGH)])
claim(r[0] == "conv", "a strict call takes a text:", r[1])
r = attempt(get_object_mapper().deserialize, '5', Annotated[int, Strict(False)])
claim(r[0] == "ok" and r[1] == 5, "read as", r[1])
@dataclass
class D:
    a: int = 1
r = attempt(m.serialize, D(), D, None, [SerializeDefaults(False)])
claim(r[0] == "ok" and eqv(r[1], {}), "written as", r[1])
r = attempt(m.serialize, D(), Annotated[D, SerializeDefaults()], None, [SerializeDefaults(False)])
claim(r[0] == "ok" and eqv(r[1], {'a': 1}), "written as", r[1])
r = attempt(m.serialize, D(), D, None, [SerializeDefaults()])
claim(r[0] == "ok" and eqv(r[1], {'a': 1}), "written as", r[1])
""")
    yield case("settings of one class are equal by content and usable in hints", SETUP, """
for c in (Required, Flattened, Strict, SerializeDefaults, Remainder):
    claim(c() == c() and hash(c()) == hash(c()) and c(False) != c(True), c, "comparison")
claim(Strict() != SerializeDefaults(), "settings of different classes are equal")
claim(Precision(3) == Precision(3) and Precision(3) != Precision(4) and DeserializeAs(Pt) == DeserializeAs(Pt), "comparison")
claim(len({Strict(), Strict(), Strict(False)}) == 2, "as set elements")
""")
