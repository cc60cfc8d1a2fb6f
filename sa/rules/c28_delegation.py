"""C28: classmethod delegation checks types, then calls the named methods of the declared class."""
from .common import *

RULE = ("on every path, serializing calls the named method of the declared class once with the very value, after checking it is an "
        "instance, and returns the very result; deserializing calls the named method once with the very payload, after checking "
        "the configured serialized type; a direction without method name is left to other converters")

SETUP = TYPES + """
class Base:
    def dump(self):
        log("dump", "Base", self)
        return RESULT
    @classmethod
    def load(cls, payload):
        log("load", cls, payload)
        return RESULT
class Sub(Base):
    def dump(self):
        log("dump", "Sub", self)
        return OTHER
class Plain:
    def dump(self): return OTHER
RESULT = None
OTHER = atom('other')
def conv(names, types=None):
    kw = {}
    if 's' in names:
        kw['serialize'] = 'dump'
    if 'd' in names:
        kw['deserialize'] = 'load'
    return JsonConverter.using_classmethods(types, **kw) if types is not None else JsonConverter.using_classmethods(**kw)
def use(how, setting, cls):
    "a mapper, hint and settings of the call that make the setting apply to the class"
    m = get_object_mapper()
    if how == "annotation":
        return m, Annotated[cls, setting], None
    if how == "call":
        return m, cls, [setting]
    if how == "global":
        m.settings.add_global(setting)
        return m, cls, None
    if how == "local":
        m.settings.add_local(cls, setting)
        return m, cls, None
    if how == "class":
        setting(cls)
        return m, cls, None
"""
HOW = ("annotation", "call", "global", "local", "class")
RESULTS = ("atom('result')", "None", "0", "''", "False", "[]", "{}", "atom('result'), 1")


def cases():
    for how in HOW:
        def c(what, body, **kw):
            return case(f"configured by {how}: {what}", SETUP, f"how = {how!r}\n" + body, **kw)
        for res in RESULTS:
            yield c(f"serializing to {res}", f"""
r0 = ({res})
class K:
    def dump(self):
        log("dump", self)
        return r0
class KSub(K):
    def dump(self):
        log("sub", self)
        return OTHER
m, h, s = use(how, conv('sd', choice("types", None, str, (int, str))), K)
v = choice("value", K(), KSub())
r = attempt(m.serialize, v, h, None, s)
claim(r[0] == "ok" and same(r[1], r0), "serialized as", r[1])
claim(len(logged("dump")) == 1 and logged("dump")[0][1] is v and not logged("sub"), "methods called", logged("dump"), logged("sub"))
""")
            yield c(f"deserializing to {res}", f"""
r0 = ({res})
class K:
    @classmethod
    def load(cls, p):
        log("load", cls, p)
        return r0
    @staticmethod
    def make(p):
        log("load", K, p)
        return r0
name = choice("method", "load", "make")
m, h, s = use(how, JsonConverter.using_classmethods(str, deserialize=name), K)
v = val('v', str)
r = attempt(m.deserialize, v, h, None, s)
claim(r[0] == "ok" and same(r[1], r0), "deserialized as", r[1])
claim(len(logged("load")) == 1 and logged("load")[0][1] is K and same(logged("load")[0][2], v), "methods called", logged("load"))
""")
        yield c("serializing values of other classes", """
m, h, s = use(how, conv('sd', choice("types", None, str)), Base)
v = choice("value", None, 0, '', val('v', str), [], {}, Plain(), object(), atom('v'), Base, 1.5, lambda: 0)
r = attempt(m.serialize, v, h, None, s)
claim(r[0] == "conv", "a value that is not an instance is serialized as", r[1])
claim(not logged("dump"), "the method is called with a value that is not an instance")
""")
        yield c("serializing an instance of the base class as the subclass", """
m, h, s = use(how, conv('sd'), Sub)
r = attempt(m.serialize, Base(), h, None, s)
claim(r[0] == "conv" and not logged("dump"), "an instance of the base class is serialized as", r[1])
r = attempt(m.serialize, Sub(), h, None, s)
claim(r[0] == "ok" and r[1] is OTHER and [x[1] for x in logged("dump")] == ["Sub"], "serialized as", r[1], logged("dump"))
""")
        yield c("deserializing as the subclass", """
m, h, s = use(how, conv('sd'), Sub)
v = atom('v')
r = attempt(m.deserialize, v, h, None, s)
claim(r[0] == "ok" and logged("load")[0][1] is Sub and logged("load")[0][2] is v, "methods called", logged("load"))
""")
        for types, good, wrong in [
            ("str", "val('v', str), '', val('w', StrSub)", "None, 0, True, val('v', int), val('v', float), b'x', [], {}, atom('v'), Base()"),
            ("int", "val('v', int), 0, True, val('w', IntSub)", "None, '', val('v', str), val('v', float), [], {}, atom('v')"),
            ("(int, str)", "val('v', int), val('w', str), 0, '', False", "None, val('v', float), [], {}, atom('v'), b''"),
            ("dict", "{}, {'a': 1}, val('v', dict)", "None, [], '', 0, val('v', str), atom('v'), val('w', FrozenMap)"),
            ("list", "[], [1], val('v', list)", "None, {}, '', 0, (), val('v', tuple), atom('v')"),
            ("(list, dict, type(None))", "[], {}, None", "0, '', val('v', str), ()"),
            ("type(None)", "None", "0, '', False, atom('v')"),
            ("bool", "True, False", "0, 1, None, val('v', int)"),
        ]:
            yield c(f"deserializing from {types}", f"""
m, h, s = use(how, conv('sd', {types}), Base)
v = choice("payload", {good})
r = attempt(m.deserialize, v, h, None, s)
claim(r[0] == "ok" and r[1] is None, "deserialized as", r[1])
claim(len(logged("load")) == 1 and logged("load")[0][1] is Base and same(logged("load")[0][2], v), "methods called", logged("load"))
""")
            yield c(f"deserializing from something other than {types}", f"""
m, h, s = use(how, conv('sd', {types}), Base)
v = choice("payload", {wrong})
r = attempt(m.deserialize, v, h, None, s)
claim(r[0] == "conv", "deserialized as", r[1])
claim(not logged("load"), "the method is called with a payload of another type")
""")
        yield c("deserializing from no type at all", """
m, h, s = use(how, JsonConverter.using_classmethods((), serialize='dump', deserialize='load'), Base)
v = choice("payload", None, 0, '', val('v', str), val('i', int), [], (), {}, False, atom('v'), Base())
r = attempt(m.deserialize, v, h, None, s)
claim(r[0] == "conv", "deserialized as", r[1])
claim(not logged("load"), "the method is called with a payload of no permitted type")
""")
        yield c("deserializing without a serialized type", """
m, h, s = use(how, conv('sd'), Base)
v = choice("payload", None, 0, '', False, [], {}, atom('v'), val('v', str), Base(), 1.5)
r = attempt(m.deserialize, v, h, None, s)
claim(r[0] == "ok" and r[1] is None, "deserialized as", r[1])
claim(len(logged("load")) == 1 and logged("load")[0][1] is Base and same(logged("load")[0][2], v), "methods called", logged("load"))
""")
        yield c("a direction without method on a class nothing else converts", """
d = choice("direction", SER, DES)
m, h, s = use(how, conv(choice("names", '', 'd' if d is SER else 's')), Base)
r = attempt(m.serialize if d is SER else m.deserialize, Base() if d is SER else 'x', h, None, s)
claim(r[0] == "conv", "converted to", r[1])
claim(not logged("dump") and not logged("load"), "a method that is not named is called")
""")
        yield c("a direction without method on a dataclass", """
@dataclass
class D:
    x: int
    def dump(self):
        log("dump", self)
        return ['dumped', self.x]
    @classmethod
    def load(cls, p):
        log("load", p)
        return cls(7)
names = choice("names", '', 's', 'd', 'sd')
m, h, s = use(how, conv(names), D)
x = val('x', int)
r = attempt(m.serialize, D(x), h, None, s)
claim(r[0] == "ok", "serializing fails with", r[1])
claim(r[0] != "ok" or eqv(r[1], ['dumped', x] if 's' in names else {'x': x}), "serialized as", r[1])
claim(len(logged("dump")) == ('s' in names), "the method is called", len(logged("dump")), "times")
y = val('y', int)
r = attempt(m.deserialize, {'x': y}, h, None, s)
claim(r[0] == "ok" and exact(r[1], D), "deserialized as", r[1])
claim(r[0] != "ok" or (r[1].x == 7 if 'd' in names else same(r[1].x, y)), "deserialized as", r[1])
claim(len(logged("load")) == ('d' in names), "the method is called", len(logged("load")), "times")
""")
        yield c("inside containers, optionals and fields", f"""
class K:
    def __init__(self, v):
        self.v = v
    def dump(self):
        return self.v
    @staticmethod
    def load(p):
        return K(p)
m, h, s = use(how, conv('sd', str), K) if how != "global" and how != "call" else use("annotation", conv('sd', str), K)
a, b = val('a', str), val('b', str)
@dataclass
class D:
    k: h
    ks: List[h]
    o: Optional[h] = None
ka, kb = K(a), K(b)
r = attempt(m.serialize, D(ka, [ka, kb]), D, None, s)
claim(r[0] == "ok" and eqv(r[1], {{'k': a, 'ks': [a, b]}}) or r[0] == "ok" and eqv(r[1], {{'k': a, 'ks': [a, b], 'o': None}}), "serialized as", r[1])
r = attempt(m.deserialize, {{'k': a, 'ks': [a, b], 'o': b}}, D, None, s)
claim(r[0] == "ok", "deserializing fails with", r[1])
if r[0] == "ok":
    claim(same(r[1].k.v, a) and [x.v for x in r[1].ks] == [a, b] and same(r[1].o.v, b), "deserialized as", r[1])
r = attempt(m.deserialize, {{'k': a, 'ks': [a, 0]}}, D, None, s)
claim(r[0] == "conv", "an element of another type is deserialized as", r[1])
r = attempt(m.serialize, D(ka, [ka, 'x']), D, None, s)
claim(r[0] == "conv", "an element of another class is serialized as", r[1])
r = attempt(m.serialize, {{'x': ka}}, Dict[str, h], None, s)
claim(r[0] == "ok" and eqv(r[1], {{'x': a}}), "serialized as", r[1])
""")
        yield c("errors of the methods", """
class Boom(Exception):
    pass
err = choice("error", Boom(), ValueError('v'), KeyError('k'))
class K:
    def dump(self):
        raise err
    @staticmethod
    def load(p):
        raise err
m, h, s = use(how, conv('sd'), K)
d = choice("direction", SER, DES)
r = attempt(m.serialize if d is SER else m.deserialize, K(), h, None, s)
claim(r[0] != "ok" and (r[0] == "conv" or r[1] is err), "an error of the method leads to", r[1])
""")
        yield c("named methods are looked up by name", """
class K:
    def __str__(self):
        log("str", self)
        return 'text'
    def dump(self):
        log("wrong")
    load = dump
    @staticmethod
    def of(s):
        log("of", s)
        return 5
m, h, s = use(how, JsonConverter.using_classmethods(serialize='__str__', deserialize='of'), K)
k = K()
r = attempt(m.serialize, k, h, None, s)
claim(r[0] == "ok" and r[1] == 'text' and logged("str")[0][1] is k, "serialized as", r[1])
r = attempt(m.deserialize, 'x', h, None, s)
claim(r[0] == "ok" and r[1] == 5 and logged("of")[0][1] == 'x' and not logged("wrong"), "deserialized as", r[1])
""")
    yield case("the converter declines other hints", SETUP, """
m = get_object_mapper()
c = DelegateToClassmethodConverter(serialize='dump', deserialize='load')
how = choice("used through", "the module", "an annotation", "a global setting", "a call")
# as an annotation it is asked for the annotated hint only, otherwise for the members of the union as well
h = choice("hint", t.Union[int, str], Optional[int], Literal['a'], t.Union[int, List[str]]) if how == "an annotation" else Literal['a', 1]
v = choice("value", 1, 'a', None, [], ['a'], 1.5)
d = choice("direction", SER, DES)
want = attempt(m.convert, d, v, h)
s = None
if how == "the module":
    m.module.register(c, first=True)
elif how == "an annotation":
    h = Annotated[h, JsonConverter(c)]
elif how == "a global setting":
    m.settings.add_global(JsonConverter(c))
else:
    s = [JsonConverter(c)]
got = attempt(m.convert, d, v, h, None, s)
claim(got[0] == want[0], "conversion", got[0], got[1], "instead of", want[0], want[1])
if got[0] == "ok" and want[0] == "ok":
    claim(eqv(got[1], want[1]), "converted to", got[1], "instead of", want[1])
""")
    yield case("class decorator and the subclass with its own", SETUP, """
class P:
    def dump(self): return 'P'
    def dump2(self): return 'P2'
class C(P):
    def dump(self): return 'C'
JsonConverter.using_classmethods(serialize='dump')(P)
JsonConverter.using_classmethods(serialize='dump2')(C)
m = get_object_mapper()
claim(m.serialize(P(), P) == 'P' and m.serialize(C(), P) == 'P' and m.serialize(C(), C) == 'P2', "serialized as", m.serialize(P(), P), m.serialize(C(), P), m.serialize(C(), C))
r = attempt(m.serialize, P(), C)
claim(r[0] == "conv", "serialized as", r[1])
""")
    yield case("the two directions use their own names", SETUP, """
class K:
    def a(self):
        return 'a'
    @staticmethod
    def b(p):
        return ('b', p)
m = get_object_mapper()
s = choice("names", JsonConverter.using_classmethods(serialize='a', deserialize='b'), JsonConverter(DelegateToClassmethodConverter(serialize='a', deserialize='b')), JsonConverter(lambda: DelegateToClassmethodConverter(None, serialize='a', deserialize='b')))
claim(m.serialize(K(), Annotated[K, s]) == 'a' and m.deserialize('p', Annotated[K, s]) == ('b', 'p'), "wrong method")
""")
