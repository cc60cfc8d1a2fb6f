"""C24: entry points pass every argument through unchanged."""
from .common import *

RULE = ("for every combination of arguments, positional or by keyword, exactly one conversion is started, whose context has exactly the "
        "arguments' value, type, direction, file name and settings, and the conversion's answer is returned as is; text is parsed and "
        "printed by one json call with the arguments given")

SETUP = TYPES + """
class Rec(Converter):
    'records what arrives and answers with a fixed object'
    def __init__(self, answer=None):
        self.answer = answer
    def convert(self, ctx):
        log("ctx", ctx)
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer
ANS = atom("answer")
@JsonConverter(Rec(ANS))
class K:
    pass
class SA(Setting):
    def __init__(self, tag=''):
        self.tag = tag
    @property
    def priority(self): return Priority.NORMAL
class SA(ClassDecoratorSetting):
    priority = Priority.NORMAL
    def __init__(self, tag=''):
        super().__init__()
        self.tag = tag
class SB(ClassDecoratorSetting):
    priority = Priority.NORMAL
    def __init__(self, tag=''):
        super().__init__()
        self.tag = tag
class Prov:
    'a provider of settings that is not one of the library'
    def get_setting(self, ctx, kind):
        log("asked", self, kind)
        return None
class Empty(Prov):
    def __len__(self): return 0
class No(Prov):
    def __bool__(self): return False
from databind.core.settings import SettingsProvider
class Prov2(SettingsProvider):
    def get_setting(self, ctx, kind):
        return None
def ctxs():
    return [x[1] for x in logged("ctx")]
def one(what):
    cs = ctxs()
    claim(len(cs) == 1, what, ":", len(cs), "conversions are made")
    return cs[-1]
def check(c, value, hint, direction, fn, what):
    claim(same(c.value, value), what, ": the value converted is", c.value)
    claim(c.datatype == TypeHint(hint), what, ": the type is", c.datatype)
    claim(c.direction is direction, what, ": the direction is", c.direction)
    claim(isinstance(c.location, Location) and same(c.location.filename, fn) and c.location.line is None and c.location.column is None, what, ": the location is", c.location)
    claim(c.key is Context.ROOT and c.parent is None, what, ": the context is not the root")
def mapper(settings=None, answer=ANS):
    m = ObjectMapper(settings)
    m.module.register(Rec(answer))
    return m
v = val("v")
fn = choice("file name", None, '', 'data.json', val("fn", str))
"""

ARGS = [  # (arguments, has file name, has settings)
    ("v, K", 0, 0), ("value=v, {t}=K", 0, 0), ("v, K, fn", 1, 0), ("v, K, filename=fn", 1, 0), ("v, K, fn, st", 1, 1), ("v, K, settings=st", 0, 1), ("v, K, settings=st, filename=fn", 1, 1),
]
HINTS24 = ["K", "int", "List[int]", "Optional[int]", "Annotated[int, 'x']", "TypeHint(K)", "TypeHint(List[K])", "Any", "None", "t.Union[int, str]", "Tuple[()]", "Literal['a']", "'K' if False else K"]


def cases():
    for d, name in (("SER", "serialize"), ("DES", "deserialize")):
        for args, hasfn, hasst in ARGS:
            a = args.replace("{t}", "datatype")
            yield case(f"mapper.{name}({a})", SETUP, f"""
own = Settings()
st = choice("settings", None, [], [SA('x')], Settings(), Prov2())
mp = mapper(own)
r = mp.{name}({a})
c = one("{name}")
check(c, v, K, {d}, {'fn' if hasfn else 'None'}, "{name}")
claim(r is ANS, "{name}: the result is", r)
{'claim(c.settings is own, "without settings, those used are", c.settings)' if not hasst else '''
if st is None:
    claim(c.settings is own, "without settings, those used are", c.settings)
elif type(st) is list:
    x = c.get_setting(SA)
    claim(x is (st[0] if st else None), "a list of settings is not in effect but", x)
else:
    claim(c.settings is st, "the settings used are", c.settings)
'''}
""", max_paths=100)
    for d in ("SER", "DES"):
        for a, loc in (("D, v, K", "None"), ("D, v, K, loc", "loc"), ("D, v, K, location=loc", "loc"), ("direction=D, value=v, datatype=K, location=loc, settings=st", "loc"), ("D, v, K, None, st", "None"), ("D, v, K, loc, st", "loc")):
            yield case(f"mapper.convert({a.replace('D,', d + ',')})", SETUP, f"""
D = {d}
own = Settings()
loc = Location(fn, val("line", int), val("column", int))
st = choice("settings", None, [], [SA('x')], Settings(), Prov2(), Prov(), Empty(), No())
mp = mapper(own)
r = mp.convert({a})
c = one("convert")
claim(same(c.value, v) and c.datatype == TypeHint(K) and c.direction is D and c.key is Context.ROOT and c.parent is None, "convert: the context is", c)
claim(r is ANS, "convert: the result is", r)
if {loc} is None:
    claim(c.location.filename is None and c.location.line is None and c.location.column is None, "without location, it is", c.location)
else:
    claim(c.location.filename == loc.filename and same(c.location.line, loc.line) and same(c.location.column, loc.column), "the location is", c.location)
if {'st is None' if 'st' in a else 'True'}:
    claim(c.settings is own, "without settings, those used are", c.settings)
elif type(st) is list:
    claim(c.get_setting(SA) is (st[0] if st else None), "a list of settings is not in effect but", c.get_setting(SA))
else:
    claim(c.settings is st, "the settings used are not the provider given but", c.settings)
""", max_paths=200)
        for h in HINTS24:
            yield case(f"{d}: the type {h} arrives", SETUP, f"""
r = mapper().convert({d}, v, {h})
c = one("convert")
claim(isinstance(c.datatype, TypeHint) and c.datatype == ({h} if isinstance({h}, TypeHint) else TypeHint({h})), "the type", {h}, "arrives as", c.datatype)
claim(same(c.value, v) and r is ANS, "the value or the result is changed")
""")
        for ans in ("None", "0", "False", "''", "[]", "{}", "v"):
            yield case(f"{d}: the answer {ans} is returned", SETUP, f"""
a = {ans}
mp = mapper(None, a)
for f in ({'mp.serialize' if d == 'SER' else 'mp.deserialize'}, lambda v, h: mp.convert({d}, v, h)):
    r = f(v, K)
    claim(r is a, "the result is", r, "instead of", a)
claim(len(ctxs()) == 2, len(ctxs()), "conversions for two calls")
""")
        for e in ("ConversionError(Rec(), None, 'inner')", "RuntimeError('inner')", "KeyError('inner')", "ValueError('inner')", "TypeError('inner')"):
            yield case(f"{d}: {e} is passed on", SETUP, f"""
e = {e}
mp = mapper(None, e)
r = attempt(mp.{'serialize' if d == 'SER' else 'deserialize'}, v, K)
claim(r[0] != "ok" and r[1] is e, "the error turns into", r[1])
""")
    # layering
    yield case("settings lists layer over the mapper's settings", SETUP, """
own = Settings()
a0, a1, b0 = SA('own'), SA('given'), SB('own')
own.add_global(a0); own.add_global(b0)
given = [a1]
for name in ("serialize", "deserialize"):
    mp = mapper(own)
    n = len(ctxs())
    getattr(mp, name)(v, K, settings=given)
    c = ctxs()[n]
    claim(c.get_setting(SA) is a1, name, ": the given setting does not take precedence but", c.get_setting(SA))
    claim(c.get_setting(SB) is b0, name, ": the mapper's setting is not in effect but", c.get_setting(SB))
    getattr(mp, name)(v, K, settings=[])
    c = ctxs()[n + 1]
    claim(c.get_setting(SA) is a0 and c.get_setting(SB) is b0, name, ": with an empty list, the settings are", c.get_setting(SA), c.get_setting(SB))
    getattr(mp, name)(v, K)
    c = ctxs()[n + 2]
    claim(c.get_setting(SA) is a0, name, ": settings of an earlier call are still in effect")
claim(len(given) == 1 and given[0] is a1, "the list given is changed to", given)
""")
    yield case("settings lists layer over settings of any truth value", SETUP, """
class Sized(Settings):
    def __len__(self): return 0
class Never(Settings):
    def __bool__(self): return False
own = choice("kind", Settings, Sized, Never)()
a0, b0, a1 = SA('own'), SB('own'), SA('given')
own.add_global(b0)
own.add_local(K, a0)
mp = mapper(own)
mp.deserialize(v, K, settings=choice("list", [], [a1], [Strict(False)]))
c = one("deserialize")
claim(c.get_setting(SB) is b0, "the mapper's setting is not in effect but", c.get_setting(SB))
claim(c.get_setting(SA) in (a0, a1), "the mapper's setting is not in effect but", c.get_setting(SA))
mp.copy().serialize(v, K, settings=[])
claim(ctxs()[1].get_setting(SB) is b0, "the setting of a copied mapper is not in effect but", ctxs()[1].get_setting(SB))
""")
    yield case("settings of several kinds in one list", SETUP, """
a, b, s = SA('1'), SB('2'), Strict(False)
mapper().deserialize(v, K, settings=[a, b, s])
c = one("deserialize")
claim(c.get_setting(SA) is a and c.get_setting(SB) is b and c.get_setting(Strict) is s, "settings in effect are", c.get_setting(SA), c.get_setting(SB), c.get_setting(Strict))
""")
    yield case("the mapper's settings object", SETUP, """
own = Settings()
class Sized(Settings):
    def __len__(self): return 0
    def __bool__(self): return False
sized = Sized()
claim(ObjectMapper(sized).settings is sized and get_object_mapper(sized).settings is sized, "a settings object that is false is not used")
claim(ObjectMapper(own).settings is own and get_object_mapper(own).settings is own and get_object_mapper(settings=own).settings is own, "the settings object given is not used")
m1, m2 = ObjectMapper(), ObjectMapper()
claim(isinstance(m1.settings, Settings) and m1.settings is not m2.settings and m1.module is not m2.module, "two mappers share settings or converters")
g1, g2 = get_object_mapper(), get_object_mapper()
claim(g1.settings is not g2.settings and g1.module is not g2.module, "two JSON mappers share settings or converters")
x = SA('late')
own2 = Settings()
mp = mapper(own2)
own2.add_global(x)
mp.deserialize(v, K)
claim(one("deserialize").get_setting(SA) is x, "settings added to the mapper's object later are not in effect")
""")
    yield case("get_object_mapper converts JSON types", SETUP, """
for m in (get_object_mapper(), get_object_mapper(None), get_object_mapper(Settings())):
    claim(eqv(m.deserialize({'x': 1, 'y': 'a'}, Pt), Pt(1, 'a')), "a mapper for JSON does not read JSON types")
    claim(eqv(m.serialize(Pt(1, 'a'), Pt), {'x': 1, 'y': 'a'}), "a mapper for JSON does not write JSON types")
""")
    yield case("a mapper's copy", SETUP, """
own = Settings()
x, y = SA('own'), SB('later')
own.add_global(x)
own.add_local(int, SB('local'))
mp = mapper(own)
c2 = mp.copy()
claim(c2 is not mp and c2.settings is not mp.settings and c2.module is not mp.module, "the copy shares parts with the original")
r = c2.deserialize(v, K, fn)
c = one("copy")
check(c, v, K, DES, fn, "copy")
claim(r is ANS and c.get_setting(SA) is x, "the copy does not convert like the original")
mp.settings.add_global(y)
mp.module.register(Rec(5), first=True)
r = c2.deserialize(v, K)
claim(r is ANS and ctxs()[1].get_setting(SB) is None, "a change to the original affects the copy")
c2.module.register(Rec(6), first=True)
c2.settings.add_global(SA('copy'))
r = mp.deserialize(v, K)
claim(r == 5 and ctxs()[2].get_setting(SA) is x, "a change to the copy affects the original")
""")
    # databind.json functions
    for f, d in (("load", "DES"), ("dump", "SER")):
        for args, hasfn, hasst in ARGS:
            a = args.replace("{t}", "type_")
            yield case(f"json.{f}({a})", SETUP, f"""
st = choice("settings", None, [], [SA('x')])
r = {f}({a})
c = one("{f}")
check(c, v, K, {d}, {'fn' if hasfn else 'None'}, "{f}")
claim(r is ANS, "{f}: the result is", r)
claim(c.get_setting(SA) is ({'st[0] if st else None' if hasst else 'None'}), "{f}: settings in effect are", c.get_setting(SA))
claim(len(events("json.dumps")) + len(events("json.loads")) == 0, "{f} handles text")
""", max_paths=100)
        for h, p in (("Pt", "{'x': 1, 'y': 'a'}" if f == "load" else "Pt(1, 'a')"), ("List[int]", "[1, 2]"), ("Optional[int]", "None")):
            yield case(f"json.{f} of {h} is the JSON mapper's answer", SETUP, f"claim(eqv({f}({p}, {h}), get_object_mapper().{'deserialize' if f == 'load' else 'serialize'}({p}, {h})), '{f} gives', {f}({p}, {h}))")
        yield case(f"json.{f}: errors pass through", SETUP, f"""
r = attempt({f}, atom('bad'), Pt, fn)
claim(r[0] == "conv" and same(r[1].context.location.filename, fn), "a value that cannot be converted gives", r[1])
""")
    yield case("json.loads parses once and converts the result", SETUP, """
s = val("s", str)
for a, k, f0, st0 in (((s, K), {}, None, None), ((s, K, fn), {}, fn, None), ((s, K), {'filename': fn}, fn, None), ((s, K, fn, [SA('p')]), {}, fn, 1), ((), {'value': s, 'type_': K, 'settings': [SA('p')]}, None, 1)):
    n, m = len(ctxs()), len(events("json.loads"))
    r = attempt(loads, *a, **k)
    if r[0] != "ok":
        claim(isinstance(r[1], ValueError) and len(ctxs()) == n, "a text that is not JSON gives", r[1])
        break
    r = r[1]
    claim(r is ANS, "the result is", r)
    ev = events("json.loads")[m:]
    claim(len(ev) == 1 and same(ev[0][0][0], s), "the text is parsed by", ev)
    claim(len(ctxs()) == n + 1, "conversions made:", len(ctxs()) - n)
    c = ctxs()[-1]
    claim(made_by(c.value, "json.loads", s), "the value converted is", c.value)
    check(c, c.value, K, DES, f0, "loads")
    claim((c.get_setting(SA) is None) == (st0 is None), "settings in effect are", c.get_setting(SA))
""", max_paths=200)
    yield case("json.dumps converts once and prints the result", SETUP, """
st = choice("settings", None, [SA('p')])
for k, f0, s0, ind, srt in (({}, None, None, None, False), ({'filename': fn}, fn, None, None, False), ({'filename': fn, 'settings': st}, fn, st, None, False), ({'indent': 2}, None, None, 2, False), ({'indent': 0}, None, None, 0, False),
                       ({'indent': '\\t'}, None, None, '\\t', False), ({'sort_keys': True}, None, None, None, True), ({'sort_keys': True, 'indent': 4, 'filename': fn, 'settings': st}, fn, st, 4, True)):
    n, m = len(ctxs()), len(events("json.dumps"))
    r = dumps(v, K, **k)
    ev = events("json.dumps")[m:]
    claim(len(ev) == 1 and ev[0][0][0] is ANS, "what is printed is", ev)
    kw = ev[0][1]
    claim(kw.get('indent') == ind and kw.get('sort_keys', False) is srt, "the text is printed with", kw)
    claim(all(kw[q] is None or q in ('indent', 'sort_keys') or kw[q] is (q in ('ensure_ascii', 'check_circular', 'allow_nan')) for q in kw), "the text is printed with", kw)
    claim(made_by(r, "json.dumps", ANS), "the result is", r)
    claim(len(ctxs()) == n + 1, "conversions made:", len(ctxs()) - n)
    check(ctxs()[-1], v, K, SER, f0, "dumps")
    claim(ctxs()[-1].get_setting(SA) is (s0[0] if s0 else None), "settings in effect are", ctxs()[-1].get_setting(SA))
""", max_paths=200)
    for args, ind, srt in (("v, K, fn, None, 3, True", "3", "True"), ("v, K, fn, [], 3", "3", "False"), ("v, K, fn", "None", "False")):
        yield case(f"json.dumps({args})", SETUP, f"""
r = dumps({args})
ev = events("json.dumps")
claim(len(ev) == 1 and ev[0][0][0] is ANS and ev[0][1].get('indent') == {ind} and ev[0][1].get('sort_keys', False) is {srt}, "printed by", ev)
check(one("dumps"), v, K, SER, fn, "dumps")
""")
