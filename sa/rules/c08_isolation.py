"""C08: settings and registrations never leak to other classes, mappers or calls."""
from .common import *

RULE = ("for every position and order of decoration in a class hierarchy, every kind of change made to a copied mapper or "
        "settings object, every per-call settings list and every union registry, no other class, object or call sees it")

SETUP = TYPES + """
class S(ClassDecoratorSetting):
    def __init__(self, name='s', priority=Priority.NORMAL):
        super().__init__()
        self.name = name
        self.priority = priority
class G:
    pass
class P(G):
    pass
class C(P):
    pass
class Q(G):
    pass
class D(C, Q):
    pass
ALL = [G, P, C, Q, D]
def ctx_for(hint, settings):
    return Context(None, SER, None, TypeHint(hint), settings, Context.ROOT, Location.EMPTY, None)
def found(settings, hint, cls):
    r = settings.get_setting(ctx_for(hint, settings), cls)
    return None if r is None else r.name
def snapshot(s):
    return (s.parent, list(s.global_settings), [(k, list(v)) for k, v in s.local_settings.items()], list(s.providers))
"""


def cases():
    names = ["G", "P", "C", "Q", "D"]
    for i, a in enumerate(names):
        yield case(f"decorating {a} only", SETUP, f"""
s = S({a!r})
claim(same(s({a}), {a}), "the decorator does not return the class")
for k in ALL:
    got = get_class_setting(k, S)
    claim(same(got, s if k is {a} else None), "a setting on {a} is seen on", k.__name__)
    claim(found(Settings(), k, S) == ({a!r} if k is {a} else None), "a setting on {a} is in effect for", k.__name__)
    claim(found(Settings(), Annotated[k, 'x'], S) == ({a!r} if k is {a} else None), "a setting on {a} is in effect for", k.__name__)
r = attempt(s, choice("again", *ALL))
claim(r[0] == "exc" and isinstance(r[1], RuntimeError), "one instance decorates two classes")
for k in ALL:
    claim(same(get_class_setting(k, S), s if k is {a} else None), "a refused decoration takes effect on", k.__name__)
""")
        for b in names:
            if a != b:
                yield case(f"decorating {a}, then {b}", SETUP, f"""
s, q = S({a!r}, choice("priority", Priority.LOW, Priority.HIGH)), S({b!r})
s({a})
q({b})
for k in ALL:
    want = s if k is {a} else q if k is {b} else None
    claim(same(get_class_setting(k, S), want), "decorating {a} and {b} gives", k.__name__, "the setting", get_class_setting(k, S))
""")
    yield case("one instance on classes that look alike", SETUP, """
def make():
    class Same:
        pass
    return Same
one, two = make(), make()
s = S("s")
s(one)
for k in (two, one):
    r = attempt(s, k)
    claim(r[0] == "exc" and isinstance(r[1], RuntimeError), "one instance decorates two classes of the same name, or one twice")
    claim(get_class_setting(two, S) is None and same(get_class_setting(one, S), s) and found(Settings(), two, S) is None, "a refused decoration takes effect")
""")
    # the built-in decorator settings, by what they do
    yield case("extra keys allowed on the base class", SETUP + """
@ExtraKeys()
@dataclass
class Base:
    a: int = 0
@dataclass
class Sub(Base):
    b: int = 0
@ExtraKeys(False)
@dataclass
class Sub2(Base):
    b: int = 0
@dataclass
class Holder:
    sub: Sub
@ExtraKeys()
@dataclass
class Open:
    sub: Sub
""", """
claim(attempt(M.deserialize, {'z': 1}, Base)[0] == "ok", "ExtraKeys on a class is not in effect")
claim(attempt(M.deserialize, {'z': 1}, Sub)[0] == "conv", "ExtraKeys on a class is in effect for a subclass")
claim(attempt(M.deserialize, {'z': 1}, Sub2)[0] == "conv", "ExtraKeys of a base class wins over the class's own")
claim(attempt(M.deserialize, {'sub': {'z': 1}}, Holder)[0] == "conv", "ExtraKeys on a base class is in effect for a field")
claim(attempt(M.deserialize, {'sub': {'z': 1}}, Open)[0] == "conv", "ExtraKeys of a class is in effect for a class nested in it")
claim(attempt(M.deserialize, {'sub': {}, 'z': 1}, Open)[0] == "ok", "ExtraKeys on a class is not in effect")
""")
    yield case("a converter set on the base class", SETUP + """
@JsonConverter.using_classmethods(serialize='ser', deserialize='de')
@dataclass
class Base:
    a: int = 0
    def ser(self):
        return 'custom'
    @classmethod
    def de(cls, v):
        return 'custom'
@dataclass
class Sub(Base):
    b: int = 0
""", """
claim(M.serialize(Base(), Base) == 'custom' and M.deserialize(1, Base) == 'custom', "a converter set on a class is not used")
r = attempt(M.serialize, Sub(), Sub)
claim(r[0] == "ok" and r[1] == {'a': 0, 'b': 0}, "a converter set on a class is used for its subclass:", r[1])
r = attempt(M.deserialize, {'a': 1}, Sub)
claim(r[0] == "ok" and isinstance(r[1], Sub), "a converter set on a class is used for its subclass:", r[1])
""")
    for style in ("NESTED", "FLAT", "KEYED"):
        yield case(f"a union set on the base class, {style}", SETUP + f"""
@Union(style=Union.{style})
class Base:
    pass
@Union.register(Base, 'one')
@dataclass
class One(Base):
    v: int
""", f"""
r = attempt(M.serialize, One(val('v', int)), One)
claim(r[0] == "ok" and list(r[1]) == ['v'], "a union on the base class is in effect for its member:", r[1])
r = attempt(M.deserialize, {{'v': val('w', int)}}, One)
claim(r[0] == "ok" and isinstance(r[1], One), "a union on the base class is in effect for its member:", r[1])
""")
    # settings in the metadata of one hint concern that hint only
    yield case("metadata of one field", SETUP + """
@dataclass
class F:
    a: Annotated[int, Strict(False)]
    b: int
    c: Annotated[date, DateFormat('%Y')]
    d: date
    e: Annotated[str, Alias('E')]
    f: str
""", """
claim(attempt(M.deserialize, {'a': '1', 'b': '2', 'c': date(2020, 1, 1), 'd': date(2020, 1, 1), 'E': '', 'f': ''}, F)[0] == "conv",
      "Strict(False) on one field is in effect for another")
r = attempt(M.deserialize, {'a': '1', 'b': 2, 'c': date(2020, 1, 1), 'd': date(2020, 1, 1), 'E': '', 'f': ''}, F)
claim(r[0] == "ok", "the metadata of a field is not in effect", r[1])
q = attempt(M.serialize, r[1], F)
if q[0] == "ok":
    q = q[1]
    claim(list(q) == ['a', 'b', 'c', 'd', 'E', 'f'], "the alias of one field is in effect for another:", list(q))
""")
    for h, v in (("List[int]", "['1']"), ("Tuple[int, int]", "('1', 2)"), ("Dict[str, int]", "{'k': '1'}"), ("Tuple[int, ...]", "['1']"),
                 ("Optional[int]", "'1'"), ("TD", "{'a': '1', 'b': 'x'}"), ("NT", "{'a': '1', 'b': 'x'}"), ("Pt", "{'x': '1'}"),
                 ("t.Union[int, Pt]", "'1'"), ("Nested", "{'type': 'a', 'a': {'a': '1'}}")):
        yield case(f"metadata of {h} for its parts", SETUP, f"""
r = attempt(M.deserialize, {v}, Annotated[{h}, Strict(False)])
claim(r[0] == "conv", "Strict(False) on {h} is in effect for its parts:", r[1])
""")
    # local settings apply to that very type
    yield case("local settings of a type", SETUP, """
s = Settings()
k = choice("type", *ALL)
s.add_local(k, S("local"))
for x in ALL:
    claim(found(s, x, S) == ("local" if x is k else None), "a setting added for", k.__name__, "is in effect for", x.__name__)
""")
    changes = {
        "add_global": "{0}.add_global(S('new'))", "add_local of a new type": "{0}.add_local(P, S('new'))",
        "add_local of a known type": "{0}.add_local(G, S('new'))", "add_conditional": "{0}.add_conditional(lambda c: True, S('new'))",
        "add_provider": "{0}.add_provider(lambda c: [S('new')])",
    }
    for what, ch in changes.items():
        for who in ("copy", "original"):
            other = "original" if who == "copy" else "copy"
            yield case(f"{what} on the {who} of settings", SETUP, f"""
empty = choice("empty", False, True)
original = Settings(choice("parent", None, Settings()), None if empty else [S("g")])
if not empty:
    original.add_local(G, S("l"))
    original.add_conditional(lambda c: True, S("c"))
copy = original.copy()
claim(copy is not original, "copy() returns the same object")
claim(same(copy.parent, original.parent), "the copy has another parent")
before = snapshot({other})
claim(eqv(snapshot(copy), snapshot(original)), "the copy differs from the original")
{ch.format(who)}
claim(eqv(snapshot({other}), before), "{what} on the {who} changes the {other}")
claim(empty or found(copy, G, S) == "l" or {who == 'copy'}, "the copy loses a local setting")
claim(not eqv(snapshot({who}), before), "{what} has no effect")
""")
            yield case(f"{what} on the settings of the {who} of a mapper", SETUP, f"""
empty = choice("empty", False, True)
original = choice("mapper", ObjectMapper, get_object_mapper)(None if empty else Settings(None, [S("g")]))
if not empty:
    original.settings.add_local(G, S("l"))
copy = original.copy()
claim(copy is not original and copy.settings is not original.settings, "copy() shares the settings")
before = snapshot({other}.settings)
claim(eqv(snapshot(copy.settings), snapshot(original.settings)), "the copy has other settings")
{ch.format(who + '.settings')}
claim(eqv(snapshot({other}.settings), before), "{what} on the {who} changes the {other}")
""")
    for who in ("copy", "original"):
        other = "original" if who == "copy" else "copy"
        for first in (True, False):
            yield case(f"register(first={first}) on the {who} of a mapper", SETUP, f"""
class Mine(Converter):
    def convert(self, ctx):
        return 'mine'
original = get_object_mapper()
copy = original.copy()
claim(copy.module is not original.module, "copy() shares the module")
ctx = ctx_for(int, Settings())
names = [type(c).__name__ for c in original.module.get_converters(ctx)]
claim([type(c).__name__ for c in copy.module.get_converters(ctx)] == names, "the copy has other converters")
{who}.module.register(Mine(), first={first})
claim([type(c).__name__ for c in {other}.module.get_converters(ctx)] == names, "registering on the {who} changes the {other}")
claim({other}.serialize(1, int) == 1, "registering on the {who} changes the {other}")
claim(len(list({who}.module.get_converters(ctx))) == len(names) + 1, "registering has no effect")
""")
    yield case("two mappers", SETUP, """
class Mine(Converter):
    def convert(self, ctx):
        return 'mine'
make = choice("constructor", get_object_mapper, ObjectMapper)
a, b = make(), make()
claim(a is not b and a.settings is not b.settings and a.module is not b.module, "two mappers share state")
before = snapshot(b.settings)
a.settings.add_global(Strict(False))
a.settings.add_local(int, Strict(False))
a.module.register(Mine(), first=True)
claim(eqv(snapshot(b.settings), before), "changing one mapper's settings changes another's")
claim(all(not isinstance(c, Mine) for c in b.module.get_converters(ctx_for(int, b.settings))), "registering with one mapper changes another")
claim(snapshot(make().settings)[1] == [], "changing one mapper's settings changes those created later")
claim(attempt(load, '1', int)[0] == "conv", "changing a mapper changes the module-level functions")
""")
    # settings of one call
    for h, v, d in (("int", "'1'", "DES"), ("Pt", "{'x': '1'}", "DES"), ("List[int]", "['1']", "DES"), ("Pt", "Pt(1)", "SER"), ("Nested", "A(1)", "SER")):
        yield case(f"settings of one call, {h} {d}", SETUP, f"""
m = get_object_mapper()
m.settings.add_global(S("own"))
l = [Strict(False), SerializeDefaults(False), S("call", Priority.HIGH)]
before = snapshot(m.settings)
first = attempt(m.convert, {d}, {v}, {h})
run_start()
r = attempt(m.convert, {d}, {v}, {h}, None, l)
claim(r[0] == "ok", "the call fails", r[1])
claim(len(l) == 3 and isinstance(l[0], Strict) and isinstance(l[2], S), "the settings given for a call are altered")
claim(eqv(snapshot(m.settings), before), "the settings given for a call are stored in the mapper")
again = attempt(m.convert, {d}, {v}, {h})
claim(again[0] == first[0], "settings given for one call are in effect for the next")
claim(first[0] != "ok" or eqv(first[1], again[1]), "settings given for one call are in effect for the next")
p = Settings(None, [Strict(False)])
pb = snapshot(p)
r = attempt(m.convert, {d}, {v}, {h}, None, p)
claim(r[0] == "ok" and eqv(snapshot(p), pb), "the provider given for a call is altered")
claim(attempt(m.convert, {d}, {v}, {h})[0] == first[0], "a provider given for one call is in effect for the next")
claim(attempt({'load' if d == 'DES' else 'dump'}, {v}, {h}, None, [Strict(False)])[0] == "ok", "settings are not used")
claim(attempt({'load' if d == 'DES' else 'dump'}, {v}, {h})[0] == first[0], "settings given to one load/dump are in effect for the next")
""")
    for n in (1, 2, 3):
        yield case(f"{n} settings for one call, of any kind and priority", SETUP + """
class SH(ExtraKeys):
    pass
def some(i):
    p = choice(f"priority {i}", *Priority)
    k = choice(f"kind {i}", "extra", "strict", "own", "class")
    if k == "extra":
        return ExtraKeys(True, priority=p)
    if k == "strict":
        return Strict(False, p)
    if k == "own":
        return S("call", p)
    return SerializeDefaults(False, p)
""" + f"""
@dataclass
class Two:
    x: int = 3
    y: Any = None
""", f"""
how = choice("by", "mapper", "own settings", "load")
m = get_object_mapper(Settings(None, [S("own")]) if how == "own settings" else None)
l = [some(i) for i in range({n})]
kept = list(l)
before = snapshot(m.settings)
def results():
    out = []
    for d, v, h in ((DES, {{'x': 1, 'q': 2}}, Two), (DES, {{'x': '1'}}, Two), (SER, Two(), Two), (DES, '1', int)):
        out.append(attempt(m.convert, d, v, h) if how != "load" else attempt(load if d is DES else dump, v, h))
    return [(r[0], r[1] if r[0] == "ok" else None) for r in out]
first = results()
r = attempt(m.convert, DES, {{'x': 1}}, Two, None, l) if how != "load" else attempt(load, {{'x': 1}}, Two, None, l)
claim(r[0] == "ok", "the call fails", r[1])
r = attempt(m.convert, SER, Two(1), Two, None, l) if how != "load" else attempt(dump, Two(1), Two, None, l)
claim(r[0] == "ok", "the call fails", r[1])
claim(len(l) == {n} and all(a is b for a, b in zip(l, kept)), "the settings given for a call are altered")
claim(eqv(snapshot(m.settings), before), "the settings given for a call are stored in the mapper")
claim(eqv(results(), first), "settings given for one call are in effect for the next")
claim(all(getattr(s, 'owner', None) is None for s in l), "the settings given for a call are attached to something")
""", max_paths={1: 60, 2: 150, 3: 200}[n])
    yield case("a settings object does not share the list it was given", SETUP, """
l = [S("a")]
s = Settings(None, l)
t2 = Settings(None, l)
s.add_global(S("b"))
claim(len(l) == 1, "add_global() changes the list the settings were created from")
claim(len(t2.global_settings) == 1, "add_global() changes other settings created from the same list")
l.append(S("c"))
claim([x.name for x in s.global_settings] == ["a", "b"], "changing the list changes the settings")
claim(len(Settings().global_settings) == 0 and len(Settings().local_settings) == 0 and len(Settings().providers) == 0, "new settings are not empty")
s.add_local(int, S("x"))
s.add_provider(lambda c: [])
claim(len(Settings().global_settings) == 0 and len(Settings().local_settings) == 0 and len(Settings().providers) == 0, "new settings are not empty")
""")
    # registries of union members
    yield case("registries of two unions", SETUP + """
@Union()
class U1:
    pass
@Union()
class U2:
    pass
""", """
u, v = get_class_setting(U1, Union), get_class_setting(U2, Union)
@Union.register(U1, 'm')
class M1(U1):
    pass
claim(list(u.members.get_type_ids()) == ['m'], "registration has no effect")
claim(list(v.members.get_type_ids()) == [], "a member registered with one union is a member of another")
claim(list(Union().members.get_type_ids()) == [] and list(Union({}).members.get_type_ids()) == [], "a member registered with one union is a member of new ones")
d = {'a': A}
w, x = Union(d), Union(d)
w.members.register('b')(B)
claim(list(d) == ['a'], "registering a member changes the mapping the union was created from")
claim(list(x.members.get_type_ids()) == ['a'], "registering a member changes another union created from the same mapping")
r = attempt(M.deserialize, {'type': 'm', 'm': {}}, U2)
claim(r[0] == "conv", "a member registered with one union is accepted by another")
""")
    yield case("a chain does not share its list", SETUP, """
l = [{'a': A}, {'b': B}]
u = Union(l)
claim(len(l) == 2 and isinstance(l[0], dict), "creating a chained union alters the list given")
l.pop()
claim(list(u.members.get_type_ids()) == ['a', 'b'], "changing the list given changes the union")
""")
