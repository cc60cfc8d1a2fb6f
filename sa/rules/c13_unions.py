"""C13: discriminated unions read back the layout they write."""
from .common import *

RULE = ("for every style, way of defining the members, discriminator key and nesting key, the keys written and the keys read, "
        "the member name written and the member type converted agree with the definition; anything else is a ConversionError")

SETUP = TYPES + """
class Conv(Converter):
    'the serialized form of a member is given by the scenario'
    def __init__(self, form=None):
        self.form = form
    def convert(self, ctx):
        hint = ctx.datatype
        while type(hint).__name__ == 'AnnotatedTypeHint':
            hint = hint[0]
        if type(hint).__name__ == 'ClassTypeHint' and hint.type.__name__ in ('K1', 'K2', 'K3'):
            log("member", hint.type, ctx.value, ctx.key, ctx.direction)
            return self.form(hint.type, ctx.value) if self.form else ctx.value
        raise NotImplementedError
def mapper(form=None):
    m = get_object_mapper()
    m.module.register(Conv(form), first=True)
    return m
"""

# how the members 'one' -> K1, 'two' -> K2 are declared; the arguments of the setting follow as {args}
PLAINCLS = """
class K1:
    pass
class K2:
    pass
class K1sub(K1):
    pass
class K3:
    pass
"""
DEFS = {
    "mapping": PLAINCLS + "U = Union({{'one': K1, 'two': K2}}, {args})\nH = Annotated[t.Union[K1, K2], U]\n",
    "another class": PLAINCLS + "class OBJ:\n    pass\nU = Union({{'one': K1, 'two': K2}}, {args})\nH = Annotated[OBJ, U]\n",
    "registry": PLAINCLS + "from databind.core.union import StaticUnionMembers\nS = StaticUnionMembers()\nU = Union(S, {args})\n"
                "S.register('one')(K1)\nS.members['two'] = K2\nH = Annotated[t.Union[K1, K2], U]\n",
    "deferred": PLAINCLS + "U = Union({{'one': lambda: K1, 'two': (lambda: K2)}}, {args})\nH = Annotated[t.Union[K1, K2], U]\n",
    "type hints": PLAINCLS + "U = Union({{'one': TypeHint(K1), 'two': TypeHint(K2)}}, {args})\nH = Annotated[t.Union[K1, K2], U]\n",
    "chain": PLAINCLS + "U = Union([{{'one': K1}}, {{'two': K2, 'one': K3}}], {args})\nH = Annotated[t.Union[K1, K2], U]\n",
    "decorated class": "@Union({{}}, {args})\nclass Base:\n    pass\n@Union.register(Base, 'one')\nclass K1(Base):\n    pass\n"
                       "@Union.register(Base, 'two')\nclass K2(Base):\n    pass\nclass K1sub(K1):\n    pass\nclass K3(Base):\n    pass\nH = Base\n",
    "abstract base": "@Union(style={style}, discriminator_key={disc}, nesting_key={nest})\nclass Base(abc.ABC):\n    pass\n@Union.register(Base, 'one')\nclass K1(Base):\n    pass\n"
                     "class K2(Base):\n    pass\nUnion.register(Base, 'two')(K2)\nclass K1sub(K1):\n    pass\nclass K3(Base):\n    pass\nH = Annotated[Base, 'note']\n",
    "several ids": PLAINCLS + "U = Union({{'one': K1, 'two': K2, 'uno': K1}}, {args})\nH = Annotated[t.Union[K1, K2], U]\n",
}
KEYS = {  # discriminator key, nesting key
    "default keys": ("'type'", "None"), "own discriminator": ("'kind'", "None"), "own nesting key": ("'type'", "'data'"),
    "both keys": ("'kind'", "'data'"), "swapped words": ("'data'", "'type'"), "a member's name as nesting key": ("'type'", "'two'"),
}
STYLES = {"nested": "Union.NESTED", "flat": "Union.FLAT", "keyed": "Union.KEYED"}


def want(style, disc, nest, name="name", form="form"):
    """The serialized layout, as scenario text."""
    if style == "nested":
        return f"{{{disc}: {name}, ({nest} or {name}): {form}}}"
    if style == "keyed":
        return f"{{{name}: {form}}}"
    return f"{{**{form}, {disc}: {name}}}"


def define(d, style, disc, nest):
    s = STYLES.get(style, style)
    return DEFS[d].format(args=f"{s}, {disc}, {nest}", style=s, disc=disc, nest=nest)


def cases():
    for style in STYLES:
        for d in DEFS:
            for kn, (disc, nest) in KEYS.items():
                if d not in ("mapping", "decorated class", "abstract base") and kn not in ("default keys", "both keys"):
                    continue
                what = f"{style} union, {d}, {kn}"
                pre = SETUP + define(d, style, disc, nest)
                forms = "{'p': atom('p'), 'q': None}"
                yield case(f"{what}: written", pre, f"""
form = {forms} if choice("form", 'mapping', 'empty') == 'mapping' else {{}}
name, cls = choice("member", ('one', K1), ('two', K2))
v = cls()
before = dict(form)
r = attempt(mapper(lambda c, x: form).serialize, v, H)
calls = logged("member")
claim(r[0] == "ok", "{what}: writing a member fails", r[1])
claim(len(calls) == 1 and calls[0][1] is cls and calls[0][2] is v, "{what}: the body is written by", calls)
if r[0] == "ok":
    want = {want(style, disc, nest)}
    claim(exact(r[1], dict) and len(r[1]) == len(want), "{what}: written as", r[1])
    for k in want:
        claim(k in r[1] and same(r[1][k], want[k]), "{what}:", k, "is written as", r[1].get(k, "nothing"))
claim(eqv(form, before), "{what}: the form given by the member's converter is modified")
""")
                yield case(f"{what}: read", pre, f"""
form = {forms} if choice("form", 'mapping', 'empty') == 'mapping' else {{}}
name, cls = choice("member", ('one', K1), ('two', K2))
out = choice("result", atom("result"), None, 0)
payload = {want(style, disc, nest)}
before = {want(style, disc, nest)}
r = attempt(mapper(lambda c, x: out).deserialize, payload, H)
calls = logged("member")
claim(r[0] == "ok" and same(r[1], out), "{what}: reading a member gives", r[1])
claim(len(calls) == 1 and calls[0][1] is cls, "{what}: the body is read by", calls)
if len(calls) == 1:
    body = calls[0][2]
    claim(len(body) == len(form) and all(k in body and same(body[k], form[k]) for k in form), "{what}: the member is given", body)
    {'claim(body is form, "the member is given a copy")' if style != "flat" else ''}
claim(eqv(payload, before), "{what}: the payload is modified")
""")
                if kn in ("default keys", "both keys"):
                    yield case(f"{what}: values of other types", pre, f"""
v = choice("value", K1sub(), K3() if {d != 'chain'} else object(), atom("v"), None, K1, {{}}, 'one', val('i', int), val('d', dict))
r = attempt(mapper(lambda c, x: {{}}).serialize, v, H)
claim(r[0] == "conv", "{what}: a value of no member's type is written as", r[1])
""")
                    yield case(f"{what}: unknown members", pre, f"""
name = choice("name", val('name', str), '', 'three', 'One', 'one ', 'K1', 'type')
assume(name not in {('one', 'two', 'uno') if d == 'several ids' else ('one', 'two')})
form = {{}}
payload = {want(style, disc, nest)}
r = attempt(mapper().deserialize, payload, H)
claim(r[0] == "conv", "{what}: unknown member", name, "is read as", r[1])
claim(not logged("member"), "{what}: a member is converted for an unknown name")
""")
    # ---- malformed payloads
    for style in STYLES:
        for d in ("mapping", "decorated class"):
            for kn in ("default keys", "both keys"):
                disc, nest = KEYS[kn]
                what = f"{style} union, {d}, {kn}"
                pre = SETUP + define(d, style, disc, nest)
                bad = ["{}", "val('n', int)", "None", "[]", "'one'", "[('type', 'one')]", "val('l', list, sizes=[0, 2])",
                       "val('s', set, sizes=[0, 1])", "val('t', tuple, sizes=[2])", "atom('x')", "K1()"]
                if style != "keyed":
                    bad += [f"{{{disc}: None, 'one': {{}}}}", f"{{{disc}: 1, 'one': {{}}}}", f"{{{disc}: True, 'one': {{}}}}",
                            f"{{{disc}: ['one'], 'one': {{}}}}", f"{{{disc}: {{}}, 'one': {{}}}}", f"{{{disc}: atom('x'), 'one': {{}}}}",
                            f"{{{disc}: K1, 'one': {{}}}}", "{'one': {}}", "{'other': 'one', 'one': {}}", f"{{{disc} + ' ': 'one', 'one': {{}}}}",
                            f"{{{disc}: b'one', 'one': {{}}}}"]
                if style == "nested":
                    bad += [f"{{{disc}: 'one'}}", f"{{{disc}: 'one', 'two': {{}}}}",
                            f"{{{disc}: 'one', 'nested': {{}}}}"]
                    if nest != "None":
                        bad += [f"{{{disc}: 'one', 'one': {{}}}}"]
                    elif disc != "'type'":
                        bad += [f"{{'type': 'one', 'one': {{}}}}"]
                if style == "keyed":
                    bad += ["{'one': {}, 'two': {}}", "{1: {}}", "{None: {}}", "{('one',): {}}", "{K1: {}}", "{'one': {}, 'x': 1}",
                            "{'type': 'one', 'one': {}}", "val('m', dict, sizes=[0, 2])"]
                yield case(f"{what}: malformed payloads", pre, f"""
i = choice("payload", {', '.join(str(i) for i in range(len(bad)))})
payload = [{', '.join('lambda: ' + b for b in bad)}][i]()
r = attempt(mapper().deserialize, payload, H)
claim(r[0] == "conv", "{what}: payload", payload, "is read as", r[1])
claim(not logged("member"), "{what}: a member is converted for the malformed payload", payload)
""")
                yield case(f"{what}: other mappings as payload", pre, f"""
name, cls, form = 'one', K1, {{'p': 1}}
payload = collections.OrderedDict({want(style, disc, nest)})
before = collections.OrderedDict({want(style, disc, nest)})
r = attempt(mapper().deserialize, payload, H)
calls = logged("member")
claim(r[0] == "ok" and len(calls) == 1 and calls[0][1] is K1, "{what}: an OrderedDict is read as", r[1])
claim(eqv(payload, before), "{what}: the payload is modified")
p = val('m', FrozenMap, sizes=[0, 1])
r = attempt(mapper().deserialize, p, H)
claim(r[0] in ("ok", "conv"), "{what}: another mapping fails with", r[1])
""")
    # ---- members whose serialized form is no mapping
    for what, form in {"a list": "[1]", "a string": "'s'", "None": "None", "a number": "val('n', int)", "an unknown value": "atom('x')"}.items():
        for style in STYLES:
            pre = SETUP + define("mapping", style, "'type'", "None")
            yield case(f"{style} member written as {what}", pre, f"""
form = {form}
r = attempt(mapper(lambda c, x: form).serialize, K1(), H)
if {style == 'flat'}:
    claim(r[0] == "conv", "a flat member that is no mapping is written as", r[1])
else:
    name = 'one'
    want = {want(style if style != 'flat' else 'keyed', "'type'", 'None')}
    claim(r[0] == "ok" and len(r[1]) == len(want) and all(k in r[1] and same(r[1][k], want[k]) for k in want), "written as", r[1])
    r = attempt(mapper(lambda c, x: x).deserialize, want, H)
    claim(r[0] == "ok" and same(r[1], form), "read back as", r[1])
""")
    # ---- unknown styles
    for s in ("'NESTED'", "'other'", "''", "None", "'flatten'"):
        yield case(f"unknown style {s}", SETUP + PLAINCLS + f"U = Union({{'one': K1, 'two': K2}}, {s})\nH = Annotated[t.Union[K1, K2], U]\n", """
form = {}
r = attempt(mapper(lambda c, x: form).serialize, K1(), H)
claim(r[0] == "conv", "an unknown style is written as", r[1])
for p in ({'type': 'one', 'one': {}}, {'one': {}}, {}, {'type': 'one'}):
    r = attempt(mapper().deserialize, p, H)
    claim(r[0] == "conv", "an unknown style is read as", r[1])
""")
    # ---- real members: what is written can be read back as the same member
    for style in STYLES:
        for kn in ("default keys", "both keys"):
            disc, nest = KEYS[kn]
            members = "{'a': A, 'b': B, 'pt': Pt}"
            body = {"nested": f"r[1][{nest} or name]", "keyed": "r[1][name]", "flat": f"{{k: r[1][k] for k in r[1] if k != {disc}}}"}[style]
            yield case(f"{style} union of dataclasses, {kn}", TYPES + f"U = Union({members}, {STYLES[style]}, {disc}, {nest})\n"
                       "H = Annotated[t.Union[A, B, Pt], U]\n", f"""
i, s = val('i', int), val('s', str)
name, v, own = choice("member", ('a', A(i), {{'a': i}}), ('b', B(s), {{'b': s}}), ('pt', Pt(i, s), {{'x': i, 'y': s}}))
hint = choice("hint", H, Annotated[H, 'x'])
r = attempt(M.serialize, v, hint)
claim(r[0] == "ok", "writing", v, "fails", r[1])
if r[0] == "ok":
    want = {want(style, disc, nest, form='own')}
    claim(len(r[1]) == len(want) and all(k in r[1] for k in want), "written as", r[1])
    back = attempt(M.deserialize, r[1], hint)
    claim(back[0] == "ok" and exact(back[1], type(v)) and eqv(back[1], v), "read back as", back[1])
    back = attempt(M.deserialize, {{k: r[1][k] for k in reversed(list(r[1]))}}, hint)
    claim(back[0] == "ok" and eqv(back[1], v), "read back in other key order as", back[1])
""")
            yield case(f"{style} union inside other types, {kn}", TYPES + f"U = Union({members}, {STYLES[style]}, {disc}, {nest})\n"
                       "H = Annotated[t.Union[A, B, Pt], U]\n@dataclass\nclass Holder:\n    l: List[H]\n    o: Optional[H]\n    d: Dict[str, H]\n    h: H\n", """
i, s = val('i', int), val('s', str)
v = Holder([A(i), B(s)], choice("o", None, B(s)), {'k': Pt(i, s)}, A(i))
r = attempt(M.serialize, v, Holder)
claim(r[0] == "ok", "writing fails", r[1])
if r[0] == "ok":
    back = attempt(M.deserialize, r[1], Holder)
    claim(back[0] == "ok" and eqv(back[1], v), "read back as", back[1])
""")
    # ---- members that extend the decorated base are written and read by their own type, too
    for style in STYLES:
        for base in ("@dataclass\nclass Base:\n    n: int = 0", "class Base(abc.ABC):\n    pass"):
            deco = f"@Union(style={STYLES[style]})\n{base}\n"
            yield case(f"{style} members that are dataclasses extending the base ({base.split('class ')[1][:9]})", TYPES + deco + """
@Union.register(Base, 'one')
@dataclass
class K1(Base):
    a: int = 0
@Union.register(Base, 'two')
@dataclass
class K2(Base):
    b: str = ''
@dataclass
class Holder:
    h: Base
    m: K2
""", f"""
i, s = val('i', int), val('s', str)
name, v, own = choice("member", ('one', K1(a=i), {{'a': i}}), ('two', K2(b=s), {{'b': s}}))
bodies = {{'a': v.a}} if name == 'one' else {{'b': v.b}}
r = attempt(M.serialize, v, type(v))
claim(r[0] == "ok", "a member cannot be written as its own type:", r[1])
if r[0] == "ok":
    claim(all(k in r[1] and same(r[1][k], own[k]) for k in own) and 'type' not in r[1] and name not in r[1], "by its own type a member is written as", r[1])
    q = attempt(M.deserialize, r[1], type(v))
    claim(q[0] == "ok" and exact(q[1], type(v)) and eqv(q[1], v), "by its own type a member is read as", q[1])
w = attempt(M.serialize, v, Base)
claim(w[0] == "ok", "a member cannot be written as the base:", w[1])
if w[0] == "ok" and r[0] == "ok":
    name, form = name, r[1]
    want = {want(style, "'type'", 'None')}
    claim(len(w[1]) == len(want) and all(k in w[1] and eqv(w[1][k], want[k]) for k in want), "written as", w[1])
    q = attempt(M.deserialize, w[1], Base)
    claim(q[0] == "ok" and exact(q[1], type(v)) and eqv(q[1], v), "read back as", q[1])
h = Holder(v, K2(b=s))
w = attempt(M.serialize, h, Holder)
claim(w[0] == "ok", "inside another type writing fails:", w[1])
if w[0] == "ok":
    q = attempt(M.deserialize, w[1], Holder)
    claim(q[0] == "ok" and exact(q[1].h, type(v)) and exact(q[1].m, K2) and eqv(q[1], h), "inside another type read back as", q[1])
""")
    # ---- the extra-keys rule of the member sees neither discriminator nor anything else of the wrapper
    yield case("further keys of a flat member", TYPES, """
r = attempt(M.deserialize, {'type': 'a', 'a': 1, 'x': 2}, Flat)
claim(r[0] == "conv", "a further key is read as", r[1])
seen = []
def rec(ctx, extra):
    seen.append(extra)
r = attempt(M.deserialize, {'type': 'a', 'a': 1, 'x': 2}, Flat, None, [ExtraKeys(True, rec)])
claim(r[0] == "ok" and len(seen) == 1 and sorted(seen[0]) == ['x'], "the discriminator is reported as a further key:", seen)
@dataclass
class R:
    r: Annotated[Dict[str, Any], Remainder()]
H = Annotated[t.Union[R, A], Union({'r': R, 'a': A}, Union.FLAT, 'kind')]
x = atom('x')
r = attempt(M.deserialize, {'kind': 'r', 'p': x}, H)
claim(r[0] == "ok" and exact(r[1], R) and len(r[1].r) == 1 and same(r[1].r['p'], x), "the remainder holds the discriminator:", r[1])
w = attempt(M.serialize, r[1], H)
claim(w[0] == "ok" and len(w[1]) == 2 and w[1]['kind'] == 'r' and same(w[1]['p'], x), "written as", w[1])
""")
    for kn, d in (("default", "type"), ("own", "kind")):
        yield case(f"a flat member with a field of the discriminator's name ({kn})", TYPES + f"""
@dataclass
class D:
    a: int
    {d}: str = 'dflt'
@dataclass
class E:
    b: Annotated[str, Alias('{d}')] = 'dflt'
class N(NamedTuple):
    {d}: str = 'dflt'
class P(TypedDict, total=False):
    {d}: str
MEMBERS = {{'d': D, 'e': E, 'n': N, 'p': P}}
class OBJ:
    pass
H = Annotated[OBJ, Union(MEMBERS, Union.FLAT, '{d}')]
""", f"""
name, rest = choice("member", ('d', {{'a': 1}}), ('e', {{}}), ('n', {{}}), ('p', {{}}))
r = attempt(M.deserialize, {{'{d}': name, **rest}}, H)
claim(r[0] == "ok", "reading fails with", r[1])
got = None
if r[0] == "ok":
    got = r[1].get('{d}', 'dflt') if name == 'p' else r[1].b if name == 'e' else r[1].{d}
    claim(got == 'dflt', "the discriminator", name, "reaches the member's own field:", got)
    seen = []
    q = attempt(M.deserialize, {{'{d}': name, **rest, 'further': 1}}, H, None, [ExtraKeys(True, lambda c, k: seen.append(k))])
    claim(q[0] == "ok" and len(seen) == 1 and sorted(seen[0]) == ['further'], "the keys recorded are", seen)
""")
    yield case("a union inside a member of a union", TYPES, """
@dataclass
class W:
    inner: Flat
    n: Nested
H = Annotated[t.Union[W, A], Union({'w': W, 'a': A}, choice("style", Union.FLAT, Union.NESTED, Union.KEYED), 'type')]
i, s = val('i', int), val('s', str)
v = W(A(i), B(s))
r = attempt(M.serialize, v, H)
claim(r[0] == "ok", "fails", r[1])
if r[0] == "ok":
    back = attempt(M.deserialize, r[1], H)
    claim(back[0] == "ok" and eqv(back[1], v), "read back as", back[1])
""")
    yield case("a union setting added to the mapper", SETUP + PLAINCLS + "U = Union({'one': K1, 'two': K2}, Union.KEYED)\nclass Base:\n    pass\n", """
m = mapper(lambda c, x: x)
how = choice("how", "local", "conditional")
if how == "local":
    m.settings.add_local(Base, U)
else:
    m.settings.add_conditional(lambda ctx: type(ctx.datatype).__name__ == 'ClassTypeHint' and ctx.datatype.type is Base, U)
v = K2()
r = attempt(m.serialize, v, Base)
claim(r[0] == "ok" and list(r[1]) == ['two'] and same(r[1]['two'], v), "written as", r[1])
x = atom('x')
r = attempt(m.deserialize, {'two': x}, Base)
claim(r[0] == "ok" and same(r[1], x) and logged("member")[-1][1] is K2, "read as", r[1])
""")
    yield case("members known by import name", SETUP + "class OBJ:\n    pass\nU = Union('<import>', Union.NESTED)\nH = Annotated[OBJ, U]\n", """
d = Decimal('1')
r = attempt(M.serialize, val('d', Decimal), H)
claim(r[0] == "ok" and r[1]['type'] == 'decimal.Decimal' and 'decimal.Decimal' in r[1] and len(r[1]) == 2, "written as", r[1])
if r[0] == "ok":
    back = attempt(M.deserialize, r[1], H)
    claim(back[0] == "ok" and exact(back[1], Decimal), "read back as", back[1])
r = attempt(M.deserialize, {'type': choice("name", 'decimal.Nope', 'nope', 'decimal', ''), 'x': 1}, H)
claim(r[0] == "conv", "unknown import name read as", r[1])
""")
