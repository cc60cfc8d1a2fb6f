"""C10: missing fields take their default or are reported."""
from .common import *

RULE = ("for every kind of field (required, default, falsy default, default factory, optional, not required, required "
        "despite a default), every combination of presence in the payload and every structured type, the constructor "
        "receives the payload's value, the declared default, a fresh factory result, or nothing; or the field is reported")

SETUP = TYPES + """
from databind.core.utils import NotSet
def fac():
    log("factory")
    return []
const = val("const")
class Sentinel:
    'a default that is told by its identity'
obj = Sentinel()
FIELDS = {
    "required": Field(TypeHint(Any)),
    "default": Field(TypeHint(Any), False, obj),
    "default none": Field(TypeHint(Any), False, None),
    "default zero": Field(TypeHint(Any), False, 0),
    "default empty": Field(TypeHint(Any), False, ''),
    "default false": Field(TypeHint(Any), False, False),
    "factory": Field(TypeHint(Any), False, NotSet.Value, fac),
    "optional": Field(TypeHint(Optional[Any]), False, None),
    "not required": Field(TypeHint(Any), False),
    "required with default": Field(TypeHint(Any), True, obj),
    "required with factory": Field(TypeHint(Any), True, NotSet.Value, fac),
}
def judge(name, key, kw, payload, keys, n):
    'the field configured as name, given as key, in the constructor arguments kw'
    for q in keys:
        if q in payload:
            claim(key in kw, "field (", name, ") present in the payload is not passed on")
            claim(key not in kw or same(kw[key], payload[q]), "field (", name, ") is not taken from the payload but is", kw.get(key))
            return
    f = FIELDS[name]
    if f.required:
        claim(False, "a missing field (", name, ") is not reported but is", kw.get(key, "left out"))
    elif name == "factory":
        claim(key in kw and kw[key] == [] and isinstance(kw[key], list), "a missing field (", name, ") does not get its factory's result")
    elif name == "not required":
        claim(key not in kw, "a missing field without default is given", kw.get(key))
    else:
        claim(key in kw and same(kw[key], f.default), "a missing field (", name, ") does not get its default but", kw.get(key, "nothing"))
"""
NAMES = ["required", "default", "default none", "default zero", "default empty", "default false", "factory", "optional",
         "not required", "required with default", "required with factory"]
PRESENCE = '"absent", "any", "None", "zero", "empty", "default"'


def cases():
    def pair(a, b, alias):
        ka = "Annotated[Any, Alias('A1', 'A2')]"
        return case(f"fields ({a}) and ({b}){' with aliases' if alias else ''}", SETUP, f"""
def make():
    fields = {{}}
    for key, name in (("f", {a!r}), ("g", {b!r})):
        o = FIELDS[name]
        hint = TypeHint({ka if alias else 'Any'}) if key == "f" else o.datatype
        fields[key] = Field(hint, o.required, o.default, o.default_factory)
    return Schema(fields, lambda **kw: log("construct", kw) or "made", Pt)
m = ObjectMapper()
m.module.register(jc.AnyConverter())
m.module.register(jc.OptionalConverter())
schema = make()
m.module.register(jc.SchemaConverter(convert_to_schema=lambda h: schema))
payload = {{}}
for key, n in (("f", "pf"), ("g", "pg")):
    p = choice("payload has " + key, {PRESENCE})
    q = {'("A1" if choice("alias", True, False) else "A2")' if alias else 'key'} if key == "f" else key
    if p != "absent":
        payload[q] = atom("value " + key) if p == "any" else None if p == "None" else 0 if p == "zero" else '' if p == "empty" else obj
r = attempt(m.deserialize, payload, Pt)
keys = {{"f": {["A1", "A2"] if alias else ["f"]!r}, "g": ["g"]}}
missing = [k for k, name in (("f", {a!r}), ("g", {b!r})) if FIELDS[name].required and not any(q in payload for q in keys[k])]
claim(r[0] == ("conv" if missing else "ok"), "with the payload", payload, "conversion ends in", r[1])
if missing and r[0] == "conv":
    claim(any(keys[k][0] in r[1].message for k in missing), "the error does not name the missing field:", r[1].message)
    claim(len(logged("construct")) == 0, "the constructor is called although a required field is missing")
if not missing and r[0] == "ok":
    claim(len(logged("construct")) == 1, "the constructor is called", len(logged("construct")), "times")
    kw = logged("construct")[0][1]
    judge({a!r}, "f", kw, payload, keys["f"], 0)
    judge({b!r}, "g", kw, payload, keys["g"], 0)
    claim(all(k in ("f", "g") for k in kw), "the constructor is given further arguments", list(kw))
    claim(r[1] == "made", "the constructor's result is not returned but", r[1])
    # once more with the same schema
    q = attempt(m.deserialize, payload, Pt)
    claim(q[0] == "ok" and len(logged("construct")) == 2, "the same payload is rejected the second time")
    if len(logged("construct")) == 2:
        kw2 = logged("construct")[1][1]
        claim(list(kw2) == list(kw), "the same payload gives other arguments the second time:", list(kw2))
        for k, name in (("f", {a!r}), ("g", {b!r})):
            if name.endswith("factory") and not any(q in payload for q in keys[k]):
                claim(kw[k] is not kw2[k], "two objects share the result of a default factory")
            elif k in kw2:
                claim(same(kw[k], kw2[k]), "the same payload gives another value the second time:", kw2[k])
""")
    for i, a in enumerate(NAMES):
        yield pair(a, "required", True)
        for j, b in enumerate(NAMES):
            if (i + j) % 2 == 0 or a == b:
                yield pair(a, b, False)
    for what, (decl, absent, kind) in {
        "a dataclass": ("@dataclass\nclass R:\n    a: Any\n    o: Optional[Any]\n    n: Annotated[Any, Required(False)]\n"
                        "    q: Annotated[Optional[Any], Required()]\n    d: Any = obj\n    z: Any = 0\n    e: Any = None\n"
                        "    f: Any = field(default_factory=fac)\n    r: Annotated[Any, Required()] = obj\n",
                        ["a", "q", "r"], "attr"),
        "a derived dataclass": ("@dataclass\nclass R0:\n    a: Any\n    o: Optional[Any]\n    n: Annotated[Any, Required(False)]\n"
                                "    q: Annotated[Optional[Any], Required()]\n    d: Any = 99\n    z: Any = 0\n"
                                "@dataclass\nclass R(R0):\n    d: Any = obj\n    e: Any = None\n"
                                "    f: Any = field(default_factory=fac)\n    r: Annotated[Any, Required()] = obj\n",
                                ["a", "q", "r"], "attr"),
        "a NamedTuple": ("class R(NamedTuple):\n    a: Any\n    q: Any\n    d: Any = obj\n    z: Any = 0\n    e: Any = None\n",
                         ["a", "q"], "attr"),
        "a TypedDict": ("class R(TypedDict):\n    a: Any\n    o: Optional[Any]\n    q: Annotated[Optional[Any], Required()]\n"
                        "class R1(TypedDict, total=False):\n    n: Any\n    m: Annotated[Any, Required()]\n", ["a", "q"], "item"),
        "a keyword-only dataclass": ("@dataclass(kw_only=True)\nclass R:\n    d: Any = obj\n    a: Any\n    z: Any = 0\n    e: Any = None\n"
                                     "    q: Any\n    f: Any = field(default_factory=fac)\n", ["a", "q"], "attr"),
    }.items():
        fields = [l.split(":")[0].strip() for l in decl.split("class R1")[0].split("\n") if l.startswith("    ")]
        fields = list(dict.fromkeys(fields))
        req = absent
        for f in fields:
            get = f"r[1][{f!r}]" if kind == "item" else f"r[1].{f}"
            yield case(f"{what}, {f} absent", SETUP + decl, f"""
x = atom("x")
payload = {{k: x for k in {fields!r} if k != {f!r}}}
r = attempt(M.deserialize, payload, R)
claim(r[0] == {'conv' if f in req else 'ok'!r}, "{what} without {f} ends in", r[1])
if r[0] == "ok":
    has = {f"{f!r} in r[1]" if kind == "item" else "True"}
    claim(has, "{f} is missing from the result")
    got = {get}
    claim({dict(d='same(got, obj)', z='same(got, 0)', e='got is None', f='got == [] and got is not obj', o='got is None', n='got is None', r='same(got, obj)').get(f, 'True')}, "{what}: {f} is", got)
    for k in {fields!r}:
        if k != {f!r}:
            claim(same({'r[1][k]' if kind == 'item' else 'getattr(r[1], k)'}, x), "{what}: present", k, "is not taken from the payload")
else:
    claim({f!r} in r[1].message, "the error does not name the missing field:", r[1].message)
""")
            yield case(f"{what}, {f} given", SETUP + decl, f"""
payload = {{k: atom("x") for k in {fields!r}}}
v = choice("value", None, 0, '', False, [], obj, atom("v"))
payload[{f!r}] = v
r = attempt(M.deserialize, payload, R)
claim(r[0] == "ok", "{what} with {f} given as", v, "is rejected", r[1])
claim(r[0] != "ok" or same({get}, v), "{what}: {f} given as", v, "is", {get} if r[0] == "ok" else None)
claim(len(logged("factory")) == 0, "the default factory is called for a field that is present")
""")
    yield case("keys of a TypedDict that need not be present", SETUP + """
class P(TypedDict, total=False):
    n: Any
    m: Annotated[Any, Alias('mm')]
class Q(P):
    z: Any
""", """
h = choice("type", P, Q)
payload = {} if h is P else {'z': 0}
if choice("n", True, False):
    payload['n'] = None
if choice("m", True, False):
    payload['mm'] = 0
r = attempt(M.deserialize, payload, h)
claim(r[0] == "ok", "absent keys that are not required are reported", r[1])
claim(('n' in r[1]) == ('n' in payload) and ('m' in r[1]) == ('mm' in payload), "from", payload, "the keys", list(r[1]), "are made")
r = attempt(M.deserialize, {'n': 1, 'mm': 2}, Q)
claim(r[0] == "conv" and 'z' in r[1].message, "a required key of a partial TypedDict is not reported", r[1])
""")
    yield case("factories are called for each conversion", SETUP + """
@dataclass
class R:
    f: List[int] = field(default_factory=list)
    g: Any = field(default_factory=fac)
""", """
a, b = M.deserialize({}, R), M.deserialize({}, R)
claim(a.f is not b.f and a.g is not b.g, "two conversions share one default object")
a.f.append(1)
c = M.deserialize({}, R)
claim(c.f == [], "a default is not fresh:", c.f)
claim(len(logged("factory")) == 3, "the factory is called", len(logged("factory")), "times for 3 conversions")
two = M.deserialize([{}, {}], List[R])
claim(two[0].f is not two[1].f, "two elements share one default object")
""")
    yield case("defaults inside a flattened structure", SETUP + """
@dataclass
class In:
    a: Any
    d: Any = obj
    f: Any = field(default_factory=fac)
    o: Optional[Any] = None
@dataclass
class R:
    i: Annotated[In, Flattened()]
    q: Any = 0
class RT(TypedDict):
    i: Annotated[In, Flattened()]
""", """
h = choice("type", R, RT)
r = attempt(M.deserialize, {'a': None}, h)
claim(r[0] == "ok", "fails with", r[1])
i = r[1]['i'] if h is RT else r[1].i
claim(i.a is None and same(i.d, obj) and i.f == [] and i.o is None, "defaults inside a flattened structure:", i)
r = attempt(M.deserialize, {'d': 0}, h)
claim(r[0] == "conv" and 'a' in r[1].message, "a required field of a flattened structure is not reported")
r = attempt(M.deserialize, {'a': 0, 'd': None, 'f': False, 'o': 0}, h)
i = r[1]['i'] if h is RT else r[1].i
claim(same(i.a, 0) and i.d is None and same(i.f, False) and same(i.o, 0), "falsy values inside a flattened structure:", i)
claim(h is RT or same(r[1].q, 0), "default of the outer structure")
""")
    yield case("the error for a missing field names it", SETUP + """
@dataclass
class R:
    plain: int
    named: Annotated[int, Alias('first', 'second')]
""", """
r = attempt(M.deserialize, {'first': 1}, R)
claim(r[0] == "conv" and "'plain'" in r[1].message, "missing 'plain' gives", r[1])
r = attempt(M.deserialize, {'plain': 1}, R)
claim(r[0] == "conv" and "'first'" in r[1].message, "missing 'first' gives", r[1])
claim(r[1].context.key is Context.ROOT and isinstance(r[1], ConversionError), "the error is located elsewhere")
""")
    yield case("the default of a field, asked repeatedly", SETUP, """
n = choice("field", *FIELDS)
f = FIELDS[n]
if f.has_default():
    a, b = f.get_default(), f.get_default()
    if f.default_factory is fac:
        claim(len(logged("factory")) == 2 and a == [] and b == [] and a is not b, "the factory's result is shared")
    else:
        claim(same(a, b) and same(a, f.default), "the default is", a, b)
    claim(f == Field(f.datatype, f.required, f.default, f.default_factory) and (f.default is NotSet.Value) == (n.endswith("factory") or n in ("required", "not required")), "asking for the default changes the field")
    claim(f.has_default(), "asking for the default removes it")
else:
    claim(attempt(f.get_default)[0] == "exc", "a field without default has one")
""")
