"""C09: no payload key is dropped silently when a schema is deserialized."""
from .common import *

RULE = ("for every kind of structured type, arrangement of aliases, flattened and remainder fields and source of the "
        "ExtraKeys setting, and for payloads with arbitrary further keys, every key is consumed by its field, handed to "
        "the remainder field, or rejected / recorded through ExtraKeys")

SETUP = TYPES + """
@dataclass
class D:
    a: Any
    b: Annotated[Any, Alias('B', 'bee')] = 'b-default'
@dataclass
class Empty:
    pass
class T(TypedDict):
    a: Any
    b: Annotated[Any, Alias('B', 'bee')]
class TP(TypedDict, total=False):
    a: Any
    b: Annotated[Any, Alias('B', 'bee')]
class N(NamedTuple):
    a: Any
    b: Annotated[Any, Alias('B', 'bee')] = 'b-default'
T2 = TypeVar('T2')
@dataclass
class GBase(Generic[T2]):
    a: T2
@dataclass
class Gen(GBase[T2], Generic[T2]):
    b: Annotated[Any, Alias('B', 'bee')] = 'b-default'
@dataclass
class Inner:
    a: Any
@dataclass
class InnerB:
    b: Annotated[Any, Alias('B', 'bee')] = 'b-default'
@dataclass
class Fl:
    inner: Annotated[Inner, Flattened()]
    b: Annotated[Any, Alias('B', 'bee')] = 'b-default'
@dataclass
class Fl2:
    one: Annotated[Inner, Flattened()]
    two: Annotated[InnerB, Flattened()]
@dataclass
class FlDeep:
    fl: Annotated[Fl2, Flattened()]
class FlTD(TypedDict):
    inner: Annotated[Inner, Flattened()]
    two: Annotated[InnerB, Flattened()]
@dataclass
class Rem:
    a: Any
    rest: Annotated[Dict[str, Any], Remainder()]
    b: Annotated[Any, Alias('B', 'bee')] = 'b-default'
@dataclass
class RemFirst:
    rest: Annotated[Dict[Any, Any], Remainder()]
    a: Any
    b: Annotated[Any, Alias('B', 'bee')] = 'b-default'
class RemTD(TypedDict):
    a: Any
    b: Annotated[Any, Alias('B', 'bee')]
    rest: Annotated[Mapping[Any, Any], Remainder()]
@dataclass
class InnerRem:
    a: Any
    rest: Annotated[Dict[Any, Any], Remainder()]
@dataclass
class FlRem:
    one: Annotated[InnerRem, Flattened()]
    b: Annotated[Any, Alias('B', 'bee')] = 'b-default'
@dataclass
class FlThenRem:
    one: Annotated[Inner, Flattened()]
    two: Annotated[InnerB, Flattened()]
    rest: Annotated[Dict[Any, Any], Remainder()]
"""
PLAIN = ["D", "T", "TP", "N", "Gen[Any]", "Fl", "Fl2", "FlDeep", "FlTD", "Annotated[D, 'note']"]
REMAINDER = {"Rem": "rest", "RemFirst": "rest", "RemTD": "rest", "FlRem": "one.rest", "FlThenRem": "rest"}
PAY = {
    # payload -> keys that are extra, given arbitrary str k (different from all names in use)
    "one unknown string key": ("{'a': x, k: y}", ["k"]),
    "two unknown keys": ("{'a': x, k: y, 'B': z, 'zz': z}", ["k", "'zz'"]),
    "a key in front": ("{k: y, 'a': x, 'B': z}", ["k"]),
    "the field's name besides its alias": ("{'a': x, 'B': y, 'b': z}", ["'b'"]),
    "the field's name instead of its alias": ("{'a': x, 'bee': y, 'b': z}", ["'b'"]),
    "both aliases": ("{'a': x, 'bee': y, 'B': z}", ["'bee'"]),
    "both aliases the other way": ("{'B': y, 'a': x, 'bee': z}", ["'bee'"]),
    "the empty string": ("{'a': x, 'B': y, '': z}", ["''"]),
    "an integer key": ("{'a': x, 'B': y, 0: z}", ["0"]),
    "None as key": ("{'a': x, 'B': y, None: z}", ["None"]),
    "a tuple as key": ("{'a': x, 'B': y, (1, 2): z}", ["(1, 2)"]),
    "names of other levels": ("{'a': x, 'B': y, 'inner': 0, 'one': 1, 'two': 2, 'fl': 3}", ["'inner'", "'one'", "'two'", "'fl'"]),
    "a falsy value": ("{'a': x, 'B': y, 'zz': None}", ["'zz'"]),
    "no extra keys": ("{'a': x, 'B': y}", []),
    "no extra keys, second alias": ("{'a': x, 'bee': y}", []),
}
PREP = """
k = val('k', str)
x, y, z = atom('x'), atom('y'), atom('z')
for n in ('a', 'b', 'B', 'bee', 'zz', 'inner', 'one', 'two', 'fl', 'rest', '', 'type'):
    assume(k != n)
"""


def cases():
    for h in PLAIN:
        for what, (pay, extra) in PAY.items():
            if h in ("TP", "T") and "'B'" not in pay and h == "T" and "'bee'" not in pay:
                pay = pay.replace("k: y", "k: y, 'B': z", 1)
            yield case(f"{h}, {what}, no setting", SETUP, PREP + f"""
payload = choice("payload class", {pay}, collections.OrderedDict({pay}))
r = attempt(M.deserialize, payload, {h})
claim(r[0] == {'conv' if extra else 'ok'!r}, "{h} with {what}: {'keys are dropped' if extra else 'rejected'}:", r[1])
""")
            yield case(f"{h}, {what}, disallowed", SETUP, PREP + f"""
seen = []
def rec(c, keys):
    seen.append((c, set(keys)))
allow = choice("allow", False, True)
e = ExtraKeys(allow, choice("recorder", None, rec))
m = get_object_mapper()
how = choice("source", "global", "call", "annotation")
if how == "global":
    m.settings.add_global(e)
r = attempt(m.deserialize, {pay}, Annotated[{h}, e] if how == "annotation" else {h}, None, [e] if how == "call" else None)
extra = [{', '.join(extra)}]
if not extra:
    claim(r[0] == "ok", "rejected although there are no extra keys", r[1])
    claim(len(seen) == 0, "the recorder is called without extra keys")
elif not allow:
    claim(r[0] == "conv", "disallowed extra keys are dropped:", r[1])
    claim(len(seen) == 0, "the recorder is called although extra keys are disallowed")
else:
    claim(r[0] == "ok", "allowed extra keys are rejected", r[1])
    claim(len(seen) == (1 if e.recorder else 0), "the recorder is called", len(seen), "times")
    if seen:
        claim(len(seen[0][1]) == len(extra) and all(q in seen[0][1] for q in extra), "the recorder is told", seen[0][1], "instead of", extra)
        claim(isinstance(seen[0][0], Context) and seen[0][0].key is Context.ROOT, "the recorder gets another context")
""")
        # a decorated class, and the priority of settings
    for h in ("D", "T", "N", "Fl", "Gen[Any]"):
        yield case(f"{h}, setting on the class", SETUP, PREP + f"""
seen = []
C = {h.split('[')[0]}
allow = choice("allow", False, True)
ExtraKeys(allow, lambda c, keys: seen.append(set(keys)))(C)
r = attempt(M.deserialize, {{'a': x, 'B': y, k: z}}, {h})
claim(r[0] == ("ok" if allow else "conv"), "ExtraKeys(", allow, ") on the class:", r[0], r[1])
claim(len(seen) == (1 if allow else 0) and all(k in s and len(s) == 1 for s in seen), "the recorder is told", seen)
q = attempt(M.deserialize, {{'a': x, 'B': y, k: z}}, {h}, None, [ExtraKeys(not allow, None, choice("priority", Priority.LOW, Priority.NORMAL))])
claim(q[0] == r[0], "a global setting of lower or equal priority overrides the class's")
q = attempt(M.deserialize, {{'a': x, 'B': y, k: z}}, {h}, None, [ExtraKeys(not allow, None, Priority.HIGH)])
claim(q[0] == ("conv" if allow else "ok"), "a setting of higher priority does not override the class's")
""")
    for h, attr in REMAINDER.items():
        get = "r[1]['rest']" if h == "RemTD" else f"r[1].{attr}"
        for what, (pay, extra) in PAY.items():
            if "'a': x" in pay and "'B'" not in pay and h == "RemTD" and "'bee'" not in pay:
                pay = pay.replace("k: y", "k: y, 'B': z", 1)
            if h == "Rem" and ("0:" in pay or "None:" in pay or "(1, 2)" in pay):
                continue
            yield case(f"{h}, {what}", SETUP, PREP + f"""
payload = {pay}
e = choice("setting", [], [ExtraKeys(False)], [ExtraKeys(True, lambda c, keys: log("recorded", keys))])
r = attempt(M.deserialize, payload, {h}, None, e)
claim(r[0] == "ok", "{h} with {what} is rejected", r[1])
if r[0] == "ok":
    rest = {get}
    extra = [{', '.join(extra)}]
    claim(isinstance(rest, Mapping), "the remainder field gets", rest)
    claim(len(rest) == len(extra), "the remainder field gets the keys", list(rest), "instead of", extra)
    for q in extra:
        claim(q in rest and same(rest[q], payload[q]), "the remainder field does not get the value of", q)
    claim([q for q in rest] == [q for q in payload if q in extra], "the remainder has the keys in another order")
    claim(len(logged("recorded")) == 0, "keys handed to the remainder field are reported as extra")
""")
    yield case("the remainder is converted", SETUP + """
@dataclass
class R:
    a: int
    rest: Annotated[Dict[Num, Pt], Remainder()]
""", """
r = attempt(M.deserialize, {'a': 1, 1: {'x': val('x', int)}}, R)
claim(r[0] == "ok" and list(r[1].rest) == [Num.ONE] and isinstance(r[1].rest[Num.ONE], Pt), "the remainder is not converted:", r[1])
r = attempt(M.deserialize, {'a': 1, 'zz': {'x': val('x', int)}}, R)
claim(r[0] == "conv", "the keys of the remainder are not converted:", r[1])
r = attempt(M.deserialize, {'a': 1, 1: {'x': val('x', int), 'q': 0}}, R)
claim(r[0] == "conv", "the values of the remainder drop keys:", r[1])
""")
    yield case("a disabled remainder", SETUP + """
@dataclass
class R:
    a: int
    rest: Annotated[Dict[str, Any], Remainder(False)]
""", """
r = attempt(M.deserialize, {'a': 1, 'rest': {}, 'zz': 1}, R)
claim(r[0] == "conv", "a disabled remainder field swallows keys:", r[1])
r = attempt(M.deserialize, {'a': 1, 'rest': {'q': 2}}, R)
claim(r[0] == "ok" and list(r[1].rest) == ['q'], "a disabled remainder field is not read under its key:", r[1])
""")
    # nested structures and unions: the setting that applies to that structure
    wraps = {
        "List[D]": "[{'a': x, 'B': y, k: z}]", "Dict[str, D]": "{'q': {'a': x, 'B': y, k: z}}", "Optional[D]": "{'a': x, 'B': y, k: z}",
        "Tuple[int, D]": "(1, {'a': x, k: z})", "Holder": "{'d': {'a': x, k: z}}", "t.Union[int, D]": "{'a': x, k: z}",
        "UN": "{'type': 'd', 'd': {'a': x, k: z}}", "UF": "{'type': 'd', 'a': x, k: z}", "UK": "{'d': {'a': x, k: z}}",
        "Annotated[Any, DeserializeAs(D)]": "{'a': x, k: z}", "Annotated[Holder, ExtraKeys(True)]": "{'d': {'a': x, k: z}}",
        "Annotated[List[D], ExtraKeys(True)]": "[{'a': x, k: z}]", "TH": "{'d': {'a': x, k: z}}",
    }
    for h, pay in wraps.items():
        if h.startswith("Annotated[Any"):
            continue
        yield case(f"extra keys inside {h}", SETUP + """
@dataclass
class Holder:
    d: D
class TH(TypedDict):
    d: D
UN = Annotated[t.Union[D, A], Union({'d': D, 'a': A})]
UF = Annotated[t.Union[D, A], Union({'d': D, 'a': A}, Union.FLAT)]
UK = Annotated[t.Union[D, A], Union({'d': D, 'a': A}, Union.KEYED)]
""", PREP + f"""
r = attempt(M.deserialize, {pay}, {h})
claim(r[0] == "conv", "extra keys inside {h} are dropped:", r[1])
seen = []
r = attempt(M.deserialize, {pay}, {h}, None, [ExtraKeys(True, lambda c, keys: seen.append(set(keys)))])
claim(r[0] == "ok", "allowed extra keys inside {h} are rejected:", r[1])
claim(len(seen) == 1 and len(seen[0]) == 1 and k in seen[0], "the recorder is told", seen)
""")
    yield case("extra keys of the outer structure only", SETUP + """
@dataclass
class Holder:
    d: Annotated[D, ExtraKeys(True)]
""", PREP + """
claim(attempt(M.deserialize, {'d': {'a': x, k: z}}, Holder)[0] == "ok", "ExtraKeys on a field's hint is not in effect")
claim(attempt(M.deserialize, {'d': {'a': x}, k: z}, Holder)[0] == "conv", "ExtraKeys on a field's hint is in effect for the structure around it")
""")
    yield case("a structure without fields", SETUP, PREP + """
claim(attempt(M.deserialize, {}, Empty)[0] == "ok", "an empty payload is rejected")
claim(attempt(M.deserialize, {k: x}, Empty)[0] == "conv", "keys are dropped")
claim(attempt(M.deserialize, {'': x}, Annotated[Empty, ExtraKeys(False)])[0] == "conv", "keys are dropped")
""")
    # arbitrary mappings of a foreign class
    for h in ("D", "N", "Empty", "Fl2"):
        yield case(f"{h} from any mapping of up to two keys", SETUP, f"""
v = val("v", choice("class", dict, FrozenMap), sizes=[1, 2])
r = attempt(M.deserialize, v, {h})
keys = [q for q in v]
if r[0] == "ok":
    claim(all(q == 'a' or q == 'B' or q == 'bee' for q in keys), "a key is dropped: ", keys)
    claim(not (len(keys) == 2 and all(q == 'B' or q == 'bee' for q in keys)), "an alias is dropped:", keys)
""", max_paths=300)
