"""C23: containers convert every element with its declared type."""
from .common import *

RULE = ("for every container type and every size up to the bound, each element, key and value is handed to the dispatcher exactly once "
        "with its declared type, in order, and the result consists of exactly the dispatcher's answers, in the container type required "
        "by the direction; containers without one determinable item type are errors")

SETUP = TYPES + """
class K:
    pass
class L:
    pass
class Made:
    'what the probe makes of an element'
    def __init__(self, src, hint):
        self.src, self.hint = src, hint
class Stop(Exception):
    pass
class Probe(Converter):
    'takes over the elements'
    def __init__(self, answers=None):
        self.answers = answers or {}
    def convert(self, ctx):
        hint = ctx.datatype
        while type(hint).__name__ == 'AnnotatedTypeHint':
            hint = hint[0]
        if type(hint).__name__ == 'ClassTypeHint' and (hint.type is K or hint.type is L):
            for src, r in self.answers.items():
                if src is ctx.value:
                    if isinstance(r, Exception):
                        raise r
                    return r
            m = Made(ctx.value, hint.type)
            log("part", ctx.value, hint.type, m, ctx.direction)
            return m
        raise NotImplementedError
def mapper(answers=None):
    m = get_object_mapper()
    m.module.register(Probe(answers), first=True)
    return m
def handed():
    return [(x[1], x[2]) for x in logged("part")]
def made():
    return [x[3] for x in logged("part")]
def same_seq(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))
def check_parts(want, what):
    'want: (value, type) in order'
    got = handed()
    claim(len(got) == len(want) and all(a is c and b is d for (a, b), (c, d) in zip(got, want)), what, ": converts", got, "instead of", want)
def check_set(want, what):
    got = handed()
    claim(len(got) == len(want) and all(any(a is c and b is d for c, d in want) for a, b in got) and all(any(a is c for a, b in got) for c, d in want), what, ": converts", got)
@dataclass
class KL:
    k: K
    l: L
class LSub(List[K]):
    pass
class LSub2(LSub):
    pass
class DSub(Dict[str, K]):
    pass
class GL(List[T1]):
    pass
class GD(Dict[str, T1]):
    pass
class Keys(Dict[K, L]):
    pass
class GT(tuple, t.Sequence[T1]):
    pass
class GTK(GT[K]):
    pass
x, y, z = atom('x'), atom('y'), atom('z')
"""
# hint -> constructor of the value to serialize, check on the deserialized result
SEQ = {
    "List[K]": ("list", "list"), "list[K]": ("list", "list"), "t.Sequence[K]": ("list", "list"), "t.MutableSequence[K]": ("list", "list"), "t.Collection[K]": ("tuple", "list"),
    "Tuple[K, ...]": ("tuple", "tuple"), "tuple[K, ...]": ("tuple", "tuple"), "t.Deque[K]": ("collections.deque", "collections.deque"), "LSub": ("LSub", "LSub"), "LSub2": ("LSub2", "LSub2"),
    "GL[K]": ("GL", "GL"), "GT[K]": ("GT", "GT"), "GTK": ("GTK", "GTK"), "collections.abc.Sequence[K]": ("tuple", "list"), "Annotated[List[K], 'x']": ("list", "list"), "List[Annotated[K, 'x']]": ("list", "list"), "collections.deque[K]": ("collections.deque", "collections.deque"),
    "Optional[List[K]]": ("list", "list"),
}
SETS = {"Set[K]": ("set", "set"), "set[K]": ("set", "set"), "t.FrozenSet[K]": ("frozenset", "frozenset"), "frozenset[K]": ("frozenset", "frozenset"),
        "t.AbstractSet[K]": ("set", "list"), "t.MutableSet[K]": ("set", "list")}
MAPS = {"Dict[{k}, {v}]": ("dict", "dict"), "dict[{k}, {v}]": ("dict", "dict"), "Mapping[{k}, {v}]": ("dict", "dict"), "t.MutableMapping[{k}, {v}]": ("dict", "dict"),
        "t.OrderedDict[{k}, {v}]": ("collections.OrderedDict", "collections.OrderedDict"), "collections.abc.Mapping[{k}, {v}]": ("dict", "dict"), "Annotated[Dict[{k}, {v}], 'x']": ("dict", "dict")}
SCALARS = [("List[str]", "['a', 'b']", 2), ("List[int]", "[1, 2]", 2), ("List[bool]", "[True]", 1), ("List[float]", "[1.5, 2.0]", 2), ("List[bytes]", "[b'x']", 1), ("List[Decimal]", "[Decimal(1)]", 1), ("List[date]", "[date(2020, 1, 1)]", 1),
           ("List[type(None)]", "[None, None]", 2), ("Dict[str, int]", "{'a': 1, 'b': 2}", 4), ("Dict[str, str]", "{'a': 'x'}", 2), ("Dict[int, str]", "{1: 'x'}", 2), ("Mapping[str, Any]", "{'a': None}", 2) if False else ("Mapping[str, float]", "{'a': 1.0}", 2),
           ("Tuple[str, int]", "('a', 1)", 2), ("Tuple[str, ...]", "('a', 'b')", 2), ("List[List[str]]", "[['a'], ['b', 'c'], []]", 3), ("Dict[str, List[str]]", "{'a': ['b']}", 2), ("List[Optional[str]]", "['a']", 1), ("Optional[List[int]]", "[1]", 1),
           ("List[t.Union[int, str]]", "['a', 1]", 2), ("t.Collection[str]", "['a']", 1), ("t.Sequence[str]", "['a']", 1), ("List[Annotated[str, 'x']]", "['a']", 1) if False else ("t.MutableSequence[str]", "['a', '']", 2),
           ("t.OrderedDict[str, str]", "collections.OrderedDict({'a': ''})", 2)]
SIZES = [0, 1, 2, 3]
TUPLES = [("Tuple[K]", ["K"]), ("Tuple[K, L]", ["K", "L"]), ("Tuple[L, K, K]", ["L", "K", "K"]), ("tuple[K, L]", ["K", "L"]), ("Annotated[Tuple[K, L], 'x']", ["K", "L"]), ("Tuple[()]", [])]
NOITEM = ["list", "List", "set", "tuple", "t.Sequence", "t.Collection", "frozenset", "collections.deque"]
NOMAP = ["dict", "Dict", "Mapping", "t.MutableMapping", "collections.OrderedDict"]


def seq(n):
    return ["x", "y", "z"][:n]


def cases(sizes=SIZES):
    for h, (ctor, res) in SEQ.items():
        for n in sizes:
            its = seq(n)
            want = "[" + ", ".join(f"({i}, K)" for i in its) + "]"
            for d in ("read", "write"):
                for src in (("list", "tuple") if d == "read" else (ctor,)):
                    v = f"{src}([{', '.join(its)}])"
                    yield case(f"{d} {h} of {n} from {src}", SETUP, f"""
r = attempt(mapper().{'deserialize' if d == 'read' else 'serialize'}, {v}, {h})
claim(r[0] == "ok", "{d} {h}: fails with", r[1])
check_parts({want}, \"\"\"{d} {h}\"\"\")
if r[0] == "ok":
    claim(type(r[1]) is {res if d == 'read' else 'list'}, \"\"\"{d} {h}: gives a\"\"\", type(r[1]))
    claim(same_seq(r[1], made()), \"\"\"{d} {h}: the result holds\"\"\", list(r[1]))
""")
        yield case(f"equal elements of {h}", SETUP, f"""
for f, v in ((mapper().deserialize, [x, y, x, x]), (mapper().serialize, {ctor}([x, y, x, x]))):
    n = len(made())
    r = f(v, {h})
    claim(len(r) == 4 and same_seq(r, made()[n:]), \"\"\"{h}: equal elements are merged or reused:\"\"\", list(r))
""")
        yield case(f"falsy answers for {h}", SETUP, f"""
for a in (None, 0, False, '', [], {{}}):
    mp = mapper({{x: a}})
    r = mp.deserialize([x, y, x], {h})
    claim(len(r) == 3 and eqv(list(r)[0], a) and eqv(list(r)[2], a), \"\"\"{h}: a converted element\"\"\", a, "is lost:", list(r))
    r = mp.serialize({ctor}([y, x]), {h})
    claim(len(r) == 2 and eqv(r[1], a), \"\"\"{h}: a converted element\"\"\", a, "is lost on writing:", r)
""")
        yield case(f"errors in {h}", SETUP, f"""
for i in (0, 1, 2):
    e = Stop("inner")
    v = [y, y, y]
    v[i] = x
    for f, vv in ((mapper({{x: e}}).deserialize, v), (mapper({{x: e}}).serialize, {ctor}(v))):
        r = attempt(f, vv, {h})
        claim(r[0] == "exc" and r[1] is e, \"\"\"{h}: an error for the element at\"\"\", i, "turns into", r[1])
""")
    for h, (ctor, res) in SETS.items():
        for n in sizes:
            its = seq(n)
            want = "[" + ", ".join(f"({i}, K)" for i in its) + "]"
            yield case(f"read {h} of {n}", SETUP, f"""
r = attempt(mapper().deserialize, [{', '.join(its)}], {h})
claim(r[0] == "ok", "read {h}: fails with", r[1])
check_parts({want}, "read {h}")
if r[0] == "ok":
    claim(type(r[1]) is {res}, "read {h}: gives a", type(r[1]))
    claim(len(r[1]) == {n} and all(m in r[1] for m in made()), "read {h}: the result holds", r[1])
""")
            yield case(f"write {h} of {n}", SETUP, f"""
r = attempt(mapper().serialize, {ctor}([{', '.join(its)}]), {h})
claim(r[0] == "ok", "write {h}: fails with", r[1])
check_set({want}, "write {h}")
if r[0] == "ok":
    claim(type(r[1]) is list, "write {h}: gives a", type(r[1]))
    claim(same_seq(r[1], made()), "write {h}: the result holds", r[1])
""")
        yield case(f"elements of {h} written as equal or unhashable values", SETUP, f"""
for a, c in (('s', 's'), (1, True), ([], []), ({{}}, [1]), (None, 0), (0, 0.0)):
    r = attempt(mapper({{x: a, y: c}}).serialize, {ctor}([x, y]), {h})
    claim(r[0] == "ok" and type(r[1]) is list and len(r[1]) == 2 and (r[1][0] is a and r[1][1] is c or r[1][0] is c and r[1][1] is a), "elements written as", a, "and", c, "end as", r[1])
""")
        yield case(f"unhashable elements for {h}", SETUP, f"""
r = attempt(mapper({{x: []}}).deserialize, [x], {h})
claim(r[0] == "conv" or r[0] == "ok" and eqv(r[1], [[]]), "{h} of unhashable elements gives", r[1])
""")
    for h, types in TUPLES:
        its = seq(len(types))
        want = "[" + ", ".join(f"({i}, {k})" for i, k in zip(its, types)) + "]"
        tup = "(" + "".join(i + ", " for i in its) + ")"
        for d in ("read", "write"):
            yield case(f"{d} {h}", SETUP, f"""
r = attempt(mapper().{'deserialize' if d == 'read' else 'serialize'}, {tup if d == 'write' else '[' + ', '.join(its) + ']'}, {h})
claim(r[0] == "ok", \"\"\"{d} {h}: fails with\"\"\", r[1])
check_parts({want}, \"\"\"{d} {h}\"\"\")
if r[0] == "ok":
    claim(type(r[1]) is {'tuple' if d == 'read' else 'list'} and same_seq(r[1], made()), \"\"\"{d} {h}: gives\"\"\", r[1])
""")
            for n in range(0, 5):
                if n == len(types):
                    continue
                v = ["x", "y", "z", "x"][:n]
                yield case(f"{d} {h} from {n} elements", SETUP, f"""
r = attempt(mapper().{'deserialize' if d == 'read' else 'serialize'}, {'(' + ''.join(i + ', ' for i in v) + ')' if d == 'write' else '[' + ', '.join(v) + ']'}, {h})
claim(r[0] == "conv", \"\"\"{d} {h} from {n} elements gives\"\"\", r[1])
""")
    for hm, (ctor, res) in MAPS.items():
        for k, v in (("str", "K"), ("K", "str"), ("K", "L"), ("L", "K"), ("int", "K")):
            h = hm.format(k=k, v=v)
            for n in sizes:
                ks = {"str": ["'p'", "'q'", "'r'"], "int": ["1", "2", "3"]}.get(k, ["x", "y", "z"])[:n]
                vs = {"str": ["'a'", "'b'", "'a'"]}.get(v, ["atom('v0')", "atom('v1')", "atom('v2')"])[:n]
                for d in ("read", "write"):
                    src = "dict" if d == "read" else ctor
                    yield case(f"{d} {h} of {n}", SETUP, f"""
ks, vs = [{', '.join(ks)}], [{', '.join(vs)}]
r = attempt(mapper().{'deserialize' if d == 'read' else 'serialize'}, {src}({{{', '.join(f'ks[{i}]: vs[{i}]' for i in range(n))}}}), {h})
claim(r[0] == "ok", "{d} {h}: fails with", r[1])
got = handed()
want = []
for a, b in zip(ks, vs):
    want += {'[(a, ' + k + ')]' if k in 'KL' else '[]'} + {'[(b, ' + v + ')]' if v in 'KL' else '[]'}
claim(len(got) == len(want) and all(any(a is c and b is d for c, d in got) for a, b in want), "{d} {h}: converts", got, "instead of", want)
if r[0] == "ok":
    claim(type(r[1]) is {res if d == 'read' else 'dict'}, \"\"\"{d} {h}: gives a\"\"\", type(r[1]))
    def of(o, hint):
        for x in logged("part"):
            if x[1] is o and x[2] is hint:
                return x[3]
        return o
    wk, wv = [of(a, {k}) for a in ks], [of(b, {v}) for b in vs]
    claim(same_seq(r[1].keys(), wk), "{d} {h}: the keys are", list(r[1]), "instead of", wk)
    claim(same_seq(r[1].values(), wv), "{d} {h}: the values are", list(r[1].values()), "instead of", wv)
""".replace('"{d} {h}', '"""{d} {h}').replace(f'"{d} {h}: fails with"', f'"""{d} {h}: fails with"""').replace(f'"{d} {h}: converts"', f'"""{d} {h}: converts"""').replace(f'"{d} {h}: the keys are"', f'"""{d} {h}: the keys are"""').replace(f'"{d} {h}: the values are"', f'"""{d} {h}: the values are"""'))
    for h, ctor in (("DSub", "DSub"), ("GD[K]", "GD")):
        yield case(f"mapping class {h}", SETUP, f"""
for f, v, c in ((mapper().deserialize, {{'p': x, 'q': y}}, {ctor}), (mapper().serialize, {ctor}({{'p': x, 'q': y}}), dict)):
    n = len(made())
    r = f(v, {h})
    claim(type(r) is c and list(r) == ['p', 'q'] and same_seq(r.values(), made()[n:]) and len(made()) == n + 2, "{h}: gives", type(r), r)
""")
    yield case("falsy values of mappings", SETUP, """
for a in (None, 0, False, '', [], {}):
    mp = mapper({x: a})
    for f in (mp.deserialize, mp.serialize):
        r = f({'p': x, 'q': y}, Dict[str, K])
        claim(list(r) == ['p', 'q'] and eqv(r['p'], a), "a converted value", a, "is lost:", r)
for a in (None, 0, False, ''):
    mp = mapper({x: a})
    for f in (mp.deserialize, mp.serialize):
        r = f({x: 'v'}, Dict[K, str])
        claim(len(r) == 1 and eqv(list(r)[0], a) and r[a] == 'v', "a converted key", a, "is lost:", r)
""")
    for n in ("Stop('inner')", "KeyError('inner')", "TypeError('inner')", "ValueError('inner')"):
        for h, p in (("List[K]", "[y, x]"), ("Set[K]", "[y, x]"), ("Tuple[K, ...]", "[y, x]"), ("Tuple[L, K]", "[y, x]"), ("Dict[str, K]", "{'p': y, 'q': x}"), ("Dict[K, str]", "{y: 's', x: 's'}"), ("t.Deque[K]", "[y, x]"), ("t.OrderedDict[str, K]", "{'p': y, 'q': x}")):
            yield case(f"{n} of an element of {h}", SETUP, f"""
e = {n}
r = attempt(mapper({{x: e}}).deserialize, {p}, {h})
claim(r[0] == "exc" and r[1] is e, "{h}: the error of an element turns into", r[1])
""")
    for h in NOITEM:
        for d in ("deserialize", "serialize"):
            yield case(f"{d} {h} without item type", SETUP, f"""
c = choice("value", [1], [], ['a', x], (1,), {{1}}, ())
r = attempt(M.{d}, c, {h})
claim(r[0] == "conv", "{d} {h}, whose item type is unknown, gives", r[1])
""")
    for h in NOMAP:
        for d in ("deserialize", "serialize"):
            yield case(f"{d} {h} without key and value types", SETUP, f"""
c = choice("value", {{}}, {{'a': 1}}, {{x: y}})
r = attempt(M.{d}, c, {h})
claim(r[0] == "conv", "{d} {h}, whose key and value types are unknown, gives", r[1])
""")
    for defs, h, p in (("class Two(List[K], t.Collection[L]):\n    pass\n", "Two", "[x]"), ("class Two(Dict[str, K], Mapping[str, L]):\n    pass\n", "Two", "{'p': x}"),
                       ("class Two(Dict[str, K], Mapping[int, K]):\n    pass\n", "Two", "{'p': x}")):
        yield case(f"several item types: {defs[6:40]}", SETUP + defs, f"""
r = attempt(mapper().deserialize, {p}, {h})
claim(r[0] == "conv", "a container with several item types gives", r[1])
""")
    for h, p, want in (("List[List[K]]", "[[x], [], [y, z]]", "[1, 0, 2]"), ("List[Tuple[K, L]]", "[[x, y], [z, x]]", "[2, 2]"), ("Tuple[List[K], ...]", "[[x], [y]]", "[1, 1]"), ("t.Sequence[Set[K]]", "[[x, y], []]", "[2, 0]")):
        yield case(f"nested {h}", SETUP, f"""
r = mapper().deserialize({p}, {h})
claim([len(i) for i in r] == {want}, "{h}: sizes are", [len(i) for i in r])
claim(len(made()) == sum({want}) and all(any(m in i for i in r) for m in made()), "{h}: gives", r)
""")
    yield case("a mapping of lists of mappings", SETUP, """
r = mapper().deserialize({'p': [{1: x}, {}], 'q': []}, Dict[str, List[Dict[int, K]]])
claim(list(r) == ['p', 'q'] and len(r['p']) == 2 and list(r['p'][0]) == [1] and r['p'][0][1] is made()[0] and eqv(r['p'][1], {}) and eqv(r['q'], []), "gives", r)
""")
    for jt, h, v in (("tuple", "List[K]", "[x, y]"), ("tuple", "Set[K]", "{x}"), ("tuple", "Tuple[K, L]", "(x, y)"), ("LSub", "List[K]", "[x]")):
        yield case(f"json_collection_type={jt} for {h}", SETUP, f"""
mp = ObjectMapper()
mp.module.register(Probe()); mp.module.register(jc.CollectionConverter({jt}))
r = mp.serialize({v}, {h})
claim(type(r) is {jt} and same_seq(r, made()), "written as", type(r), r)
""")
    yield case("json_mapping_type", SETUP, """
mp = ObjectMapper()
mp.module.register(Probe()); mp.module.register(jc.MappingConverter(collections.OrderedDict)); mp.module.register(jc.StringifyConverter(str) if False else jc.PlainDatatypeConverter())
r = mp.serialize({'p': x, 'q': y}, Dict[str, K])
claim(type(r) is collections.OrderedDict and list(r) == ['p', 'q'] and same_seq(r.values(), made()), "written as", type(r), r)
r = mp.deserialize({'p': x}, Dict[str, K])
claim(type(r) is dict, "read as", type(r))
""")
    for b in ("'xy'", "b'xy'", "bytearray(b'x')", "{'x': 1}", "5", "None", "x"):
        for h in ("List[K]", "Set[K]", "Tuple[K, ...]", "Tuple[K, L]", "t.Sequence[K]", "t.Collection[K]", "t.Deque[K]"):
            yield case(f"no elements in {b} for {h}", SETUP, f"""
r = attempt(mapper().deserialize, {b}, {h})
claim(r[0] == "conv" and made() == [], "{h} is read from", {b}, ":", r[1])
""")
    for d in ("deserialize", "serialize"):
        for b in ("[]", "[('a', 1)]", "'ab'", "5", "None", "x"):
            yield case(f"{d}: no entries in {b}", SETUP, f"""
r = attempt(mapper().{d}, {b}, Dict[str, K])
claim(r[0] == "conv", "a mapping is {d}d from", {b}, ":", r[1])
""")

    # scalar types with a converter of the user's own: their elements are handed to it, too
    for h, v, n in SCALARS:
        yield case(f"a converter of its own for the parts of {h}", SETUP + """
class Own(Converter):
    def __init__(self, types):
        self.types = types
    def convert(self, ctx):
        if getattr(ctx.datatype, 'type', None) in self.types and type(ctx.datatype).__name__ == 'ClassTypeHint':
            m = Made(ctx.value, ctx.datatype.type)
            log("own", ctx.value, m, ctx.datatype.type)
            return m
        raise NotImplementedError
def atoms(o):
    if isinstance(o, Made):
        return [o]
    if isinstance(o, Mapping):
        return [m for k, w in o.items() for m in atoms(k) + atoms(w)]
    if isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        return [m for w in o for m in atoms(w)]
    return [o]
""", f"""
m = get_object_mapper()
m.module.register(Own((int, str, bool, float, bytes, Decimal, date, type(None))), first=True)
d = choice("direction", SER, DES)
v = {v}
r = attempt(m.convert, d, v, {h})
claim(r[0] == "ok", "fails with", r[1])
own = logged("own")
claim(len(own) == {n}, "the converter of the parts is asked", len(own), "times instead of", {n})
if r[0] == "ok":
    got = atoms(r[1])
    claim(len(got) == {n} and all(isinstance(g, Made) for g in got), "the result holds", got)
""")

    vals = ["None", "0", "False", "''", "[]", "{}", "'s'", "7", "1.5", "True", "()", "val('any')", "val('s', str)", "val('n', int)", "Color.RED", "Pt(1)"]
    hashed = [v for v in vals if v not in ("[]", "{}", "val('any')", "Pt(1)")] + ["(1, 2)", "val('h', hashable=True)"]
    for v in vals:
        yield case(f"elements are converted whatever they are: {v}", SETUP, f"""
v = {v}
mp = mapper()
for hint, dv, sv in ((List[K], [v], [v]), (Tuple[K, ...], [v], (v,)), (Tuple[L, K], [x, v], (x, v)), (t.Deque[K], [v], collections.deque([v])), (Dict[str, K], {{'p': v}}, {{'p': v}}), (t.OrderedDict[str, K], {{'p': v}}, collections.OrderedDict({{'p': v}})), (List[List[K]], [[v]], [[v]])):
    for f, a in ((mp.deserialize, dv), (mp.serialize, sv)):
        n = len(logged("part"))
        r = attempt(f, a, hint)
        claim(r[0] == "ok", hint, ": fails with", r[1])
        got = [e for e in logged("part")[n:] if e[2] is K]
        claim(len(got) == 1 and same(got[0][1], v), hint, ": the element", v, "is not converted as declared but", got)
        if r[0] == "ok":
            out = r[1]
            out = list(out.values()) if isinstance(out, dict) else list(out)
            out = out[0] if type(out[0]) is list else out
            claim(any(got and o is got[0][3] for o in out), hint, ": the result holds", out)
""")
    for v in hashed:
        yield case(f"keys and set items are converted whatever they are: {v}", SETUP, f"""
v = {v}
mp = mapper()
for hint, dv, sv in ((Dict[K, L], {{v: x}}, {{v: x}}), (Mapping[K, str], {{v: 's'}}, {{v: 's'}}), (Set[K], [v], {{v}}), (t.FrozenSet[K], [v], frozenset([v]))):
    for f, a in ((mp.deserialize, dv), (mp.serialize, sv)):
        n = len(logged("part"))
        r = attempt(f, a, hint)
        claim(r[0] == "ok", hint, ": fails with", r[1])
        got = [e for e in logged("part")[n:] if e[2] is K]
        claim(len(got) == 1 and same(got[0][1], v), hint, ": the key or item", v, "is not converted as declared but", got)
        if r[0] == "ok":
            claim(any(got and o is got[0][3] for o in r[1]), hint, ": the result holds", list(r[1]))
""")
