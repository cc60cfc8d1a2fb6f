"""C14: plain unions try members in order and take the first success."""
import itertools

from .common import *

RULE = ("for every way to declare a plain or best-match union and every pattern of success, failure, decline and foreign "
        "exception of its members, the members are asked in declared order with the unmodified value, the first success is "
        "the result, only ConversionErrors move on, and a failure carries every member's error")

SETUP = TYPES + """
class K1:
    pass
class K2:
    pass
class K3:
    pass
class K4:
    pass
class Boom(Exception):
    pass
class Sub(ConversionError):
    pass
class Conv(Converter):
    def __init__(self, plan):
        self.plan = plan
    def convert(self, ctx):
        hint = ctx.datatype
        while type(hint).__name__ == 'AnnotatedTypeHint':
            hint = hint[0]
        if type(hint).__name__ == 'ClassTypeHint' and hint.type.__name__ in self.plan:
            log("asked", hint.type.__name__, ctx.value, ctx.key, ctx.direction)
            how, x = self.plan[hint.type.__name__]
            if how == "ok":
                return x
            if how == "fail":
                x = ConversionError(self, ctx, hint.type.__name__ + " failed")
                log("error", x)
                raise x
            if how == "sub":
                x = Sub(self, ctx, hint.type.__name__ + " failed")
                log("error", x)
                raise x
            if how == "boom":
                raise x
            raise NotImplementedError
        raise NotImplementedError
BOOMS = (Boom, ValueError, TypeError, KeyError, AssertionError, AttributeError, RuntimeError, LookupError, StopIteration)
def mapper(plan):
    m = get_object_mapper()
    m.module.register(Conv(plan), first=True)
    return m
"""

UNIONS = {
    "typing.Union": "t.Union[K1, K2, K3]",
    "bar": "(K1 | K2 | K3)",
    "annotated": "Annotated[t.Union[K1, K2, K3], 'x']",
    "annotated members": "t.Union[Annotated[K1, 'x'], K2, Annotated[K3, Alias('b')]]",
    "best match": "Annotated[t.Union[K1, K2, K3], Union({'c': K1, 'b': K2, 'a': K3}, Union.BEST_MATCH)]",
    "best match, other order than the hint": "Annotated[t.Union[K3, K2, K1], Union({'c': K1, 'a': K2, 'b': K3}, Union.BEST_MATCH)]",
    "best match, chain": "Annotated[t.Union[K1, K2, K3], Union([{'z': K1}, {'y': K2, 'x': K3}], Union.BEST_MATCH)]",
    "best match, deferred": "Annotated[t.Union[K1, K2, K3], Union({'z': lambda: K1, 'y': K2, 'x': lambda: K3}, Union.BEST_MATCH)]",
    "best match, class": "Deco",
    "nested unions": "t.Union[K1, t.Union[K2, K3]]",
}
DECO = """
@Union(style=Union.BEST_MATCH)
class Deco(abc.ABC):
    pass
Deco.members = None
get_class_setting(Deco, Union).members.register('k1')(K1)
get_class_setting(Deco, Union).members.register('a2')(K2)
get_class_setting(Deco, Union).members.register('b3')(K3)
"""
PLANS = ["ok", "fail", "sub", "boom", "decline"]

# every two of the built-in types, in either order: what the first of them accepts is its
PAYLOADS = ["val('s', str)", "val('i', int)", "choice('bool', True, False)", "val('f', float)", "None", "[]", "['1']", "{}", "{'x': 1}", "{'a': '1'}", "{'days': 1}", "'RED'", "'P1D'"]
VALUES = {"int": "val('v', int)", "float": "val('v', float)", "str": "val('v', str)", "bool": "True", "bytes": "val('v', bytes)", "Decimal": "val('v', Decimal)",
          "date": "date(2020, 1, 2)", "datetime.datetime": "datetime.datetime(2020, 1, 2)", "time": "time(1, 2)", "Color": "Color.RED", "Num": "Num.ONE", "uuid.UUID": "val('v', uuid.UUID)",
          "pathlib.Path": "val('v', pathlib.PosixPath)", "duration": "val('v', duration)", "List[int]": "[1]", "Set[str]": "{'1'}", "Dict[str, int]": "{'x': 1}",
          "Pt": "Pt(1)", "A": "A(1)", "TD": "{'a': 1, 'b': ''}", "NT": "NT(1)"}


def pair(a, b):
    return case(f"plain union of {a} or {b}", SETUP, f"""
ms = ({a}, {b})
d = choice("direction", SER, DES)
v = choice("payload", {", ".join(PAYLOADS)}) if d is DES else choice("value", {VALUES[a]}, {VALUES[b]})
single = [attempt(M.convert, d, v, m) for m in ms]
hint = t.Union[ms]
r = attempt(M.convert, d, v, hint)
boom = [s for s in single if s[0] == "exc"]
if not boom and len(t.get_args(hint)) == 2 and len(set([m.__name__ for m in ms])) == 2:
    good = [s for s in single if s[0] == "ok"]
    if good:
        claim(r[0] == "ok" and exact(r[1], type(good[0][1])) and (eqv(r[1], good[0][1]) or r[1] == good[0][1]), "the first member that converts", v, "gives", good[0][1], "but the union gives", r[1])
    else:
        claim(r[0] == "conv" and len(r[1].errors) == 2, "no member converts", v, "but the union gives", r[1])
""", max_paths=120)


def cases():
    for what, expr in UNIONS.items():
        for d in ("deserialize", "serialize"):
            yield case(f"{d} as {what}", SETUP + DECO, f"""
v = choice("value", atom("v"), None, {{'type': 'K1'}})
plan, order = {{}}, []
for n in ('K1', 'K2', 'K3'):
    how = choice("plan " + n, "ok", "fail", "boom", {{'K1': "sub", 'K2': "decline", 'K3': "decline"}}[n])
    x = choice("result", atom("result"), None, 0, False, '', []) if how == "ok" else choice("exception", *BOOMS)(n) if how == "boom" else None
    plan[n] = (how, x)
    order.append(n)
    if how in ("ok", "boom"):
        break
r = attempt(mapper(plan).{d}, v, {expr})
asked = logged("asked")
claim([a[1] for a in asked] == order, "members asked in order", [a[1] for a in asked], "instead of", order)
for a in asked:
    claim(same(a[2], v), "a member is given", a[2], "instead of the value")
how, x = plan[order[-1]]
if how == "ok":
    claim(r[0] == "ok" and same(r[1], x), "the first success", x, "gives", r[1])
elif how == "boom":
    claim(r[0] == "exc" and r[1] is x, "another exception than ConversionError gives", r[1])
else:
    claim(r[0] == "conv", "all members fail:", r[1])
    if r[0] == "conv":
        errs = r[1].errors
        claim(len(errs) == 3, "the error carries", len(errs), "errors for 3 failed members")
        for e in logged("error"):
            claim(any(p[1] is e[1] and p[0] is e[1].origin for p in errs), "an error of a member is not carried:", e[1].message)
        claim(all(isinstance(p[1], ConversionError) for p in errs), "carries", errs)
""")
    # ---- metadata of a member applies to it
    for d in ("deserialize", "serialize"):
        yield case(f"metadata of members, {d}", SETUP, f"""
seen = []
class Look(Converter):
    def convert(self, ctx):
        h = ctx.datatype
        inner = h[0] if type(h).__name__ == 'AnnotatedTypeHint' else h
        if type(inner).__name__ == 'ClassTypeHint' and inner.type in (K1, K2, K3):
            seen.append((inner.type, ctx.get_setting(Alias), ctx.get_setting(Strict)))
            raise ConversionError(self, ctx, "no")
        raise NotImplementedError
m = get_object_mapper()
m.module.register(Look(), first=True)
a, s = Alias('b'), Strict(False)
r = attempt(m.{d}, 1, choice("hint", t.Union[Annotated[K1, a], K2, Annotated[K3, 'x', s]], Annotated[t.Union[Annotated[K1, a], K2, Annotated[K3, 'x', s]], 'y']))
claim(r[0] == "conv" and len(seen) == 3, "asked", seen)
if len(seen) == 3:
    claim(seen[0] == (K1, a, None) and seen[1] == (K2, None, None) and seen[2] == (K3, None, s), "the settings of the members are", seen)
""")
    yield case("metadata of real members", SETUP, """
r = attempt(M.deserialize, {'a': 1, 'z': 2}, t.Union[Annotated[A, ExtraKeys(True)], Pt])
claim(r[0] == "ok" and exact(r[1], A) and r[1].a == 1, "read as", r[1])
r = attempt(M.deserialize, '5', t.Union[Annotated[int, Strict(False)], str])
claim(r[0] == "ok" and exact(r[1], int), "read as", r[1])
""")
    # ---- real members
    for what, hint, order in [("int or str", "t.Union[int, str]", "int"), ("str or int", "t.Union[str, int]", "str"),
                              ("float or int", "t.Union[float, int]", "float"), ("int or float", "t.Union[int, float]", "int"),
                              ("bool or int", "t.Union[bool, int]", "bool"), ("int or bool", "t.Union[int, bool]", "int"),
                              ("bar int str", "(int | str)", "int")]:
        yield case(f"plain union of {what}", SETUP, f"""
v = choice("value", val('s', str), val('i', int), True, False, 0, '', val('f', float), None)
hint = choice("hint", {hint}, Annotated[{hint}, 'x'])
members = [m for m in t.get_args({hint})]
f = choice("direction", M.serialize, M.deserialize)
single = [attempt(f, v, m) for m in members]
r = attempt(f, v, hint)
good = [s for s in single if s[0] == "ok"]
if good:
    claim(r[0] == "ok" and exact(r[1], type(good[0][1])) and eqv(r[1], good[0][1]), "the first member that converts", v, "gives", good[0][1], "but the union gives", r[1])
else:
    claim(r[0] == "conv", "no member converts", v, "but the union gives", r[1])
""")
    names = list(VALUES)
    for a, b in itertools.permutations(names, 2):
        i, j = names.index(a), names.index(b)
        if "str" in (a, b) or (i - j) % len(names) in (1, 2, 5):
            yield pair(a, b)
    yield case("dataclasses in a plain union", SETUP, """
f = choice("hint", t.Union[A, B], t.Union[B, A], A | B, Annotated[t.Union[B, A], 1])
i, s = val('i', int), val('s', str)
v, want = choice("value", (A(i), {'a': i}), (B(s), {'b': s}))
r = attempt(M.serialize, v, f)
claim(r[0] == "ok" and eqv(r[1], want), "written as", r[1])
r = attempt(M.deserialize, want, f)
claim(r[0] == "ok" and eqv(r[1], v), "read as", r[1])
r = attempt(M.deserialize, {'c': 1}, f)
claim(r[0] == "conv" and len(r[1].errors) == 2, "read as", r[1])
r = attempt(M.serialize, Pt(i), f)
claim(r[0] == "conv" and len(r[1].errors) == 2, "written as", r[1])
""")
    yield case("equal values of different types go to the matching member", SETUP, """
for f, v in ((t.Union[int, bool], True), (t.Union[bool, int], 1), (t.Union[str, Color], Color.RED), (t.Union[int, Num], Num.ONE)):
    r = attempt(M.serialize, v, f)
    claim(r[0] == "ok" and not exact(r[1], Color, Num, datetime.datetime), "written as", r[1])
r = attempt(M.serialize, True, t.Union[int, bool])
claim(r[0] == "ok" and r[1] is True, "True is written as", r[1])
r = attempt(M.deserialize, True, t.Union[int, bool])
claim(r[0] == "ok" and r[1] is True, "True is read as", r[1])
""")
    yield case("equal unions in different order are asked in their own order", SETUP + """
@dataclass
class F:
    a: t.Union[K1, K2]
    b: t.Union[K2, K1]
    c: t.Union[K1, K2]
class G:
    pass
class GConv(Converter):
    def convert(self, ctx):
        if type(ctx.datatype).__name__ == 'ClassTypeHint' and ctx.datatype.type is G:
            return [ctx.spawn(1, h, i).convert() for i, h in enumerate([t.Union[K1, K2], t.Union[K2, K1], t.Union[K1, K2]])]
        raise NotImplementedError
""", """
x, y = atom('x'), atom('y')
plan = {'K1': ("ok", x), 'K2': ("ok", y)}
m = mapper(plan)
if choice("other mapper", False, True):
    m = [m, mapper(plan)]
else:
    m = [m, m]
f = choice("direction", SER, DES)
for i in range(2):
    for k, h, want in (('K1', t.Union[K1, K2], x), ('K2', t.Union[K2, K1], y), ('K2', K2 | K1, y), ('K1', K1 | K2, x), ('K1', Annotated[t.Union[K1, K2], 'a'], x), ('K2', Annotated[t.Union[K2, K1], 'a'], y),
                       ('K2', TypeHint(t.Union[K2, K1]), y), ('K1', TypeHint(t.Union[K1, K2]), x)):
        r = attempt(m[i].convert, f, 1, h)
        claim(r[0] == "ok" and same(r[1], want), "members in the order of", k, "first give", r[1])
for f in (SER, DES):
    m[1].module.register(GConv(), first=True)
    r = attempt(m[1].convert, f, 1, G)
    claim(r[0] == "ok" and same(r[1][0], x) and same(r[1][1], y) and same(r[1][2], x), "a converter's own members give", r[1])
r = attempt(m[0].deserialize, {'a': 1, 'b': 1, 'c': 1}, F)
claim(r[0] == "ok" and same(r[1].a, x) and same(r[1].b, y) and same(r[1].c, x), "fields give", r[1].a, r[1].b, r[1].c)
""")
    yield case("optional plain unions", SETUP, """
hint = choice("hint", t.Union[K1, K2, None], Optional[t.Union[K1, K2]], t.Union[None, K1, K2], K1 | None | K2)
falsy = choice("result", atom("result"), 0, '')
plan = {'K1': ("fail", None), 'K2': (choice("second", "ok", "fail"), falsy)}
v = choice("value", atom("v"), 0, '', [], None)
f = choice("direction", "s", "d")
m = mapper(plan)
r = attempt(m.serialize if f == "s" else m.deserialize, v, hint)
asked = [a[1] for a in logged("asked")]
if v is None:
    claim(r[0] == "ok" and r[1] is None and asked == [], "None gives", r[1])
else:
    claim(asked == ['K1', 'K2'], "members asked:", asked)
    claim(r[0] == "ok" and same(r[1], falsy) if plan['K2'][0] == "ok" else r[0] == "conv", "gives", r[1])
""")
    yield case("best match with a single member, with none and with nested best match", SETUP, """
x = atom('x')
plan = {'K1': ("ok", x), 'K2': ("fail", None), 'K3': ("ok", None)}
m = mapper(plan)
r = attempt(m.deserialize, 1, Annotated[Pt, Union({'k': K1}, Union.BEST_MATCH)])
claim(r[0] == "ok" and same(r[1], x), "gives", r[1])
r = attempt(m.deserialize, 1, Annotated[Pt, Union({}, Union.BEST_MATCH)])
claim(r[0] == "conv", "no members:", r[1])
H = Annotated[Pt, Union({'a': Annotated[Pt, Union({'k': K2}, Union.BEST_MATCH)], 'b': K3}, Union.BEST_MATCH)]
r = attempt(m.deserialize, 1, H)
claim(r[0] == "ok" and r[1] is None, "gives", r[1])
claim([a[1] for a in logged("asked")] == ['K1', 'K2', 'K3'], "asked", logged("asked"))
""")


def thorough_cases():
    for a, b in itertools.permutations(VALUES, 2):
        yield pair(a, b)
