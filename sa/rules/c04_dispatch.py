"""C04: dispatch tries converters in order and aggregates failures faithfully."""
from .common import *

RULE = ("for every arrangement of up to four converters (appended, registered first, in nested modules) and every "
        "combination of behaviours (result, None, falsy result, decline, conversion error, foreign error, subclasses of "
        "those), Module.convert consults exactly the converters the order prescribes and has the prescribed outcome")

SETUP = """
class Decline(NotImplementedError):
    pass
class MyError(ConversionError):
    pass
class Foreign(Exception):
    pass
class Conv(Converter):
    def __init__(self, name, act, result=None):
        self.name = name
        self.act = act
        self.result = result
        self.error = None
    def __repr__(self):
        return self.name
    def convert(self, ctx):
        log("call", self.name, ctx)
        act = self.act
        if act == "ret":
            return self.result
        if act == "none":
            return None
        if act == "falsy":
            return 0
        if act == "decline":
            raise NotImplementedError
        if act == "decline-sub":
            raise Decline("no")
        if act == "fail":
            self.error = ConversionError(self, ctx, "failed")
        elif act == "fail-sub":
            self.error = MyError(self, ctx, "failed")
        elif act == "fail-nomatch":
            self.error = NoMatchingConverter(self, ctx, [])
        elif act == "fail-nomatch-with":
            self.error = NoMatchingConverter(self, ctx, [(self, ConversionError(self, ctx, n)) for n in ("one", "two")])
        elif act == "value-error":
            self.error = ValueError("x")
        elif act == "runtime-error":
            self.error = RuntimeError("x")
        else:
            self.error = Foreign("x")
        raise self.error
def expected(order):
    'outcome, converters consulted, errors collected'
    seen = []
    errors = []
    for c in order:
        seen.append(c.name)
        if c.act in ("ret", "none", "falsy"):
            return ("ok", c, seen, errors)
        if c.act in ("value-error", "runtime-error", "foreign"):
            return ("exc", c, seen, errors)
        if c.act in ("fail", "fail-sub", "fail-nomatch", "fail-nomatch-with"):
            errors.append(c)
    return ("conv", None, seen, errors)
def judge(r, order, ctx, what):
    out, c, seen, errors = expected(order)
    calls = logged("call")
    claim([x[1] for x in calls] == seen, what, "consults the converters", [x[1] for x in calls], "instead of", seen)
    for x in calls:
        claim(ctx is None or same(x[2], ctx), what, "passes another context to a converter")
    claim(r[0] == out, what, "ends in", r[0], r[1], "instead of", out)
    if out == "ok" and r[0] == "ok":
        want = c.result if c.act == "ret" else None if c.act == "none" else 0
        claim(same(r[1], want), what, "does not return the converter's result but", r[1])
    if out == "exc" and r[0] == "exc":
        claim(same(r[1], c.error), what, "replaces an exception of a converter by", r[1])
    if out == "conv" and r[0] == "conv":
        if len(errors) == 1:
            claim(same(r[1], errors[0].error), what, "does not re-raise the only conversion error but", r[1])
        else:
            claim(isinstance(r[1], NoMatchingConverter), what, "does not raise NoMatchingConverter but", r[1])
            got = list(r[1].errors)
            claim(len(got) == len(errors), what, "reports", len(got), "of", len(errors), "errors")
            if len(got) == len(errors):
                for i in range(len(got)):
                    claim(same(got[i][1], errors[i].error) and same(got[i][0], errors[i]), what, "misreports error", i)
            claim(ctx is None or same(r[1].context, ctx), what, "reports another context")
"""
ACTS = '"ret", "none", "falsy", "decline", "decline-sub", "fail", "fail-sub", "fail-nomatch", "fail-nomatch-with", "value-error", "foreign"'
FEW = '"ret", "none", "decline", "fail", "foreign"'

LAYOUTS = {
    "registered one after the other": ("m = Module('m')\nfor c in (a, b, d):\n    m.register(c)", "(a, b, d)"),
    "registered first": ("m = Module('m')\nfor c in (a, b, d):\n    m.register(c, first=True)", "(d, b, a)"),
    "one registered first": ("m = Module('m')\nm.register(a)\nm.register(b, first=False)\nm.register(d, first=True)", "(d, a, b)"),
    "in a nested module": ("n = Module('n')\nn.register(b)\nn.register(d)\nm = Module('m')\nm.register(a)\nm.register(n)",
                           "(a, b, d)"),
    "with a nested module first": ("n = Module('n')\nn.register(b)\nn.register(d)\nm = Module('m')\nm.register(a)\n"
                                   "m.register(n, first=True)", "(b, d, a)"),
    "in doubly nested and empty modules": ("o = Module('o')\no.register(b)\nn = Module('n')\nn.register(Module('empty'))\n"
                                           "n.register(o)\nm = Module('m')\nm.register(n)\nm.register(a, first=True)\n"
                                           "m.register(d)", "(a, b, d)"),
    "filled after nesting": ("n = Module('n')\nm = Module('m')\nm.register(n)\nm.register(d)\nn.register(b)\n"
                             "n.register(a, first=True)", "(a, b, d)"),
}


def cases():
    for what, (build, order) in LAYOUTS.items():
        acts = ACTS if what == "registered one after the other" else FEW
        yield case(f"three converters {what}", SETUP, f"""
v = val("v")
a = Conv("a", choice("a does", {acts}), val("ra"))
b = Conv("b", choice("b does", {acts}), val("rb"))
d = Conv("d", choice("d does", {FEW}), val("rd"))
{build}
dir = SER
ctx = Context(None, dir, v, TypeHint(int), Settings(), Context.ROOT, Location.EMPTY, m.convert)
claim([c.name for c in m.get_converters(ctx)] == [c.name for c in {order}], "the order of converters is wrong")
r = attempt(m.convert, ctx)
judge(r, {order}, ctx, "dispatch")
""", max_paths=1500)
    yield case("a fourth converter after three", SETUP, f"""
cs = [Conv(n, choice(n + " does", "none", "fail", "decline"), None) for n in ("a", "b", "c", "d")]
m = Module("m")
for c in cs:
    m.register(c)
ctx = Context(None, DES, val("v"), TypeHint(str), Settings(), Context.ROOT, Location.EMPTY, m.convert)
judge(attempt(ctx.convert), cs, ctx, "dispatch of four")
""")
    yield case("foreign exceptions of any class", SETUP, """
cls = choice("class", TypeError, ValueError, KeyError, IndexError, AttributeError, AssertionError, RecursionError, RuntimeError,
    ArithmeticError, OSError, StopIteration, Exception, KeyboardInterrupt, SystemExit, GeneratorExit)
c = Conv("b", "foreign")
class Raiser(Converter):
    def convert(self, ctx):
        c.error = cls("x")
        raise c.error
m = Module("m")
m.register(Conv("a", choice("a does", "decline", "fail")))
n = Module("n")
n.register(Raiser())
m.register(n if choice("nested", True, False) else Raiser())
m.register(Conv("z", "ret", 1))
try:
    got = ("ok", m.convert(Context(None, DES, val("v"), TypeHint(int), Settings(), Context.ROOT, Location.EMPTY, m.convert)))
except BaseException as e:
    got = ("exc", e)
claim(got[0] == "exc" and got[1] is c.error, "an exception of a converter is replaced by", got)
claim([x[1] for x in logged("call")] == ["a"], "converters consulted:", logged("call"))
""")
    yield case("converters that compare equal", SETUP + """
class Eq(Conv):
    def __eq__(self, other):
        return isinstance(other, Eq)
    def __hash__(self):
        return 1
""", f"""
a, b, d = [Eq(n, choice(n + " does", {FEW}), val("r" + n)) for n in ("a", "b", "d")]
m = Module("m")
if choice("nested", False, True):
    m.register(Module("empty"))
    n = Module("n")
    n.register(a)
    n.register(b)
    m.register(n)
else:
    m.register(b)
    m.register(a, first=True)
m.register(d)
ctx = Context(None, SER, val("v"), TypeHint(int), Settings(), Context.ROOT, Location.EMPTY, m.convert)
judge(attempt(m.convert, ctx), (a, b, d), ctx, "dispatch")
""", max_paths=600)
    yield case("a converter registered once more, first", SETUP, """
a, b = Conv("a", "ret", val("ra")), Conv("b", "ret", val("rb"))
m = ObjectMapper()
for c in (a, b):
    m.module.register(c)
r = attempt(m.convert, SER, 1, int)
claim(r[0] == "ok" and same(r[1], a.result), "gives", r[1])
m.module.register(b, first=True)
r = attempt(m.convert, choice("direction", SER, DES), 1, int)
claim(r[0] == "ok" and same(r[1], b.result), "a converter registered first is not consulted first:", r[1])
""")
    for h, (expr, _, _) in list(HINTS.items()) + [(x, (x, (), ())) for x in ("type(None)", "Any", "object", "Optional[int]", "t.Union[int, str]", "Literal['a']", "Annotated[int, Alias('x')]", "K", "T1")]:
        yield case(f"a converter registered first decides for {expr}", TYPES + SETUP + """
class K:
    pass
""", f"""
c = Conv("c", choice("c does", "ret", "none", "falsy", "fail", "foreign"), val("r"))
m = get_object_mapper()
m.module.register(c, first=True)
d = choice("direction", SER, DES)
v = choice("value", None, val('v', int), val('v', str), True, 1.5, [], {{}}, [None], Pt(1), atom('v'))
h = TypeHint({expr}) if choice("as type hint", False, True) else {expr}
r = attempt(m.convert, d, v, h)
calls = logged("call")
claim(same(calls[0][2].value, v) and (len(calls) == 1 or c.act == "fail"), "the converter registered first is asked", len(calls), "times")
out, _, _, errors = expected([c])
if out == "conv":
    claim(r[0] == "ok" or r[0] == "conv", "ends in", r[0], r[1])
else:
    claim(r[0] == out, "ends in", r[0], r[1], "instead of", out)
if out == "ok" and r[0] == "ok":
    claim(same(r[1], c.result if c.act == "ret" else None if c.act == "none" else 0), "the converter's result turns into", r[1])
if out == "exc" and r[0] == "exc":
    claim(same(r[1], c.error), "the converter's error turns into", r[1])
""", max_paths=400)
    yield case("no converters", SETUP, """
m = Module("m")
ctx = Context(None, choice("direction", SER, DES), val("v"), TypeHint(str), Settings(), Context.ROOT, Location.EMPTY, m.convert)
judge(attempt(ctx.convert), [], ctx, "dispatch without converters")
""")
    # a module is also a converter of its own
    for d in ("SER", "DES"):
        yield case(f"through a mapper, direction {d}", SETUP, f"""
cs = [Conv(n, choice(n + " does", {FEW}), val("r" + n)) for n in ("a", "b", "c")]
m = ObjectMapper()
for c in cs:
    m.module.register(c)
judge(attempt(m.convert, {d}, val("v"), int), cs, None, "dispatch of a mapper")
""")
    # the default convert() of a converter picks the method of the direction
    for d, name, other in (("SER", "serialize", "deserialize"), ("DES", "deserialize", "serialize")):
        yield case(f"default convert() in direction {d}", SETUP, f"""
class Both(Converter):
    def serialize(self, ctx):
        log("m", "serialize", ctx)
        return s
    def deserialize(self, ctx):
        log("m", "deserialize", ctx)
        return x
class Other(Converter):
    def {other}(self, ctx):
        return 1
s, x = val("s"), val("d")
m = Module("m")
ctx = Context(None, {d}, val("v"), TypeHint(int), Settings(), Context.ROOT, Location.EMPTY, m.convert)
r = attempt(Both().convert, ctx)
claim(r[0] == "ok" and same(r[1], {'s' if d == 'SER' else 'x'}), "convert() does not return the result of {name}()")
claim([c[1] for c in logged("m")] == ["{name}"], "convert() does not call {name}() once")
claim(all(same(c[2], ctx) for c in logged("m")), "another context is passed on")
for k in (Other, Converter):
    if k is Other:
        r = attempt(Other().convert, ctx)
        claim(r[0] == "exc" and isinstance(r[1], NotImplementedError), "a converter without {name}() does not decline")
""")
    # a real converter error followed by a foreign converter
    yield case("a user converter before the built-in ones", TYPES + SETUP, """
c = Conv("c", choice("c does", "ret", "none", "falsy", "decline", "fail", "foreign"), val("rc"))
M2 = get_object_mapper()
M2.module.register(c, first=True)
v = val("v", int)
r = attempt(M2.convert, choice("direction", SER, DES), v, int)
if c.act in ("ret", "none", "falsy"):
    claim(r[0] == "ok" and same(r[1], c.result if c.act == "ret" else None if c.act == "none" else 0), "the first converter's result is not used")
elif c.act == "foreign":
    claim(r[0] == "exc" and same(r[1], c.error), "an exception of the first converter does not propagate")
else:
    claim(r[0] == "ok" and same(r[1], v), "the built-in converter is not consulted after one that", c.act)
""")
