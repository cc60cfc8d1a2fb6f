"""C33: the checking and error-building helpers hand back the value or raise the documented error."""
from .common import *

RULE = ("on every path, check_not_none/check_instance_of/check_subclass_of return the very value exactly when the condition holds and "
        "otherwise raise the documented exception with the caller's message (asked for once, and only then) or one that names the "
        "types; exception_safe_str hands on what the method returns and turns its exceptions into text; ConversionError and "
        "ConversionError.expected carry exactly what they are built from")

SETUP = TYPES + """
from databind.core.utils import check_not_none, check_instance_of, check_subclass_of, exception_safe_str
class Base: pass
class Sub(Base): pass
class Other: pass
Abc = collections.abc.Sized
def asked():
    log("asked")
    return 'the message'
def message():
    "no message, a text, or a function giving one"
    return choice("message", None, 'the message', asked)
def refused(r, m, error, names, what):
    claim(r[0] == "exc" and exact(r[1], error), what, "is answered with", r[1])
    if r[0] == "exc" and exact(r[1], error):
        t_ = r[1].args[0] if r[1].args else None
        claim(len(r[1].args) == 1 and isinstance(t_, str), what, "is refused without a text:", r[1].args)
        if m is not None:
            claim(t_ == 'the message', what, "is refused with the text", t_)
        elif isinstance(t_, str):
            for n in names:
                claim(any(mentions(l, n) for l in lines(t_)), what, "is refused with a text that does not name", n, "but is", t_)
    claim(len(logged("asked")) == (1 if m is asked else 0), what, "asks for the message", len(logged("asked")), "times")
def accepted(r, v, what):
    claim(r[0] == "ok" and r[1] is v, what, "is answered with", r[1])
    claim(not logged("asked"), what, "asks for a message")
"""
VALUES = "None, 0, '', False, [], {}, atom('v'), Base(), Sub(), Other(), 1.5, True, Base, lambda: 0"


def cases():
    yield case("check_not_none", SETUP, f"""
v = choice("value", {VALUES}, NotSet.Value, ...)
m = message()
r = attempt(check_not_none, v) if m is None else attempt(check_not_none, v, m)
if v is None:
    refused(r, m, ValueError, [], "None")
else:
    accepted(r, v, "another value")
""")
    yield case("messages that are empty or unknown texts", SETUP, """
text = choice("text", '', val('s', str), ' ', '0', '%s {}')
def ask():
    log("asked")
    return text
which = choice("helper", 'none', 'instance', 'subclass')
how = choice("given", 'function', 'text')
m = ask if how == 'function' else text
assume(not (which == 'none' and how == 'text' and text == ''))
if which == 'none':
    r = attempt(check_not_none, None, m)
    want = ValueError
elif which == 'instance':
    r = attempt(check_instance_of, 0, str, m)
    want = TypeError
else:
    r = attempt(check_subclass_of, int, str, m)
    want = TypeError
claim(r[0] == "exc" and exact(r[1], want) and len(r[1].args) == 1, "is answered with", r[1])
claim(r[0] != "exc" or len(r[1].args) == 1 and same(r[1].args[0], text), "the message", text, "becomes", r[1])
claim(len(logged("asked")) == (1 if how == 'function' else 0), "the message is asked for", len(logged("asked")), "times")
""")
    yield case("check_not_none on any value", SETUP, """
v = val('v')
r = attempt(check_not_none, v, asked)
claim((r[0] == "ok") == (v is not None), "answered with", r[1])
claim(r[0] != "ok" or r[1] is v, "another object is returned:", r[1])
claim(r[0] == "ok" or exact(r[1], ValueError), "refused with", r[1])
""")
    yield case("check_instance_of", SETUP, f"""
v = choice("value", {VALUES})
ty = choice("types", int, str, Base, Sub, Abc, type, (int, str), (Base, type(None)), (Sub,), (), object)
m = message()
r = attempt(check_instance_of, v, ty) if m is None else attempt(check_instance_of, v, ty, m)
names = [c.__name__ for c in (ty if isinstance(ty, tuple) else (ty,))] + [type(v).__name__]
if isinstance(v, ty):
    accepted(r, v, "an instance")
else:
    refused(r, m, TypeError, names, "another value")
""")
    yield case("check_instance_of on values of one kind", SETUP, """
v = choice("value", val('a', int), val('b', str), val('c', bool), val('d', list), val('e', dict), val('f', float), val('g', StrSub), val('h', IntSub))
ty = choice("types", int, str, bool, (int, str), (list, dict), float, t.Mapping)
r = attempt(check_instance_of, v, ty)
claim((r[0] == "ok") == isinstance(v, ty), "answered with", r[1])
claim(r[0] != "ok" or r[1] is v, "another object is returned:", r[1])
claim(r[0] == "ok" or exact(r[1], TypeError), "refused with", r[1])
""")
    yield case("check_subclass_of", SETUP, """
c = choice("class", Base, Sub, Other, int, bool, str, type, object)
ty = choice("types", int, str, Base, Sub, Abc, type, (int, str), (Base, type(None)), (Sub,), object)
m = message()
r = attempt(check_subclass_of, c, ty) if m is None else attempt(check_subclass_of, c, ty, m)
names = [k.__name__ for k in (ty if isinstance(ty, tuple) else (ty,))] + [c.__name__]
if issubclass(c, ty):
    accepted(r, c, "a subclass")
else:
    refused(r, m, TypeError, names, "another class")
""")
    yield case("check_subclass_of something that is no class", SETUP, """
c = choice("value", None, 0, '', Base(), [], (), atom('v'), lambda: 0)
ty = choice("types", int, Base, (int, str), object)
m = message()
r = attempt(check_subclass_of, c, ty) if m is None else attempt(check_subclass_of, c, ty, m)
claim(r[0] == "exc" and exact(r[1], TypeError), "is answered with", r[1])
claim(r[0] != "exc" or r[1].args != ('the message',), "the message about the class is given for something that is none")
claim(not logged("asked"), "the message is asked for")
""")
    yield case("exception_safe_str", SETUP, """
class Boom(Exception): pass
err = choice("outcome", None, Boom('b'), ValueError('b'), KeyboardInterrupt(), SystemExit(), GeneratorExit())
res = choice("result", 'text', '', val('s', str))
class E(Exception):
    @exception_safe_str
    def __str__(self):
        "doc"
        log("called", self)
        if err is not None:
            raise err
        return res
e = E()
try:
    r = ("ok", E.__str__(e))
except BaseException as x:
    r = ("exc", x)
claim(len(logged("called")) == 1 and logged("called")[0][1] is e, "the method is called", len(logged("called")), "times")
claim(E.__str__.__name__ == '__str__' and E.__str__.__doc__ == 'doc', "the method is named", E.__str__.__name__)
if err is None:
    claim(r[0] == "ok" and same(r[1], res), "gives", r[1], "instead of", res)
elif isinstance(err, Exception):
    claim(r[0] == "ok" and r[1] == 'b', "an exception of the method becomes", r[1])
else:
    claim(r[0] == "exc" and r[1] is err, "an interruption becomes", r[1])
""")
    yield case("conversion errors carry what they are made from", SETUP, """
class C(Converter):
    def convert(self, ctx): raise NotImplementedError
o = C()
c = Context(None, choice("direction", SER, DES), atom('v'), TypeHint(int), Settings(), Context.ROOT, Location.EMPTY, None)
errs = choice("errors", None, [], [(o, ValueError('v'))], ((o, ValueError('v')), (C(), KeyError('k'))))
msg = choice("message", 'm', '', val('m', str))
e = ConversionError(o, c, msg) if errs is None else ConversionError(o, c, msg, errs)
claim(e.origin is o and e.context is c and same(e.message, msg), "carries", e.origin, e.context, e.message)
claim(list(e.errors) == list(errs or []), "carries the errors", e.errors)
claim(isinstance(e, Exception), "is no exception")
f = ConversionError(o, c, 'x')
claim(not f.errors, "the errors of another error show up:", f.errors)
n = NoMatchingConverter(o, c, list(errs or []))
claim(isinstance(n, ConversionError) and n.origin is o and n.context is c and list(n.errors) == list(errs or []), "carries", n.errors)
claim(isinstance(n.message, str) and n.message, "has the message", n.message)
""")
    yield case("expected() names the types", SETUP, """
class C(Converter):
    def convert(self, ctx): raise NotImplementedError
o = C()
v = choice("value", 1, 'a', None, [], Base(), val('v', float))
c = Context(None, choice("direction", SER, DES), v, TypeHint(int), Settings(), Context.ROOT, Location.EMPTY, None)
ty = choice("types", int, Base, (int, Base), [Base, Other], (Sub,), type(None))
got = choice("got", None, Other, bool)
e = ConversionError.expected(o, c, ty) if got is None else choice("call", ConversionError.expected(o, c, ty, got), ConversionError.expected(o, c, ty, got=got))
claim(exact(e, ConversionError) and e.origin is o and e.context is c and not e.errors, "gives", e)
for k in (ty if isinstance(ty, (tuple, list)) else (ty,)):
    claim(any(mentions(l, k.__name__) for l in lines(e.message)), "does not name", k, "but says", e.message)
k = type(v) if got is None else got
claim(any(mentions(l, k.__name__) for l in lines(e.message)), "does not name the type got,", k, "but says", e.message)
""")
