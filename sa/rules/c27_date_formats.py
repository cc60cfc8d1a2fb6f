"""C27: a DateFormat formats with its first applicable format and parses with the first that accepts the text."""
from .common import *

RULE = ("on every path of DateFormat.parse / format, for every list of formats (formatters of each kind, sets, strings, built-in "
        "names) and outcome of each of them, the result is that of the first applicable format that succeeds, called with the "
        "given value; ValueError and nothing else moves on; if none succeeds a ValueError is raised")

SETUP = TYPES + """
from nr.date import date_format, time_format, datetime_format, format_set
VAL = {'date': date, 'time': time, 'datetime': datetime.datetime}
FMT = {'date': date_format, 'time': time_format, 'datetime': datetime_format}
OTHER = {'date': ['time', 'datetime'], 'time': ['date', 'datetime'], 'datetime': ['date', 'time']}
def attempt_(f, *args):
    try:
        return ("ok", f(*args))
    except ValueError as x:
        return ("value", x)
    except Exception as x:
        return ("exc", x)
def others(kind):
    out = []
    for k in OTHER[kind]:
        out.append(FMT[k].compile('other-' + k))
    return out
def mkset(kind, *fmts):
    kw = {k + '_formats': [FMT[k].compile('set-' + k)] for k in OTHER[kind]}
    kw[kind + '_formats'] = list(fmts)
    return format_set('a set', '', **kw)
def check(df, kind, order, cls=None):
    # order: the formats that apply to the kind, in order
    text = val('text', str)
    r = attempt_(df.parse, VAL[kind], text)
    done = events("parsed")
    claim(r[0] in ("ok", "value"), "parsing fails with", r[1])
    claim(len(done) == (r[0] == "ok"), "formats that parsed", len(done), "times with the result", r[1])
    if r[0] == "ok":
        claim(done[0][0] in order and same(done[0][1], text), "parsed by", done[0], "formats", order)
        claim(made_by(r[1], "parse_" + kind, done[0][0], text), "parsed as", r[1])
        i = order.index(done[0][0]) if done[0][0] in order else 0
        for f in order[:i]:
            claim(attempt_(getattr(f, "parse_" + kind), text)[0] == "value", "an earlier format that accepts the text is skipped:", f)
    else:
        for f in order:
            claim(attempt_(getattr(f, "parse_" + kind), text)[0] == "value", "a format that accepts the text is not used:", f)
    v = val('v', cls or VAL[kind])
    r = attempt_(df.format, v)
    done = events("formatted")
    claim(r[0] in ("ok", "value"), "formatting fails with", r[1])
    claim(len(done) == (r[0] == "ok"), "formats that formatted", len(done), "times with the result", r[1])
    if r[0] == "ok":
        claim(done[0][0] in order and done[0][1] is v, "formatted by", done[0], "formats", order)
        claim(made_by(r[1], "fmt", done[0][0], v), "formatted as", r[1])
        i = order.index(done[0][0]) if done[0][0] in order else 0
        for f in order[:i]:
            claim(attempt_(getattr(f, "format_" + kind), v)[0] == "value", "an earlier format that applies is skipped:", f)
    else:
        claim(all([attempt_(getattr(f, "format_" + kind), v)[0] == "value" for f in order]), "no format is used although one applies:", r[1])
"""


def cases():
    for kind in ("date", "time", "datetime"):
        def c(what, body, **kw):
            return case(f"{kind}: {what}", SETUP, f"kind = {kind!r}\n" + body, **kw)
        yield c("formatters", """
a, b, x = FMT[kind].compile('a'), FMT[kind].compile('b'), FMT[kind].compile('c')
check(DateFormat(a, b, x), kind, [a, b, x])
""")
        yield c("formatters of the other kinds are not used", """
a, b = FMT[kind].compile('a'), FMT[kind].compile('b')
o = others(kind)
check(choice("list", DateFormat(o[0], a, o[1], b), DateFormat(*o, a, b), DateFormat(a, b, *o)), kind, [a, b])
""")
        yield c("only formatters of other kinds", "check(DateFormat(*others(kind)), kind, [])")
        yield c("strings", """
df = choice("list", DateFormat('%A', '%B'), DateFormat('%A', FMT[kind].compile('%B')), DateFormat(FMT[kind].compile('%A'), '%B'), DateFormat('%A', *others(kind), '%B'))
check(df, kind, [FMT[kind].compile('%A'), FMT[kind].compile('%B')])
""")
        yield c("one string", "check(DateFormat('%A'), kind, [FMT[kind].compile('%A')])")
        yield c("sets", """
a, b, x, y = FMT[kind].compile('a'), FMT[kind].compile('b'), FMT[kind].compile('c'), FMT[kind].compile('d')
check(choice("list", DateFormat(mkset(kind, a, b), mkset(kind, x), y), DateFormat(mkset(kind, a), b, mkset(kind, x, y)), DateFormat(a, mkset(kind), mkset(kind, b, x, y))), kind, [a, b, x, y])
""")
        yield c("a set without formats of the kind", "check(DateFormat(mkset(kind)), kind, [])")
        for name, const in ((".ISO_8601", "ISO_8601"), (".JAVA_OFFSET_DATETIME", "JAVA_OFFSET_DATETIME")):
            yield c(f"built-in {name}", f"""
from nr.date.format_sets import {const}
inner = list(getattr({const}, kind + '_formats'))
b = FMT[kind].compile('b')
df = choice("list", DateFormat({name!r}), DateFormat({const}), DateFormat({name!r}, b), DateFormat(b, {name!r}))
text = val('text', str)
r = attempt_(df.parse, VAL[kind], text)
n = len(df.formats)
want = inner + [b] if n == 2 and df.formats[1] is b else [b] + inner if n == 2 else inner
done = events("parsed")
claim(r[0] in ("ok", "value") and len(done) == (r[0] == "ok"), "parsing gives", r[1], "with", done)
if r[0] == "ok":
    claim(done[0][0] in want and same(done[0][1], text) and made_by(r[1], "parse_" + kind, done[0][0], text), "parsed by", done)
    for f in want[:want.index(done[0][0]) if done[0][0] in want else 0]:
        claim(attempt_(getattr(f, "parse_" + kind), text)[0] == "value", "an earlier format that accepts the text is skipped:", f)
else:
    for f in want:
        claim(attempt_(getattr(f, "parse_" + kind), text)[0] == "value", "a format that accepts the text is not used:", f)
v = val('v', VAL[kind])
r = attempt_(df.format, v)
done = events("formatted")
claim(r[0] in ("ok", "value") and len(done) == (r[0] == "ok"), "formatting gives", r[1], "with", done)
if r[0] == "ok":
    claim(done[0][0] in want and made_by(r[1], "fmt", done[0][0], v), "formatted by", done)
    claim(done[0][0] is want[0] or attempt_(getattr(want[0], "format_" + kind), v)[0] == "value", "the first format is not used but", done)
""")
        yield c("an unknown built-in name", """
a = FMT[kind].compile('a')
name = choice("name", '.nope', '.', '.iso_8601', '.ISO_8601 ', '.ISO')
r = attempt_(DateFormat(name, a).parse, VAL[kind], 'x')
claim(r[0] == "value", "parsing gives", r)
r = attempt_(DateFormat(name, a).format, val('v', VAL[kind]))
claim(r[0] == "value", "formatting gives", r)
""")
        yield c("a malformed format string", """
r = attempt_(DateFormat('bad').parse, VAL[kind], 'x')
claim(r[0] == "value", "parsing gives", r)
r = attempt_(DateFormat('bad').format, val('v', VAL[kind]))
claim(r[0] == "value", "formatting gives", r)
""")
        yield c("the object can be used again", """
a, b = FMT[kind].compile('a'), FMT[kind].compile('b')
df = DateFormat(a, b, '%C')
text = val('text', str)
r1, r2 = attempt_(df.parse, VAL[kind], text), attempt_(df.parse, VAL[kind], text)
claim(r1[0] == r2[0] and (r1[0] != "ok" or same(r1[1], r2[1])), "parsing the same text twice gives", r1[1], r2[1])
v = val('v', VAL[kind])
r1, r2 = attempt_(df.format, v), attempt_(df.format, v)
claim(r1[0] == r2[0] and (r1[0] != "ok" or same(r1[1], r2[1])), "formatting twice gives", r1[1], r2[1])
claim(len(df.formats) == 3 and df.formats[0] is a and df.formats[1] is b and df.formats[2] == '%C', "formats are now", df.formats)
""")
        yield c("other errors are not swallowed", """
class Boom(Exception):
    pass
class MyFmt(FMT[kind]):
    pass
def boom(x):
    raise choice("error", TypeError("t"), Boom(), KeyError("k"))
a, b = FMT[kind].compile('a'), FMT[kind].compile('b')
setattr(a, "parse_" + kind, boom)
setattr(a, "format_" + kind, boom)
df = DateFormat(a, b)
r = attempt_(df.parse, VAL[kind], 'x')
claim(r[0] == "exc" and isinstance(r[1], (TypeError, Boom, KeyError)), "an error other than ValueError is swallowed:", r)
r = attempt_(df.format, val('v', VAL[kind]))
claim(r[0] == "exc" and isinstance(r[1], (TypeError, Boom, KeyError)), "an error other than ValueError is swallowed:", r)
""")
        yield c("results of formats are returned unchanged", """
a, b = FMT[kind].compile('a'), FMT[kind].compile('b')
res = atom("result")
falsy = choice("result", res, None, '', 0, False)
setattr(a, "parse_" + kind, lambda x: falsy)
setattr(a, "format_" + kind, lambda x: falsy)
df = DateFormat(a, b)
claim(same(df.parse(VAL[kind], 'x'), falsy), "parsing gives", df.parse(VAL[kind], 'x'))
claim(same(df.format(val('v', VAL[kind])), falsy), "formatting gives", df.format(val('v', VAL[kind])))
""")
        yield c("the converter uses it", """
a, b = FMT[kind].compile('a'), FMT[kind].compile('b')
df = choice("formats", DateFormat(a, b), DateFormat(mkset(kind, a, b)), DateFormat(others(kind)[0], a, others(kind)[1], b))
h = VAL[kind]
text = val('text', str)
r = attempt(M.deserialize, text, Annotated[h, df])
done = events("parsed")
claim(r[0] in ("ok", "conv") and len(done) == (r[0] == "ok"), "parsing gives", r[1], "with", done)
if r[0] == "ok":
    claim(done[0][0] in (a, b) and made_by(r[1], "parse_" + kind, done[0][0], text), "parsed by", done)
    claim(done[0][0] is a or attempt_(getattr(a, "parse_" + kind), text)[0] == "value", "the first format is skipped")
else:
    claim(attempt_(getattr(a, "parse_" + kind), text)[0] == "value" and attempt_(getattr(b, "parse_" + kind), text)[0] == "value", "a format that accepts the text is not used")
v = val('v', h)
r = attempt(M.serialize, v, Annotated[h, df])
done = events("formatted")
claim(r[0] in ("ok", "conv") and len(done) == (r[0] == "ok"), "formatting gives", r[1], "with", done)
if r[0] == "ok":
    claim(done[0][0] in (a, b) and made_by(r[1], "fmt", done[0][0], v), "formatted by", done)
    claim(done[0][0] is a or attempt_(getattr(a, "format_" + kind), v)[0] == "value", "the first format is skipped")
""")
        yield c("which text applies when formats accept different texts", """
a, b, x = FMT[kind].compile('a'), FMT[kind].compile('b'), FMT[kind].compile('c')
def nope(v):
    raise ValueError("no")
ok = choice("accepting", 0, 1, 2, 3)
for i, f in enumerate((a, b, x)):
    if i < ok:
        setattr(f, "parse_" + kind, nope)
        setattr(f, "format_" + kind, nope)
    else:
        setattr(f, "parse_" + kind, lambda v, i=i: ("parsed", i, v))
        setattr(f, "format_" + kind, lambda v, i=i: ("formatted", i, v))
df = DateFormat(a, b, x)
v = val('v', VAL[kind])
r, s = attempt_(df.parse, VAL[kind], 'text'), attempt_(df.format, v)
if ok == 3:
    claim(r[0] == "value" and s[0] == "value", "no format applies but the result is", r, s)
else:
    claim(r[0] == "ok" and r[1] == ("parsed", ok, 'text'), "parsing gives", r)
    claim(s[0] == "ok" and s[1][0] == "formatted" and s[1][1] == ok and s[1][2] is v, "formatting gives", s)
""")
    for sub, base in (("date", "date"), ("time", "time"), ("datetime", "datetime.datetime")):
        yield case(f"values of a subclass of {sub}", SETUP + f"class MyVal({base}):\n    pass\n", f"""
kind = {sub!r}
a, b = FMT[kind].compile('a'), FMT[kind].compile('b')
check(choice("list", DateFormat(a, *others(kind), b), DateFormat(*others(kind), a, b)), kind, [a, b], MyVal)
""")
    for a, b in (("date", "datetime"), ("datetime", "date"), ("date", "time"), ("time", "datetime")):
        yield case(f"one DateFormat for {a} and then {b}", SETUP, f"""
df = DateFormat(choice("format", 'x', '.ISO_8601', '.JAVA_OFFSET_DATETIME'))
for kind in ({a!r}, {b!r}, {a!r}):
    text, v = val('text', str), val('v', VAL[kind])
    n = len(events("parsed"))
    r = attempt_(df.parse, VAL[kind], text)
    claim(r[0] in ("ok", "value"), "parsing a", kind, "fails with", r[1])
    claim(r[0] != "ok" or exact(r[1], VAL[kind]) and type(events("parsed")[n][0]) is FMT[kind] or df.formats[0] != 'x', "a", kind, "is parsed by", events("parsed")[n:], "as", r[1])
    n = len(events("formatted"))
    r = attempt_(df.format, v)
    claim(r[0] in ("ok", "value"), "formatting a", kind, "fails with", r[1])
    claim(r[0] != "ok" or type(events("formatted")[n][0]) is FMT[kind] or df.formats[0] != 'x', "a", kind, "is formatted by", events("formatted")[n:], "as", r[1])
""")
    yield case("no formats", SETUP, """
r = attempt_(DateFormat)
claim(r[0] == "value", "a DateFormat without formats is", r[1])
""")
    yield case("dates and datetimes with the same text", SETUP, """
d, dt = date_format.compile('D'), datetime_format.compile('DT')
df = choice("order", DateFormat(d, dt), DateFormat(dt, d))
x, y = val('x', date), val('y', datetime.datetime)
for v, f in ((x, d), (y, dt)):
    n = len(events("formatted"))
    r = attempt_(df.format, v)
    claim(r[0] != "ok" or events("formatted")[n:][0][0] is f, "formatted by", events("formatted"))
""")
