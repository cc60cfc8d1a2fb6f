"""C15: scalar conversion is strict by default and never lossy."""
from .common import *

RULE = ("for every pair of runtime kind and declared scalar type, both directions and every source and value of the Strict "
        "setting, exactly the allowed conversions happen and their result is the exact, lossless counterpart of the input")

SETUP = TYPES + """
class MyStr(str):
    pass
def mapper(src, strict):
    'A mapper and the per-call settings and hint wrapper that make strictness come from the given source.'
    m = get_object_mapper()
    wrap = lambda h: h
    call = None
    s = None if strict is None else Strict(strict)
    if s is None:
        pass
    elif src == "call":
        call = [s]
    elif src == "global":
        m.settings.add_global(s)
    elif src == "conditional":
        m.settings.add_conditional(lambda ctx: True, s)
    elif src == "annotation":
        wrap = lambda h: Annotated[h, s]
    elif src == "priority":
        m.settings.add_global(Strict(strict, priority=Priority.HIGH))
        wrap = lambda h: Annotated[h, Strict(not strict)]
    elif src == "converter":
        m = ObjectMapper()
        m.module.register(jc.PlainDatatypeConverter(strict_by_default=strict))
        m.module.register(jc.DecimalConverter(strict_by_default=strict))
        m.module.register(jc.OptionalConverter())
    return m, call, wrap
"""
SOURCES = ["call", "global", "conditional", "annotation", "priority", "converter"]
T = {"int": "int", "float": "float", "str": "str", "bool": "bool", "bytes": "bytes"}
# what strict deserialization (S), lenient deserialization (L) and serialization (W) accept: (kind, type)
S = {("int", "int"), ("float", "float"), ("str", "str"), ("bool", "bool"), ("int", "float"), ("float", "int"), ("str", "bytes")}
L = S | {("str", "int"), ("str", "float"), ("str", "bool"), ("int", "str"), ("float", "str"), ("bool", "str")}
W = (S - {("str", "bytes")}) | {("bytes", "bytes")}
VALUES = ["none", "bool", "int", "float", "complex", "str", "bytes", "bytearray", "memoryview", "list", "tuple", "set", "dict",
          "strsub", "intsub", "floatsub", "decimal", "color", "num", "date", "path", "uuid", "object", "class", "function"]
# checks on a successful result r of converting v
GOOD = {
    ("int", "int"): "same(r, v)", ("float", "float"): "same(r, v)", ("str", "str"): "same(r, v)", ("bool", "bool"): "r is bool(v)",
    ("int", "float"): "exact(r, float) and derived(r, v)", ("float", "int"): "exact(r, int) and derived(r, v)",
    ("str", "bytes"): "exact(r, bytes) and derived(r, v)", ("bytes", "bytes"): "exact(r, str) and derived(r, v)",
    ("str", "int"): "exact(r, int) and derived(r, v)", ("str", "float"): "exact(r, float) and derived(r, v)",
    ("str", "bool"): "exact(r, bool)",
    ("int", "str"): "made_by(r, 'str', v)", ("float", "str"): "made_by(r, 'str', v)", ("bool", "str"): "r == str(v)",
}
# conversions that can always be made
ALWAYS = {("int", "int"), ("float", "float"), ("str", "str"), ("bool", "bool"), ("bytes", "bytes"), ("int", "str"), ("float", "str"),
          ("bool", "str")}

# constants: (expression, type, strict result, lenient result, serialized result); None stands for an error
C = [
    ("True", "int", None, None, None), ("False", "int", None, None, None), ("True", "float", None, None, None),
    ("False", "float", None, None, None), ("1", "bool", None, None, None), ("0", "bool", None, None, None),
    ("1.0", "bool", None, None, None), ("None", "bool", None, None, None), ("None", "int", None, None, None),
    ("None", "str", None, None, None), ("None", "float", None, None, None), ("None", "bytes", None, None, None),
    ("1.0", "int", "1", "1", "1"), ("-3.0", "int", "-3", "-3", "-3"), ("0.0", "int", "0", "0", "0"), ("1e300", "int", "int(1e300)", "int(1e300)", "int(1e300)"),
    ("1.5", "int", None, None, None), ("-0.5", "int", None, None, None), ("0.1", "int", None, None, None), ("1e-300", "int", None, None, None),
    ("2.0000000001", "int", None, None, None), ("-1.0000001", "int", None, None, None), ("0.9999999999", "int", None, None, None),
    ("float('inf')", "int", None, None, None), ("float('-inf')", "int", None, None, None), ("float('nan')", "int", None, None, None),
    ("3", "float", "3.0", "3.0", "3.0"), ("0", "float", "0.0", "0.0", "0.0"), ("-7", "float", "-7.0", "-7.0", "-7.0"),
    ("int('1' + '0' * 400)", "float", None, None, None), ("-(int('1' + '0' * 400))", "float", None, None, None),
    ("0", "int", "0", "0", "0"), ("int('1' + '0' * 400)", "int", "int('1' + '0' * 400)", "int('1' + '0' * 400)", "int('1' + '0' * 400)"), ("0.0", "float", "0.0", "0.0", "0.0"),
    ("''", "str", "''", "''", "''"), ("True", "bool", "True", "True", "True"), ("False", "bool", "False", "False", "False"),
    ("'1'", "int", None, "1", None), ("'-12'", "int", None, "-12", None), ("''", "int", None, None, None), ("'x'", "int", None, None, None),
    ("'010'", "int", None, "10", None), ("'00'", "int", None, "0", None), ("'-007'", "int", None, "-7", None), ("'+5'", "int", None, "5", None), ("'0x10'", "int", None, None, None), ("'0b1'", "int", None, None, None), ("'0o7'", "int", None, None, None),
    ("'1e3'", "int", None, None, None), ("'1,000'", "int", None, None, None), ("'12345678901234567890123'", "int", None, "12345678901234567890123", None), ("'-1.50'", "float", None, "-1.5", None), ("'1e-3'", "float", None, "0.001", None), ("'1,5'", "float", None, None, None), ("'0x1'", "float", None, None, None),
    ("'0.1'", "float", None, "0.1", None), ("-1", "str", None, "'-1'", None), ("0", "str", None, "'0'", None), ("0.1", "str", None, "'0.1'", None), ("1e22", "str", None, "'1e+22'", None), ("123456789.125", "str", None, "'123456789.125'", None), ("-0.5", "str", None, "'-0.5'", None),
    ("'once'", "bool", None, None, None), ("'nope'", "bool", None, None, None), ("'None'", "bool", None, None, None), ("'of'", "bool", None, None, None), ("'t'", "bool", None, None, None), ("'f'", "bool", None, None, None), ("'yes no'", "bool", None, None, None),
    ("'1.5'", "int", None, None, None), ("'1.0'", "int", None, None, None), ("'true'", "int", None, None, None),
    ("'1.5'", "float", None, "1.5", None), ("'1'", "float", None, "1.0", None), ("'1e3'", "float", None, "1000.0", None),
    ("''", "float", None, None, None), ("'x'", "float", None, None, None),
    ("1", "str", None, "'1'", None), ("1.5", "str", None, "'1.5'", None), ("True", "str", None, "'True'", None),
    ("False", "str", None, "'False'", None), ("b'x'", "str", None, None, None),
    ("''", "bool", None, None, None), ("'x'", "bool", None, None, None), ("'1'", "bool", None, None, None), ("'0'", "bool", None, None, None),
    ("'y'", "bool", None, None, None), ("'n'", "bool", None, None, None), ("' true'", "bool", None, None, None),
    ("'eWVz'", "bytes", "b'yes'", "b'yes'", None), ("''", "bytes", "b''", "b''", None), ("'x'", "bytes", None, None, None),
    ("b'yes'", "bytes", None, None, "'eWVz'"), ("b''", "bytes", None, None, "''"), ("1", "bytes", None, None, None),
    ("b'eWVz'", "bytes", None, None, "'ZVdWeg=='"), ("val('ba', bytearray)", "bytes", None, None, None),
]
for w in ("yes", "true", "on", "enabled"):
    for x in (w, w.upper(), w.capitalize()):
        C.append((repr(x), "bool", None, "True", None))
for w in ("no", "false", "off", "disabled"):
    for x in (w, w.upper(), w.capitalize()):
        C.append((repr(x), "bool", None, "False", None))


# a finite float without, and with, a fractional part (of any size)
FLOATS = "(choice('value', 'whole', 'fractional') == 'whole' and (val('v', float, integral=True),) or (val('v', float, frac=True, truth=True),))[0]"


def cases():
    # ---- any value of each runtime kind
    for kind in VALUES:
        for t, expr in T.items():
            key = ("str" if False else kind, t)
            for mode, table, strict in (("strict", S, "choice('strict', None, True)"), ("lenient", L, "False"), ("serialize", W, "choice('strict', None, True, False)")):
                ok = key in table
                good = GOOD.get(key, "False")
                yield case(f"{mode}: {kind} as {t}", SETUP, f"""
v = {FLOATS if key == ("float", "int") else KINDS[kind]}
strict = {strict}
src = choice("source", {', '.join(map(repr, SOURCES))}) if strict is not None else "call"
m, call, wrap = mapper(src, strict)
res = attempt(m.{'serialize' if mode == 'serialize' else 'deserialize'}, v, wrap({expr}), None, call)
r = res[1]
if {key == ("float", "int")} and choice("value", "whole", "fractional") == "fractional":
    claim(res[0] == "conv", "a float with a fraction is accepted as int ({mode}):", r)
elif {key == ("float", "int")} and res[0] != "ok":
    claim(False, "a whole float is not accepted as int ({mode}):", r)
elif {ok}:
    claim(res[0] in ("ok", "conv"), "{kind} as {t} fails with", r)
    claim(res[0] == "ok" if {key in ALWAYS} else True, "{kind} is not accepted as {t}:", r)
    claim(res[0] != "ok" or ({good}), "{kind} as {t} ({mode}) gives", r)
    log("seen", res[0])
else:
    claim(res[0] == "conv", "{kind} is accepted as {t} ({mode}):", r)
""")
    # ---- constants, at the edges
    for mode, col in (("strict", 2), ("lenient", 3), ("serialize", 4)):
        for i in range(0, len(C), 8):
            chunk = C[i:i + 8]
            rows = ", ".join(f"({c[0]}, {T[c[1]]}, {'None' if c[col] is None else '(' + c[col] + ',)'})" for c in chunk)
            strict = {"strict": "choice('strict', None, True)", "lenient": "False", "serialize": "choice('strict', None, True, False)"}[mode]
            yield case(f"{mode}: constants {i}-{i + len(chunk) - 1}", SETUP, f"""
strict = {strict}
src = choice("source", {', '.join(map(repr, SOURCES))}) if strict is not None else "call"
m, call, wrap = mapper(src, strict)
for v, t_, want in ({rows},):
    res = attempt(m.{'serialize' if mode == 'serialize' else 'deserialize'}, v, wrap(t_), None, call)
    if want is None:
        claim(res[0] == "conv", repr(v), "is accepted as", t_.__name__, "({mode}):", res[1])
    else:
        claim(res[0] == "ok" and same(res[1], want[0]), repr(v), "as", t_.__name__, "({mode}) gives", res[1], "instead of", want[0])
""")
    # ---- words: whatever the text, True and False come from their own words only
    yield case("lenient: any text as bool", SETUP, """
v = val('v', str)
r = attempt(M.deserialize, v, bool, None, [Strict(False)])
yes = v.lower() in ("yes", "true", "on", "enabled")
no = v.lower() in ("no", "false", "off", "disabled")
claim(r[0] == ("ok" if yes or no else "conv"), "any text as bool gives", r[1])
claim(r[0] != "ok" or r[1] is yes, "a word is read as", r[1])
""")
    # ---- settings of other scopes do not relax
    yield case("the Strict setting of another field", SETUP + """
@dataclass
class R:
    a: Annotated[int, Strict(False)]
    b: int
    c: List[Annotated[int, Strict(False)]]
    d: Annotated[List[int], Strict(False)]
""", """
good = {'a': '1', 'b': 2, 'c': ['3', 4], 'd': [5]}
r = attempt(M.deserialize, good, R)
claim(r[0] == "ok" and r[1].a == 1 and r[1].c == [3, 4] and exact(r[1].a, int), "lenient fields give", r[1])
for k, v in (('b', '2'), ('a', 'x'), ('a', True), ('c', [True]), ('a', 1.5), ('d', ['5'])):
    r = attempt(M.deserialize, {**good, k: v}, R)
    claim(r[0] == "conv", "field", k, "accepts", v, ":", r[1])
for k, v in (('a', '1'), ('b', '1'), ('c', ['1'])):
    x = R(1, 2, [3], [4])
    setattr(x, k, v)
    r = attempt(M.serialize, x, R)
    claim(r[0] == "conv", "field", k, "of value", v, "is written:", r[1])
""")
    yield case("strictness of optionals, unions and items", SETUP, """
for h, v in ((Optional[int], '1'), (t.Union[int, bool], '1'), (List[int], ['1']), (Dict[str, int], {'a': '1'}), (Dict[int, str], {'1': 'a'}), (Tuple[int, ...], ('1',)), (Optional[bool], 'no')):
    r = attempt(M.deserialize, v, h)
    claim(r[0] == "conv", v, "is accepted in strict mode:", r[1])
    r = attempt(M.deserialize, v, h, None, [Strict(False)])
    claim(r[0] == "ok", v, "is rejected with strictness disabled:", r[1])
    r = attempt(M.serialize, v, h, None, [Strict(False)])
    claim(r[0] == "conv", v, "is written with strictness disabled:", r[1])
""")
    # ---- decimals
    for kind in VALUES:
        ok = {"strict": kind in ("str", "strsub"), "lenient": kind in ("str", "strsub", "int", "float", "intsub", "floatsub", "bool", "num"),
              "serialize": kind == "decimal"}
        for mode in ok:
            strict = {"strict": "choice('strict', None, True)", "lenient": "False", "serialize": "choice('strict', None, True, False)"}[mode]
            yield case(f"{mode}: {kind} as Decimal", SETUP, f"""
v = {KINDS[kind]}
strict = {strict}
src = choice("source", {', '.join(map(repr, SOURCES))}) if strict is not None else "call"
m, call, wrap = mapper(src, strict)
res = attempt(m.{'serialize' if mode == 'serialize' else 'deserialize'}, v, wrap(Decimal), None, call)
if {ok[mode]}:
    claim(res[0] in {'("ok",)' if mode == 'serialize' else '("ok", "conv")'}, "{kind} as Decimal ({mode}) fails with", res[1])
    claim(res[0] != "ok" or exact(res[1], {'str' if mode == 'serialize' else 'Decimal'}), "gives", res[1])
else:
    claim(res[0] == "conv", "{kind} is accepted as Decimal ({mode}):", res[1])
""")
