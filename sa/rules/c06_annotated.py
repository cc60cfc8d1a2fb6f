"""C06: wrapping a supported hint in Annotated does not change how it is converted."""
from .common import *

RULE = ("for every supported hint H and every kind of value, converting as Annotated[H, ...] with unrelated metadata has "
        "the same outcome as converting as H, at the top level and as item, key, value, field, optional or union member")

SETUP = TYPES + """
class Note(Setting):
    priority = Priority.NORMAL
@JsonConverter.using_classmethods(str, serialize='ser', deserialize='de')
class Custom:
    def ser(self):
        return made
    @staticmethod
    def de(s):
        return made
class Custom2:
    @classmethod
    def ser(cls, v):
        return made
    @classmethod
    def de(cls, s):
        return made
@Union(style=Union.NESTED)
class Base:
    pass
@Union.register(Base, 'one')
@dataclass
class One(Base):
    v: int
T2 = TypeVar('T2')
@dataclass
class Gen(Generic[T2]):
    v: T2
made = 'made'
def agree(v, plain, wrapped, what):
    d = choice("direction", SER, DES)
    r = attempt(M.convert, d, v, plain)
    q = attempt(M.convert, d, v, wrapped)
    claim(r[0] == q[0], "converting", what, "ends in", q[0], q[1], "instead of", r[0], r[1])
    if r[0] == "ok" and q[0] == "ok":
        claim(eqv(r[1], q[1]), "converting", what, "gives", q[1], "instead of", r[1])
"""
META = ["Note()", "'some text'", "Note(), 'text', 42", "Alias('p', 'q')", "SerializeDefaults(True)", "None"]

MORE = {
    "any": ("Any", ["atom('v')", "None"]), "object": ("object", ["atom('v')"]),
    "optional": ("Optional[int]", ["None", "val('v')"]), "optpt": ("Optional[Pt]", ["None", "{'x': val('x', int)}", "Pt(val('x', int))"]),
    "optunion": ("t.Union[int, str, None]", ["None", "val('v')"]),
    "plainunion": ("t.Union[int, str]", ["val('v')"]), "unionpt": ("t.Union[List[int], Pt]", ["[val('v')]", "{'x': val('x')}"]),
    "literal": ("Literal['a', 1, None]", ["val('v')", "'a'", "None", "1", "'b'"]),
    "custom": ("Custom", ["Custom()", "val('v', str)", "val('v', int)", "None"]),
    "custom2": ("Annotated[Custom2, JsonConverter.using_classmethods(serialize='ser', deserialize='de')]",
                ["Custom2()", "val('v')", "None"]),
    "base": ("Base", ["One(val('v', int))", "{'type': 'one', 'one': {'v': val('v', int)}}", "{'type': 'two', 'two': {}}"]),
    "gen": ("Gen[int]", ["Gen(val('v', int))", "{'v': val('v', int)}", "{'v': val('v', str)}"]),
    "dictpt": ("Dict[str, Pt]", ["{'k': Pt(val('v', int))}", "{'k': {'x': val('v', int)}}"]),
}


def wrapped(expr):
    for m in META:
        yield f"Annotated[{expr}, {m}]"


def cases():
    rows = {h: (e[0], [KINDS[k] for k in sorted(set(e[1]) | set(value_kinds(h)) | {"none", "int", "str", "dict", "list", "object"})])
            for h, e in HINTS.items()}
    rows.update(MORE)
    for h, (expr, values) in rows.items():
        for i, v in enumerate(values):
            w = list(wrapped(expr))
            for k, q in enumerate(w):
                if h in HINTS and (i + k) % 6:
                    continue
                yield case(f"{q} of {v}", SETUP, f"agree({v}, {expr}, {q}, {q!r})", max_paths=24)
        v = values[0]
        for v in values[:2]:
            q = f"Annotated[{expr}, Note()]"
            for outer, val in (("List[{}]", "[{}]"), ("Dict[str, {}]", "{{'k': {}}}"), ("Optional[{}]", "{}"),
                               ("Tuple[int, {}]", "(1, {})"), ("Tuple[{}, ...]", "({},)"), ("t.Sequence[{}]", "[{}]")):
                yield case(f"{outer.format(q)} of {v}", SETUP,
                           f"agree({val.format(v)}, {outer.format(expr)}, {outer.format(q)}, {outer.format(q)!r})", max_paths=24)
            yield case(f"a dataclass field {q} of {v}", SETUP + f"""
@dataclass
class P:
    f: {expr}
@dataclass
class Q:
    f: {q}
class TP(TypedDict):
    f: {expr}
class TQ(TypedDict):
    f: {q}
""", f"""
v = {v}
d = choice("direction", SER, DES)
typed = choice("typed dict", False, True)
payload = typed or d is DES
r = attempt(M.convert, d, {{'f': v}} if payload else P(v), TP if typed else P)
q = attempt(M.convert, d, {{'f': v}} if payload else Q(v), TQ if typed else Q)
claim(r[0] == q[0], "a field declared as {q} ends in", q[0], q[1], "instead of", r[0], r[1])
if r[0] == "ok" and q[0] == "ok":
    if d is SER:
        claim(eqv(r[1], q[1]), "a field declared as {q} gives", q[1], "instead of", r[1])
    elif not typed:
        claim(eqv(r[1].f, q[1].f), "a field declared as {q} gives", q[1], "instead of", r[1])
    else:
        claim(eqv(r[1]['f'], q[1]['f']), "a field declared as {q} gives", q[1], "instead of", r[1])
""", max_paths=24)
    for member, v in (("int", "val('v')"), ("Pt", "{'x': val('v')}"), ("List[str]", "[val('v')]"), ("NT", "{'a': val('v'), 'b': 'x'}"),
                      ("date", "val('v', str)"), ("Color", "'RED'")):
        q = f"Annotated[{member}, Note()]"
        yield case(f"the union of bool and {q}", SETUP, f"agree({v}, t.Union[bool, {member}], t.Union[bool, {q}], {('union member ' + q)!r})")
        yield case(f"the union of {q} and bool", SETUP, f"agree({v}, t.Union[{member}, bool], t.Union[{q}, bool], {('union member ' + q)!r})")
        yield case(f"the optional union of {q} and bool", SETUP,
                   f"agree({v}, t.Union[{member}, bool, None], t.Union[{q}, bool, None], {('union member ' + q)!r})")
    for key, k in (("int", "val('k', int)"), ("str", "val('k', str)"), ("Color", "'RED'"), ("Num", "1"), ("Literal['a']", "'a'"),
                   ("date", "val('k', str)")):
        q = f"Annotated[{key}, Note()]"
        yield case(f"keys {q}", SETUP, f"agree({{{k}: val('v', int)}}, Dict[{key}, int], Dict[{q}, int], {('keys ' + q)!r})")
    # the schema of an annotated type is the schema of the type
    for h in ("Pt", "TD", "Gen[int]", "A"):
        yield case(f"schema of Annotated {h}", SETUP, f"""
a, b = convert_to_schema(TypeHint({h})), convert_to_schema(TypeHint(Annotated[{h}, Note()]))
claim(list(a.fields) == list(b.fields), "the schema of annotated {h} has other fields", list(b.fields))
claim(same(a.type, b.type) and same(a.constructor, b.constructor), "the schema of annotated {h} is of another type")
""")
