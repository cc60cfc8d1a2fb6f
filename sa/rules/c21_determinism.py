"""C21: results do not depend on hash or address order."""
from .common import *
from . import c19_dataclass_schema as c19

RULE = ("every iteration over a set and every comparison of identities or hashes on the way is explored in both directions; the order "
        "and content of schemas, outputs, constructor arguments, registries and candidate lists must be the same on all traces")

SETUP = TYPES + """
class K:
    pass
class Probe(Converter):
    def convert(self, ctx):
        hint = ctx.datatype
        while type(hint).__name__ == 'AnnotatedTypeHint':
            hint = hint[0]
        if type(hint).__name__ == 'ClassTypeHint' and hint.type is K:
            log("part", ctx.value, ctx.key)
            return ctx.value
        raise NotImplementedError
PM = get_object_mapper()
PM.module.register(Probe(), first=True)
@dataclass
class In1:
    c: K
    b: K
@dataclass
class In2:
    z: K
    y: K
    r2: Any = None
@dataclass
class Big:
    q: K
    f: Annotated[In1, Flattened()]
    a: K
    g: Annotated[In2, Flattened()]
    m: List[K]
    rest: Annotated[Dict[str, K], Remainder()]
    last: Annotated[K, Alias('p1', 'p2', 'p3')]
class TDB(TypedDict):
    q: K
    f: Annotated[In1, Flattened()]
    a: K
    last: Annotated[K, Alias('p1', 'p2', 'p3')]
class NTB(NamedTuple):
    q: K
    a: K
    m: List[K]
@dataclass
class D1:
    x: int
    k: str = ''
@dataclass
class D2:
    x: int
    k: str = ''
@dataclass
class Base0:
    b0: int = 0
    s: int = 0
@dataclass
class Left(Base0):
    l: int = 0
@dataclass
class Right(Base0):
    r: int = 0
    s: str = ''
@dataclass
class Dia(Left, Right):
    own: int = 0
class SK1(Strict):
    pass
P = {'q': atom('q'), 'x2': atom('x2'), 'c': atom('c'), 'b': atom('b'), 'p3': atom('p3'), 'a': atom('a'), 'z': atom('z'), 'y': atom('y'), 'm': [atom('m1'), atom('m2'), atom('m3')], 'x1': atom('x1')}
OBJ = Big(atom('q'), In1(atom('c'), atom('b')), atom('a'), In2(atom('z'), atom('y')), [atom('m1'), atom('m2')], {'x2': atom('x2'), 'x1': atom('x1'), 'x3': atom('x3')}, atom('last'))
def parts():
    return [(x[1], x[2]) for x in logged("part")]
"""

RUNS = {
    "reading a structured type": "PM.deserialize(P, Big)",
    "writing a structured type": "PM.serialize(OBJ, Big)",
    "reading a TypedDict": "PM.deserialize({'c': atom('c'), 'a': atom('a'), 'p2': atom('l'), 'b': atom('b'), 'q': atom('q')}, TDB)",
    "writing a TypedDict": "PM.serialize({'last': atom('l'), 'a': atom('a'), 'f': In1(atom('c'), atom('b')), 'q': atom('q')}, TDB)",
    "reading a NamedTuple": "PM.deserialize({'m': [atom('m')], 'a': atom('a'), 'q': atom('q')}, NTB)",
    "writing a NamedTuple": "PM.serialize(NTB(atom('q'), atom('a'), [atom('m')]), NTB)",
    "reading a mapping": "PM.deserialize({'b': atom('b'), 'a': atom('a'), 'c': atom('c')}, Dict[str, K])",
    "writing a mapping": "PM.serialize({'b': atom('b'), 'a': atom('a'), 'c': atom('c')}, Dict[str, K])",
    "reading a list": "PM.deserialize([atom('b'), atom('a'), atom('c'), atom('a')], List[K])",
    "writing a list": "PM.serialize([atom('b'), atom('a'), atom('c')], List[K])",
    "reading a set": "PM.deserialize(['b', 'a', 'c', 'a'], Set[K])",
    "reading a tuple": "PM.deserialize([atom('b'), atom('a')], Tuple[K, K])",
    "reading a plain union": "PM.deserialize({'x': 1, 'k': 'y'}, t.Union[D1, D2])",
    "reading a plain union, reversed": "PM.deserialize({'x': 1, 'k': 'y'}, t.Union[D2, D1])",
    "reading a plain union with equal defaults": "PM.deserialize({'x': 1}, t.Union[D2, D1, A])",
    "reading an optional union": "PM.deserialize({'x': 1}, Optional[t.Union[D1, D2]])",
    "reading a plain union of collections": "PM.deserialize([1], t.Union[List[int], Set[int], Tuple[int, ...]])",
    "writing a plain union": "PM.serialize(D1(1, 'x'), t.Union[D1, D2])",
    "reading a discriminated union": "[PM.deserialize({'type': 'a', 'a': {'a': 1}}, Nested), PM.deserialize({'type': 'b', 'b': 'x'}, Flat), PM.deserialize({'a': {'a': 1}}, Keyed)]",
    "writing a discriminated union": "[PM.serialize(A(1), Nested), PM.serialize(B('x'), Flat), PM.serialize(A(1), Keyed)]",
    "a failing plain union": "attempt(PM.deserialize, 'z', t.Union[D1, D2])[0]",
    "unconsumed keys": "attempt(PM.deserialize, {'x': 1, 'n': 1, 'm': 2, 'o': 3}, D1)[0]",
    "recorded extra keys": "[PM.deserialize({'x': 1, 'n': 1, 'm': 2, 'o': 3}, D1, settings=[ExtraKeys(recorder=lambda c, keys: log('part', sorted(keys), type(keys)))])]",
    "an alias competition": "PM.deserialize({'p3': 3, 'p2': 2, 'p1': 1}, Annotated[DAl, ExtraKeys()])",
    "a diamond": "[list(convert_to_schema(TypeHint(Dia)).fields), PM.deserialize({'r': 1, 'own': 2, 'l': 3, 's': 'x'}, Dia), PM.serialize(Dia(1, 's', 2, 3, 4), Dia)]",
    "a DateFormat list": "DateFormat('%Y', '%d', '%H').formats",
    "a module's converters": "[type(c).__name__ for c in JsonModule().converters]",
    "merged settings": "[type(s).__name__ for s in merged()]",
    "a set default": "[PM.deserialize({'p': ['x']}, DSet), PM.deserialize({}, DSet)]",
    "expanded fields": "[(k, list(v)) for k, v in get_fields_expanded(convert_to_schema(TypeHint(Big2))).items()]",
    "an enum": "[PM.deserialize('RED', Color), PM.serialize(Tag.CAT, Tag), PM.deserialize('puss', Tag)]",
    "a multi-base collection": "attempt(PM.deserialize, [1], TwoItems)[0]",
    "a generic hierarchy": "list(convert_to_schema(TypeHint(GenC[int])).fields.items())",
}
EXTRA = """
@dataclass
class DAl:
    v: Annotated[int, Alias('p1', 'p2', 'p3')]
@dataclass
class DSet:
    p: Set[str] = field(default_factory=set)
    q: t.FrozenSet[str] = frozenset()
@dataclass
class Big2:
    q: K
    f: Annotated[In1, Flattened()]
    g: Annotated[In2, Flattened()]
class TwoItems(List[int], t.Collection[str]):
    pass
@dataclass
class GenP(Generic[T1]):
    z: T1
    y: int
@dataclass
class GenQ(Generic[T1]):
    w: T1
    y: str
@dataclass
class GenC(GenP[T1], GenQ[str]):
    a: T1
def merged():
    s = Settings()
    s.add_global(Strict(False)); s.add_global(ExtraKeys()); s.add_local(int, Strict(True)); s.add_local(int, Required()); s.add_local(int, Alias('x'))
    ctx = Context(None, DES, 1, TypeHint(Annotated[int, Flattened(), Required()]), s, Context.ROOT, Location.EMPTY, lambda c: None)
    out = []
    for k in (Strict, Required, Alias, ExtraKeys, Flattened):
        x = ctx.get_setting(k)
        if x is not None:
            out.append(x)
    return out
"""

REG = """
class Chain0:
    pass
from databind.core.union import *
m1 = StaticUnionMembers({'b': A, 'a': B})
m2 = StaticUnionMembers({'c': Pt, 'a': B, 'd': PtSub})
m3 = StaticUnionMembers({'e': A})
"""
REGS = {
    "static ids": "list(m1.get_type_ids())",
    "chained ids": "list(ChainUnionMembers(m2, m1, m3).get_type_ids())",
    "chained lookups": "[ChainUnionMembers(m2, m1, m3).get_type_id(A), ChainUnionMembers(m3, m1).get_type_id(A), ChainUnionMembers(m1, m2).get_type_by_id('a')]",
    "a type with several ids": "StaticUnionMembers({'y': A, 'x': A, 'z': A}).get_type_id(A)",
    "registered ids": "list(reg().get_type_ids())",
}


def cases():
    for what, run in RUNS.items():
        yield case(what, SETUP + EXTRA, f"""
r = {run}
outcome(r)
outcome(parts())
outcome([(e[0], list(e[2:])) for e in events("construct") if e[0] in (Big, In1, In2, NTB, Dia)])
""")
    for what, run in REGS.items():
        yield case(f"registry: {what}", SETUP + REG + """
def reg():
    u = StaticUnionMembers()
    u.register('z')(A); u.register('y')(B); u.register('x')(Pt)
    return u
""", f"outcome({run})")
    yield case("registry: entry points", SETUP + REG, """
class EP:
    def __init__(self, name, group, value, obj):
        self.name, self.group, self.value, self.obj = name, group, value, obj
    def load(self):
        return self.obj
entrypoints([EP('z', 'grp', 'm:Z', A), EP('a', 'grp', 'm:A', B), EP('m', 'grp', 'm:M', Pt)])
u = EntrypointUnionMembers('grp')
outcome(list(u.get_type_ids()))
outcome([u.get_type_by_id('a'), u.get_type_id(Pt)])
""")
    for what, (defs, hint, cls, want) in c19.SHAPES.items():
        yield case(f"schema: {what}", c19.COMMON + defs, f"""
s = convert_to_schema(TypeHint({hint}))
outcome(list(s.fields))
outcome([(f.datatype, f.required) for f in s.fields.values()])
""")
    for what, mods, defs, cls, want in c19.MODS:
        yield case(f"schema: {what}", c19.COMMON + defs, f"""
s = convert_to_schema(TypeHint({cls}))
outcome(list(s.fields))
outcome([f.datatype for f in s.fields.values()])
""", modules=mods)
    for cls, _ in c19.EXPANDED:
        yield case(f"expanded: {cls}", c19.COMMON + c19.EXPAND, f"outcome([(k, list(v)) for k, v in get_fields_expanded(convert_to_schema(TypeHint({cls}))).items()])")
