"""C26: the dataclass extension only relaxes default ordering."""
from .common import *

RULE = ("for every class definition and call enumerated, the extended decorator accepts what the standard one accepts and fields "
        "without default after fields with one; every field without default must be given (TypeError otherwise); the class's own "
        "__post_init__ runs once with the usual arguments after that check; everything else equals the standard decorator's result")

SETUP = """
import dataclasses as std
from databind.core import dataclasses as ext
from databind.core.dataclasses import dataclass as xdc, field as xfield
InitVar = std.InitVar
ClassVar = t.ClassVar
T = TypeVar('T')
a, b, c, e = atom('a'), atom('b'), atom('c'), atom('e')
class Odd:
    'a value whose comparison and truth value cannot be used'
    def __eq__(self, o): raise RuntimeError("compared")
    def __ne__(self, o): raise RuntimeError("compared")
    def __hash__(self): raise RuntimeError("hashed")
    def __bool__(self): raise RuntimeError("truth value used")
ODD = Odd()
def mk(): return [1]
def call(f, *args, **kw):
    try:
        return ("ok", f(*args, **kw))
    except TypeError as x:
        return ("te", x)
    except Exception as x:
        return ("exc", x)
def ok(_r, _what, **want):
    claim(_r[0] == "ok", _what, ": fails with", _r[1])
    if _r[0] == "ok":
        for n, v in want.items():
            claim(same(getattr(_r[1], n), v) or eqv(getattr(_r[1], n), v), _what, ": attribute", n, "is", getattr(_r[1], n))
def bad(r, what):
    claim(r[0] == "te", what, ": no TypeError but", r[1])
def posts():
    return [list(x[1:]) for x in logged("post")]
"""
# name -> (definition with the decorator @xdc, statements)
DEFS = {
    "fields without default after fields with one": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n    r: int = 2\n    s: str\n", """
ok(call(C, a, b, c, e), "positional", p=a, q=b, r=c, s=e)
ok(call(C, q=b, s=e), "by keyword", p=0, q=b, r=2, s=e)
ok(call(C, a, b, s=e), "mixed", p=a, q=b, r=2, s=e)
bad(call(C), "no arguments"); bad(call(C, a), "q and s missing"); bad(call(C, a, b, c), "s missing"); bad(call(C, q=b), "s missing"); bad(call(C, s=b), "q missing"); bad(call(C, p=a, r=b), "q and s missing")
bad(call(C, a, b, c, e, a), "too many arguments"); bad(call(C, q=b, s=e, z=1), "unknown argument"); bad(call(C, a, p=b, q=b, s=e), "duplicate argument")
"""),
    "standard order": ("@xdc\nclass C:\n    p: int\n    q: str = 'x'\n", """
ok(call(C, a), "one", p=a, q='x'); ok(call(C, a, b), "two", p=a, q=b); ok(call(C, q=b, p=a), "keywords", p=a, q=b)
bad(call(C), "p missing"); bad(call(C, q=b), "p missing")
"""),
    "unusual names": ("@xdc\nclass C:\n    p: int = 0\n    _q: str\n    q_: str\n    Q: str\n    _: str\n    __d__: str\n    type: str\n    self_: str\n    value: str\n    key: str\n    init: str\n    x1: str\n", """
N = ('_q', 'q_', 'Q', '_', '__d__', 'type', 'self_', 'value', 'key', 'init', 'x1')
full = {n: atom(n) for n in N}
r = call(C, **full)
claim(r[0] == "ok" and all(getattr(r[1], n) is full[n] for n in N) and r[1].p == 0, "all given: gives", r[1])
for n in N:
    bad(call(C, **{k: v for k, v in full.items() if k != n}), n + " missing")
"""),
    "options of the missing field": ("@xdc\nclass C:\n    p: int = 0\n    a1: str = xfield(repr=False)\n    a2: str = std.field(compare=False)\n    a3: str = std.field(hash=False)\n    a4: str = std.field(metadata={'skip': True, 'default': 1})\n    a5: Optional[str] = xfield(annotations=[Alias('z')])\n    a6: Annotated[str, Required(False)]\n    a7: Any\n    a8: None\n", """
N = ('a1', 'a2', 'a3', 'a4', 'a5', 'a6', 'a7', 'a8')
full = {n: atom(n) for n in N}
r = call(C, **full)
claim(r[0] == "ok" and all(getattr(r[1], n) is full[n] for n in N) and r[1].p == 0, "all given: gives", r[1])
for n in N:
    bad(call(C, **{k: v for k, v in full.items() if k != n}), n + " missing")
"""),
    "any values": ("@xdc\nclass C:\n    p: Any = 0\n    q: Any\n", """
for v in (None, 0, '', False, [], NotSet, ODD, std.MISSING, val("v", int), val("s", str)):
    ok(call(C, q=v), "q given", q=v)
    ok(call(C, v, v), "both given", p=v, q=v)
"""),
    "falsy defaults": ("@xdc\nclass C:\n    p: Any = xfield(default=None)\n    q: Any = xfield(default=0)\n    r: Any = std.field(default='')\n    s: Any = xfield(default=False)\n    u: Any\n    v: Any = None\n", """
ok(call(C, u=a), "one", p=None, q=0, r='', s=False, u=a, v=None); ok(call(C, a, b, c, e, a, b), "all", p=a, q=b, r=c, s=e, u=a, v=b)
bad(call(C), "u missing")
"""),
    "default factories": ("@xdc\nclass C:\n    p: List[int] = xfield(default_factory=mk)\n    q: str\n    r: List[int] = std.field(default_factory=mk)\n", """
x, y = C(q=b), C(q=b)
claim(x.p == [1] and x.p is not y.p and x.r == [1] and x.r is not y.r, "default factories give", x.p, y.p)
bad(call(C), "q missing"); bad(call(C, [2]), "q missing")
"""),
    "own post-init": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n    def __post_init__(self):\n        log('post', self, self.p, self.q)\n", """
x = C(q=b)
claim(len(posts()) == 1 and posts()[0][0] is x and posts()[0][1] == 0 and posts()[0][2] is b, "post-init ran with", posts())
bad(call(C, a), "q missing")
claim(len(posts()) == 1, "post-init ran although an argument is missing")
"""),
    "inherited post-init": ("@xdc\nclass P:\n    p: int = 0\n    def __post_init__(self):\n        log('post', self, self.p)\n@xdc\nclass C(P):\n    q: str\n", """
x = C(q=b)
claim(len(posts()) == 1 and posts()[0][0] is x, "post-init of the base ran", len(posts()), "times")
y = P()
claim(len(posts()) == 2 and posts()[1][0] is y, "post-init of the base for the base ran", len(posts()), "times")
bad(call(C), "q missing")
"""),
    "overridden post-init": ("@xdc\nclass P:\n    p: int = 0\n    def __post_init__(self):\n        log('post', 'P', self)\n@xdc\nclass C(P):\n    q: str\n    def __post_init__(self):\n        log('post', 'C', self)\n", """
x = C(q=b)
claim([r[0] for r in posts()] == ['C'], "post-init methods run:", posts())
"""),
    "calling the base's post-init": ("@xdc\nclass P:\n    p: int = 0\n    def __post_init__(self):\n        log('post', 'P', self)\n@xdc\nclass C(P):\n    q: str\n    def __post_init__(self):\n        log('post', 'C', self)\n        super().__post_init__()\n", """
x = C(q=b)
claim([r[0] for r in posts()] == ['C', 'P'], "post-init methods run:", posts())
"""),
    "post-init of a standard base": ("@std.dataclass\nclass P:\n    p: int = 0\n    def __post_init__(self):\n        log('post', 'P', self)\n@xdc\nclass C(P):\n    q: str\n", """
x = C(q=b)
claim([r[0] for r in posts()] == ['P'] and x.p == 0 and x.q is b, "post-init methods run:", posts())
bad(call(C), "q missing")
"""),
    "post-init errors": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n    def __post_init__(self):\n        raise KeyError('inner')\n", """
r = call(C, q=b)
claim(r[0] == "exc" and isinstance(r[1], KeyError), "an error of post-init turns into", r[1])
"""),
    "post-init sees and changes the object": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n    z: int = xfield(init=False)\n    def __post_init__(self):\n        self.z = self.p\n        self.q = 'changed'\n", """
x = C(5, 'y')
claim(x.z == 5 and x.q == 'changed', "post-init has no effect:", x.z, x.q)
"""),
    "InitVar": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n    v: InitVar[int]\n    def __post_init__(self, v):\n        log('post', self, v)\n", """
x = C(q=b, v=c)
claim(len(posts()) == 1 and posts()[0][1] is c, "post-init gets", posts())
claim(x.p == 0 and x.q is b and [f.name for f in std.fields(C)] == ['p', 'q'] and 'v' not in vars(x), "an InitVar is stored")
bad(call(C, q=b), "v missing"); bad(call(C, v=c), "q missing")
claim(len(posts()) == 1, "post-init ran although an argument is missing")
for v in (None, 0, ODD):
    x = C(q=b, v=v)
    claim(same(posts()[-1][1], v), "post-init gets", posts()[-1][1])
"""),
    "InitVar with default": ("@xdc\nclass C:\n    v: InitVar[int] = 3\n    q: str\n    w: InitVar[str]\n    def __post_init__(self, v, w):\n        log('post', v, w)\n", """
C(q=b, w=c); C(a, b, c)
claim(posts()[0] == [3, c] and posts()[1] == [a, c], "post-init gets", posts())
bad(call(C, q=b), "w missing"); bad(call(C, w=c), "q missing")
"""),
    "ClassVar": ("@xdc\nclass C:\n    p: int = 0\n    k: ClassVar[int] = 7\n    n: ClassVar[str]\n    q: str\n", """
claim([f.name for f in std.fields(C)] == ['p', 'q'] and C.k == 7, "fields are", [f.name for f in std.fields(C)])
claim(not hasattr(C, 'n'), "a class variable without value has the value", getattr(C, 'n', None))
ok(call(C, a, b), "two arguments", p=a, q=b, k=7); bad(call(C, a), "q missing"); bad(call(C, q=b, k=1), "class variable as argument")
"""),
    "fields outside the constructor": ("@xdc\nclass C:\n    p: int = 0\n    z: int = xfield(init=False)\n    y: int = xfield(init=False, default=4)\n    q: str\n", """
x = C(a, b)
ok(("ok", x), "two arguments", p=a, q=b, y=4)
claim(not hasattr(x, 'z'), "a field outside the constructor has the value", getattr(x, 'z', None))
bad(call(C, a), "q missing"); bad(call(C, q=b, z=1), "field outside the constructor as argument")
claim([f.name for f in std.fields(C)] == ['p', 'z', 'y', 'q'], "fields are", [f.name for f in std.fields(C)])
"""),
    "no class attributes left": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n    r: str = xfield()\n", """
claim(not hasattr(C, 'q') and not hasattr(C, 'r') and C.p == 0, "class attributes of fields without default:", getattr(C, 'q', None))
"""),
    "inheritance": ("@xdc\nclass P:\n    p: int = 0\n    q: str\n@xdc\nclass C(P):\n    r: int = 1\n    s: str\n", """
ok(call(C, a, b, c, e), "positional", p=a, q=b, r=c, s=e); ok(call(C, q=b, s=e), "by keyword", p=0, q=b, r=1, s=e)
bad(call(C, q=b), "s missing"); bad(call(C, s=e), "inherited q missing"); ok(call(P, q=b), "base", p=0, q=b); bad(call(P), "q missing in the base"); bad(call(P, q=b, s=e), "the base takes the subclass's field")
"""),
    "a field given a default by a subclass": ("@xdc\nclass P:\n    p: int = 0\n    q: str\n@xdc\nclass C(P):\n    q: str = 'sub'\n", """
ok(call(C), "no arguments", p=0, q='sub'); bad(call(P), "q missing in the base"); ok(call(P, q=b), "base", q=b); ok(call(C, q=b), "given", q=b)
"""),
    "a field losing its default in a subclass": ("@xdc\nclass P:\n    p: int = 0\n    q: str = 'base'\n@xdc\nclass C(P):\n    q: str = xfield()\n", """
bad(call(C), "q missing"); ok(call(C, q=b), "given", q=b); ok(call(P), "base", q='base'); claim(P.q == 'base', "the base's default is", getattr(P, 'q', None))
"""),
    "standard dataclass base": ("@std.dataclass\nclass P:\n    p: int = 0\n@xdc\nclass C(P):\n    q: str\n", "ok(call(C, q=b), 'keyword', p=0, q=b); ok(call(C, a, b), 'positional', p=a, q=b); bad(call(C), 'q missing'); bad(call(C, a), 'q missing')"),
    "mixins": ("class Mx:\n    def m(self): return 1\n    p = 5\n@xdc\nclass C(Mx):\n    p: int\n    q: str\n", "ok(call(C, q=b), 'inherited attribute as default', p=5, q=b); bad(call(C), 'q missing')"),
    "generic": ("@xdc\nclass C(Generic[T]):\n    p: int = 0\n    q: T\n", "ok(call(C, q=b), 'plain', p=0, q=b); bad(call(C), 'q missing'); ok(call(C[int], q=b), 'parameterised', q=b)"),
    "frozen": ("@xdc(frozen=True)\nclass C:\n    p: int = 0\n    q: str\n", """
x = C(q=b)
ok(("ok", x), "frozen", p=0, q=b); bad(call(C), "q missing")
r = call(setattr, x, 'q', a)
claim(r[0] == "exc" and isinstance(r[1], std.FrozenInstanceError), "a frozen object can be changed:", r[1])
"""),
    "parameters are passed on": ("@xdc(order=True, repr=False)\nclass C:\n    p: int = 0\n    q: int\n@xdc(eq=False)\nclass D:\n    q: int\n@xdc()\nclass E:\n    p: int = 0\n    q: int\n", """
pr = C.__dataclass_params__
claim(pr.order is True and pr.repr is False and pr.eq is True and D.__dataclass_params__.eq is False, "parameters are", pr)
ok(call(E, q=b), "empty parameters", p=0, q=b); bad(call(E), "q missing"); bad(call(D), "q missing")
"""),
    "keyword-only": ("@xdc(kw_only=True)\nclass C:\n    p: int = 0\n    q: str\n", "ok(call(C, q=b), 'keyword', p=0, q=b); bad(call(C), 'q missing'); bad(call(C, a, b), 'positional arguments')"),
    "slots": ("@xdc(slots=True)\nclass C:\n    p: int = 0\n    q: str\n", """
x = C(q=b)
ok(("ok", x), "slots", p=0, q=b); bad(call(C), "q missing")
claim(not hasattr(x, '__dict__'), "a slotted class has a __dict__")
"""),
    "no fields": ("@xdc\nclass C:\n    pass\n@xdc\nclass D:\n    def __post_init__(self):\n        log('post', self)\n", "ok(call(C), 'no fields'); bad(call(C, 1), 'an argument'); D(); claim(len(posts()) == 1, 'post-init ran', len(posts()), 'times')"),
    "unannotated attributes": ("@xdc\nclass C:\n    p: int = 0\n    k = 5\n    q: str\n    def m(self): return self.k\n", "ok(call(C, q=b), 'plain', p=0, q=b, k=5); claim(C(q=b).m() == 5 and [f.name for f in std.fields(C)] == ['p', 'q'], 'fields are', std.fields(C)); bad(call(C), 'q missing')"),
    "field keeps its arguments": ("MD = {'k': 1}\nANN = [Alias('x')]\n@xdc\nclass C:\n    p: int = xfield(default=1, repr=False, metadata=MD)\n    q: str = xfield(annotations=ANN, metadata=MD, compare=False)\n    r: str = xfield(annotations=ANN)\n    s: int = xfield(default_factory=mk, hash=False)\n", """
f = {x.name: x for x in std.fields(C)}
claim(dict(f['p'].metadata) == {'k': 1} and f['p'].repr is False and f['p'].default == 1, "p is", f['p'])
claim(set(f['q'].metadata) == {'k', ext.ANNOTATIONS_METADATA_KEY} and f['q'].metadata[ext.ANNOTATIONS_METADATA_KEY] is ANN and f['q'].compare is False, "q is", f['q'])
claim(f['r'].metadata[ext.ANNOTATIONS_METADATA_KEY] is ANN and f['s'].hash is False and f['s'].default_factory is mk, "r or s is", f['r'], f['s'])
claim(MD == {'k': 1}, "the metadata given is changed to", MD)
"""),
    "values are stored unchanged": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n", "x = C(ODD, ODD); claim(x.p is ODD and x.q is ODD, 'stored as', x.p)"),
    "odd defaults": ("@xdc\nclass C:\n    p: Any = ODD\n    q: str\n", "x = C(q=b); claim(x.p is ODD and C.p is ODD, 'the default is', x.p); bad(call(C), 'q missing')"),
    "the name of the missing field": ("@xdc\nclass C:\n    p: int = 0\n    qqq: str\n", "r = call(C); claim(r[0] == 'te' and mentions(lines(r[1].args[0])[0], 'qqq'), 'the error is', r[1])"),
    "decorating the same base twice": ("@xdc\nclass P:\n    q: str\n@xdc\nclass C1(P):\n    r: int = 0\n    s: int\n@xdc\nclass C2(P):\n    q: str = 'x'\n    t: int\n", "ok(call(C1, a, s=b), 'first', q=a, r=0, s=b); ok(call(C2, t=b), 'second', q='x', t=b); bad(call(P), 'q missing'); bad(call(C1, s=b), 'q missing'); bad(call(C2), 't missing')"),
    "forward references and quoted types": ("@xdc\nclass C:\n    p: 'int' = 0\n    q: 'Later'\n    k: 'ClassVar[int]' = 3\nclass Later:\n    pass\n", "ok(call(C, q=b), 'quoted', p=0, q=b); bad(call(C), 'q missing')"),
    "three levels": ("@xdc\nclass G:\n    g: int = 0\n    h: str\n@xdc\nclass P(G):\n    p: int = 1\n@xdc\nclass C(P):\n    c: str\n    def __post_init__(self):\n        log('post', self)\n", "ok(call(C, h=a, c=b), 'keywords', g=0, h=a, p=1, c=b); bad(call(C, c=b), 'h missing'); bad(call(C, h=a), 'c missing'); claim(len(posts()) == 1, 'post-init ran', len(posts()), 'times')"),
    "conversion": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n    r: Annotated[int, Alias('rr')] = 3\n", """
M = get_object_mapper()
ok(attempt(M.deserialize, {'q': 's'}, C), "reading", p=0, q='s', r=3); ok(attempt(M.deserialize, {'q': 's', 'p': 1, 'rr': 2}, C), "reading", p=1, q='s', r=2)
claim(attempt(M.deserialize, {'p': 1}, C)[0] == 'conv', "a missing field is accepted")
claim(eqv(M.serialize(C(1, 's', 2), C), {'p': 1, 'q': 's', 'rr': 2}), "writing gives", M.serialize(C(1, 's', 2), C))
s = convert_to_schema(TypeHint(C)).fields
claim({n: f.required for n, f in s.items()} == {'p': False, 'q': True, 'r': False}, "required fields are", s)
"""),
    "replace, asdict, fields": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n", """
x = C(1, 'y')
claim(ext.asdict(x) == {'p': 1, 'q': 'y'} and [f.name for f in ext.fields(C)] == ['p', 'q'] and ext.is_dataclass(C), "helpers give", ext.asdict(x))
y = ext.replace(x, p=5)
claim(y.p == 5 and y.q == 'y', "replace gives", y.p, y.q)
"""),
    "equality and repr": ("@xdc\nclass C:\n    p: int = 0\n    q: str\n@xdc(eq=False)\nclass D:\n    q: str\n", "claim(C(1, 'y') == C(1, 'y') and C(q='y') == C(0, 'y') and not (C(1, 'y') == C(2, 'y')) and D('x') != D('x'), 'comparison differs')"),
}


def cases():
    for what, (defs, stmts) in DEFS.items():
        yield case(what, SETUP + defs, stmts, strict_setup=True)
    yield case("the class itself is returned", SETUP, """
class C:
    p: int = 0
    q: str
C.__doc__ = 'doc'
r = xdc(C)
claim(r is C and r.__name__ == 'C' and r.__doc__ == 'doc', "the decorator returns", r)
""")
    yield case("the decorator accepts what the standard one accepts", SETUP, """
def plain(d):
    @d
    class C:
        p: int
        q: str = 'x'
        v: InitVar[int] = 0
        k: ClassVar[int] = 1
        z: int = std.field(init=False, default=2)
    return C
A1, B1 = plain(xdc), plain(std.dataclass)
for args, kw in (((1,), {}), ((1, 'y'), {}), ((1, 'y', 3), {}), ((), {'p': 1}), ((), {'q': 1}), ((), {}), ((1, 2, 3, 4), {}), ((1,), {'z': 2}), ((1,), {'k': 2}), ((1,), {'v': 2})):
    r1, r2 = call(A1, *args, **kw), call(B1, *args, **kw)
    claim(r1[0] == r2[0], "called with", args, kw, ": the extension gives", r1, "the standard", r2)
    if r1[0] == "ok" and r2[0] == "ok":
        claim(eqv(dict(vars(r1[1])), dict(vars(r2[1]))), "called with", args, kw, ": attributes are", vars(r1[1]), vars(r2[1]))
claim([f.name for f in std.fields(A1)] == [f.name for f in std.fields(B1)], "fields differ")
""")
