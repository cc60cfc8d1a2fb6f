"""C22: union member registries are consistent name/type maps."""
from .common import *

RULE = ("for every kind of registry and every history of registrations and lookups enumerated, ids and types map to each other "
        "consistently, unknown ids and types (of any kind) raise ValueError and nothing else, changes are visible at once, deferred "
        "members go through their function, and chains consult delegates in order and list every id once")

SETUP = TYPES + """
from databind.core.union import UnionMembers, StaticUnionMembers, EntrypointUnionMembers, ImportUnionMembers, ChainUnionMembers
class C1:
    pass
class C2:
    pass
class C3:
    pass
class Sub1(C1):
    pass
class EqAll:
    'a type whose comparison answers oddly'
def call(f, *a):
    'outcome of a lookup: ("ok", value), ("ve", error) or ("exc", error)'
    try:
        return ("ok", f(*a))
    except ValueError as e:
        return ("ve", e)
    except Exception as e:
        return ("exc", e)
def claim_ids(u, pairs, what):
    'pairs of (id, type) in order of registration; the first id of a type is the one written'
    ids = u.get_type_ids()
    claim(list(ids) == [p[0] for p in pairs], what, ": ids are", ids)
    claim(list(ids) == [p[0] for p in pairs], what, ": listing the same ids again gives", ids)
    seen = []
    for n, c in pairs:
        r = call(u.get_type_by_id, n)
        claim(r[0] == "ok" and r[1] is c, what, ": the type of id", n, "is", r[1])
        if not any(c is x for x in seen):
            seen.append(c)
            r = call(u.get_type_id, c)
            claim(r[0] == "ok" and r[1] == n, what, ": the id of", c, "is", r[1])
def claim_unknown(u, ids, types, what):
    for i in ids:
        r = call(u.get_type_by_id, i)
        claim(r[0] == "ve", what, ": the unknown id", i, "gives", r[1])
    for c in types:
        r = call(u.get_type_id, c)
        claim(r[0] == "ve", what, ": the unknown type", c, "gives", r[1])
class EP:
    def __init__(self, name, obj, group='grp'):
        self.name, self.obj = name, obj
        self.value, self.group = 'mod:attr', group
    def load(self):
        log("load", self.name)
        return self.obj
class Delegate(UnionMembers):
    'a registry that logs, and answers as told: a value, or an exception to raise'
    def __init__(self, name, types={}, ids={}, listed=None, err=None):
        self.name, self.types, self.ids, self.listed, self.err = name, types, ids, listed, err
    def get_type_id(self, type_):
        log("id", self.name)
        for c, i in self.types.items():
            if c is type_:
                return i
        raise self.err or ValueError("unknown type in " + self.name)
    def get_type_by_id(self, type_id):
        log("type", self.name)
        if type_id in self.ids:
            return self.ids[type_id]
        raise self.err or ValueError("unknown id in " + self.name)
    def get_type_ids(self):
        log("ids", self.name)
        if self.listed is None:
            raise NotImplementedError
        return self.listed
def names(kind):
    return [x[1] for x in logged(kind)]
"""

IDS = ["'nope'", "''", "'A'", "'a '", "'__init__'", "'members'", "'.'", "'a.b'", "val('id', str)"]
STATIC = {
    "a mapping": ("u = StaticUnionMembers({'a': C1, 'b': C2})", "[('a', C1), ('b', C2)]"),
    "an empty mapping": ("u = StaticUnionMembers()", "[]"),
    "through Union": ("u = Union({'a': C1, 'b': C2}).members", "[('a', C1), ('b', C2)]"),
    "through Union, none": ("u = Union().members", "[]"),
    "through Union, any mapping": ("u = Union(t.cast(Mapping, {'b': C2, 'a': C1})).members", "[('b', C2), ('a', C1)]"),
    "two ids of a type": ("u = StaticUnionMembers({'x': C1, 'y': C1, 'z': C2})", "[('x', C1), ('y', C1), ('z', C2)]"),
    "registered": ("u = StaticUnionMembers()\nu.register('a')(C1)\nu.register()(C2)", "[('a', C1), ('C2', C2)]"),
    "registered, classes within others": ("class In:\n    class In2:\n        pass\n    class C1:\n        pass\ndef make():\n    class Local:\n        pass\n    return Local\nL = make()\nu = StaticUnionMembers()\nu.register()(In.In2)\nu.register('')(In.C1)\nu.register()(L)\nu.register('In.In2')(In)", "[('In2', In.In2), ('C1', In.C1), ('Local', L), ('In.In2', In)]"),
    "registered after": ("u = StaticUnionMembers({'a': C1})\nu.register('b')(C2)", "[('a', C1), ('b', C2)]"),
    "subclasses": ("u = StaticUnionMembers({'p': C1, 's': Sub1})", "[('p', C1), ('s', Sub1)]"),
    "subclasses first": ("u = StaticUnionMembers({'s': Sub1, 'p': C1})", "[('s', Sub1), ('p', C1)]"),
    "deferred": ("def d1(): return C1\ndef d2(): return C2\nu = StaticUnionMembers({'a': d1, 'b': d2, 'c': C3})", "[('a', C1), ('b', C2), ('c', C3)]"),
    "deferred lambdas": ("u = StaticUnionMembers({'a': lambda: C1, 'b': lambda: C2})", "[('a', C1), ('b', C2)]"),
    "deferred members of one piece of code": ("def later(c):\n    def d(): return c\n    return d\nu = StaticUnionMembers({n: later(c) for n, c in (('a', C1), ('b', C2))})\nu.members['c'] = (lambda x: lambda: x)(C3)", "[('a', C1), ('b', C2), ('c', C3)]"),
    "deferred members that differ in their defaults": ("u = StaticUnionMembers({n: (lambda c=c: c) for n, c in (('a', C1), ('b', C2))})", "[('a', C1), ('b', C2)]"),
    "a shared deferred": ("def d1(): return C1\nu = StaticUnionMembers({'a': d1, 'b': d1})", "[('a', C1), ('b', C1)]"),
    "builtin types": ("u = StaticUnionMembers({'int': int, 'str': str, 'bool': bool})", "[('int', int), ('str', str), ('bool', bool)]"),
    "odd ids": ("u = StaticUnionMembers({'': C1, ' ': C2, 'a.b': C3})", "[('', C1), (' ', C2), ('a.b', C3)]"),
}
# histories: text, then (ids in order) after it
HIST = {
    "replacing a member": ("u = StaticUnionMembers({'a': C1, 'b': C2})", "u.members['a'] = C3", "[('a', C3), ('b', C2)]", "[C1]"),
    "removing a member": ("u = StaticUnionMembers({'a': C1, 'b': C2})", "del u.members['a']", "[('b', C2)]", "[C1]"),
    "clearing": ("u = StaticUnionMembers({'a': C1})", "u.members.clear()", "[]", "[C1]"),
    "a new mapping": ("u = StaticUnionMembers({'a': C1})", "u.members = {'b': C2}", "[('b', C2)]", "[C1]"),
    "adding": ("u = StaticUnionMembers({'a': C1})", "u.members['z'] = C2; u.register('y')(C3)", "[('a', C1), ('z', C2), ('y', C3)]", "[Sub1]"),
    "re-registering under a name": ("u = StaticUnionMembers({'a': C1})", "u.register('a')(C2)", "[('a', C2)]", "[C1]"),
    "replacing a deferred member": ("def d1(): return C1\ndef d2(): return C2\nu = StaticUnionMembers({'a': d1})", "u.members['a'] = d2", "[('a', C2)]", "[C1]"),
    "replacing a lambda": ("u = StaticUnionMembers({'a': lambda: C1})", "u.members['a'] = lambda: C2", "[('a', C2)]", "[C1]"),
    "a class for a deferred member": ("def d1(): return C1\nu = StaticUnionMembers({'a': d1})", "u.members['a'] = C2", "[('a', C2)]", "[C1]"),
    "a deferred member for a class": ("def d2(): return C2\nu = StaticUnionMembers({'a': C1})", "u.members['a'] = d2", "[('a', C2)]", "[C1]"),
    "swapping names": ("u = StaticUnionMembers({'a': C1, 'b': C2})", "u.members['a'], u.members['b'] = C2, C1", "[('a', C2), ('b', C1)]", "[C3]"),
    "swapping deferred names": ("def d1(): return C1\ndef d2(): return C2\nu = StaticUnionMembers({'a': d1, 'b': d2})", "u.members['a'], u.members['b'] = d2, d1", "[('a', C2), ('b', C1)]", "[C3]"),
    "removing a deferred member": ("def d1(): return C1\nu = StaticUnionMembers({'a': d1, 'b': C2})", "u.members.pop('a')", "[('b', C2)]", "[C1]"),
    "registering after a miss": ("u = StaticUnionMembers({'a': C1})\ncall(u.get_type_by_id, 'n')\ncall(u.get_type_id, C3)", "u.register('n')(C3)", "[('a', C1), ('n', C3)]", "[C2]"),
}
LOOK = {"no lookup before": "", "ids looked up before": "[call(u.get_type_by_id, i) for i in list(u.members)]", "types looked up before": "[call(u.get_type_id, c) for c in (C1, C2, C3)]",
        "ids listed before": "u.get_type_ids()"}

MODS = [("scn_p", "class Top:\n    class Inner:\n        class Deep:\n            pass\n    attr = 5\nclass Sub(Top):\n    pass\nvalue = 3\nnothing = None\ndef func(): return Top\ninst = Top()\nOther = Top\n"),
        ("scn_p.mod", "class InMod:\n    class Inner:\n        pass\nvalue = 'x'\n"), ("scn_p.mod.deep", "class D:\n    pass\n")]
IMPORT_OK = [("'scn_p.Top'", "scn_p.Top"), ("'scn_p.Top.Inner'", "scn_p.Top.Inner"), ("'scn_p.Top.Inner.Deep'", "scn_p.Top.Inner.Deep"), ("'scn_p.Sub'", "scn_p.Sub"),
             ("'scn_p.mod.InMod'", "scn_p.mod.InMod"), ("'scn_p.mod.InMod.Inner'", "scn_p.mod.InMod.Inner"), ("'scn_p.mod.deep.D'", "scn_p.mod.deep.D"),
             ("'decimal.Decimal'", "Decimal"), ("'builtins.int'", "int"), ("'collections.OrderedDict'", "collections.OrderedDict")]
IMPORT_BAD = ["'nope'", "'nope.Cls'", "'scn_p'", "'scn_p.mod'", "'scn_p.Nope'", "'scn_p.Top.Nope'", "'scn_p.value'", "'scn_p.value.real'", "'scn_p.nothing'", "'scn_p.func'", "'scn_p.inst'", "'scn_p.Top.attr'",
              "'scn_p.mod.value'", "'scn_p.mod.Nope'", "'scn_p.mod.nope.Nope'", "'scn_p.mod.deep'", "''", "'.'", "'.scn_p'", "'scn_p.'", "'scn_p..Top'", "'scn_p.Top.'", "'builtins'", "'builtins.nope'", "'os.path'", "'scn_p.Top.Inner.Deep.x'", "'a b'", "'scn_p:Top'"]


def cases():
    for what, (make, pairs) in STATIC.items():
        yield case(f"static: {what}", SETUP, f"""
{make}
pairs = {pairs}
claim_ids(u, pairs, "{what}")
claim_ids(u, pairs, "{what}, again")
claim_unknown(u, ['nope', 'members', 'z0'], [float, EqAll, None, 5, 'a', List[int], TypeHint(float)], "{what}")
claim_ids(u, pairs, "{what}, after unknown lookups")
""", strict_setup=True)
    yield case("static: any unknown id", SETUP, """
u = StaticUnionMembers({'a': C1, 'b': lambda: C2})
i = val("id", str)
r = call(u.get_type_by_id, i)
claim(r[0] != "exc", "looking up an id gives", r[1])
if r[0] == "ok":
    claim(r[1] is C1 and i == 'a' or r[1] is C2 and i == 'b', "an id other than 'a' and 'b' gives", r[1])
else:
    claim(i != 'a' and i != 'b', "a known id is unknown")
""")
    yield case("static: type hints as members", SETUP, """
u = StaticUnionMembers({'l': TypeHint(List[int]), 'd': TypeHint(C1), 'g': Dict[str, int]})
claim(u.get_type_id(list) == 'l' and u.get_type_id(C1) == 'd' and u.get_type_id(Dict[str, int]) == 'g', "the ids of type hints are", call(u.get_type_id, list), call(u.get_type_id, C1))
claim(u.get_type_by_id('l').type is list and u.get_type_by_id('g') == Dict[str, int], "members that are type hints are not returned as they are")
""")
    yield case("static: deferred members are evaluated through their function", SETUP, """
def d1():
    log("d1")
    return C1
def fail():
    raise RuntimeError("not yet")
u = StaticUnionMembers({'a': d1, 'b': C2, 'f': fail})
claim(logged("d1") == [], "a deferred member is evaluated before it is needed")
claim(u.get_type_ids() == ['a', 'b', 'f'], "listing ids gives", u.get_type_ids())
claim(logged("d1") == [], "a deferred member is evaluated to list ids")
claim(u.get_type_by_id('a') is C1, "a deferred member is not evaluated")
u.get_type_by_id('b')
r = call(u.get_type_by_id, 'f')
claim(r[0] == "exc" and isinstance(r[1], RuntimeError), "an error of a deferred member turns into", r[1])
""")
    yield case("static: two registries share nothing", SETUP, """
def d(): return C1
a, b = StaticUnionMembers({'a': d}), StaticUnionMembers({'a': C2})
e1, e2 = StaticUnionMembers(), StaticUnionMembers()
e1.register('x')(C1)
claim_ids(a, [('a', C1)], "first")
claim_ids(b, [('a', C2)], "second")
claim_ids(e1, [('x', C1)], "third")
claim_ids(e2, [], "an empty registry besides one with members")
u1, u2 = Union(), Union()
u1.members.register('x')(C1)
claim_ids(u2.members, [], "an empty union besides one with members")
m = {'k': C1}
u3 = Union(m)
u3.members.register('z')(C2)
claim(m == {'k': C1}, "registering a member changed the mapping the union was made from:", m)
""")
    for what, (make, change, pairs, gone) in HIST.items():
        for lw, look in LOOK.items():
            yield case(f"static: {what}, {lw}", SETUP, f"""
{make}
{look}
{change}
claim_ids(u, {pairs}, "{what}")
claim_unknown(u, ['nope'], {gone}, "{what}")
""", strict_setup=True)
    # ---------------------------------------------------------------- entry points
    for what, eps in {"no entry points": [], "one": [("a", "C1")], "several": [("z", "C1"), ("a", "C2"), ("m", "C3")], "two names of a type": [("z", "C1"), ("a", "C1")]}.items():
        l = ", ".join(f"EP('{n}', {c})" for n, c in eps)
        pairs = "[" + ", ".join(f"('{n}', {c})" for n, c in eps) + "]"
        yield case(f"entry points: {what}", SETUP, f"""
entrypoints({{'other': [EP('foreign', bytes, 'other')], 'grp': [{l}], '': [EP('foreign', bytes, '')]}})
for u in (EntrypointUnionMembers('grp'), Union('!grp').members, Union.entrypoint('grp') if hasattr(Union, 'entrypoint') and isinstance(Union.entrypoint('grp'), UnionMembers) else EntrypointUnionMembers('grp')):
    claim(u.group == 'grp', "the group is", u.group)
    claim_ids(u, {pairs}, "{what}")
    claim_unknown(u, ['nope', '', 'grp'], [float, None, 5], "{what}")
    claim_ids(u, {pairs}, "{what}, again")
claim(all(e[0] in ('grp', None) for e in events("entry_points")) and len(events("entry_points")) > 0, "entry points are read from", events("entry_points"))
""")
    for kind, mk in {"entry points": "entrypoints({'grp': [EP('a-b', C1), EP('X', C2), EP('n', C3)]})\nu = EntrypointUnionMembers('grp')",
                     "static": "u = StaticUnionMembers({'a-b': C1, 'X': C2, 'n': C3})", "a chain": "u = ChainUnionMembers(StaticUnionMembers({'a-b': C1}), StaticUnionMembers({'X': C2, 'n': C3}))",
                     "deferred": "u = StaticUnionMembers({'a-b': lambda: C1, 'X': lambda: C2, 'n': lambda: C3})", "union": "u = Union({'a-b': C1, 'X': C2, 'n': C3}).members"}.items():
        yield case(f"ids that resemble another, {kind}", SETUP, f"""
{mk}
k = choice("id", val('k', str), 'a_b', 'ab', 'A-B', 'a-b ', ' a-b', 'a', 'b', 'a-b.c', 'x', 'XX', '', 'C1', 'N', 'n1', 'a-', 'a - b', 'scn.C1')
assume(k not in ('a-b', 'X', 'n'))
r = call(u.get_type_by_id, k)
claim(r[0] == "ve", "the unknown id", k, "gives", r[1])
claim(call(u.get_type_by_id, 'a-b')[1] is C1 and call(u.get_type_by_id, 'X')[1] is C2 and list(u.get_type_ids()) == ['a-b', 'X', 'n'], "afterwards the ids are", list(u.get_type_ids()))
r = call(u.get_type_by_id, k)
claim(r[0] == "ve", "asked again, the unknown id", k, "gives", r[1])
""")
    yield case("entry points: a name loads its own entry point only", SETUP, """
entrypoints({'other': [EP('foreign', bytes, 'other')], 'grp': [EP('z', C1), EP('a', C2)], '': [EP('foreign', bytes, '')]})
u = EntrypointUnionMembers('grp')
claim(u.get_type_ids() == ['z', 'a'] and names("load") == [], "listing ids loads", names("load"))
claim(u.get_type_by_id('a') is C2, "the type of 'a' is", u.get_type_by_id('a'))
claim('z' not in names("load"), "looking up 'a' loads", names("load"))
""")
    yield case("entry points: an error while loading is not an unknown id", SETUP, """
class Broken(EP):
    def load(self):
        raise self.obj
entrypoints({'other': [EP('foreign', bytes, 'other')], 'grp': [Broken('k', KeyError('inner')), Broken('i', ImportError('inner')), EP('ok', C1)], '': [EP('foreign', bytes, '')]})
u = EntrypointUnionMembers('grp')
for n in ('k', 'i'):
    r = call(u.get_type_by_id, n)
    claim(r[0] != "ok", "a broken entry point gives", r[1])
    claim(r[0] == "exc" and r[1].args == ('inner',), "the error of loading", n, "is reported as", r[1])
claim(u.get_type_by_id('ok') is C1, "a broken entry point affects another one")
""")
    # ---------------------------------------------------------------- imports
    for i, c in IMPORT_OK:
        yield case(f"import: {i[1:-1]}", SETUP + "import scn_p, scn_p.mod, scn_p.mod.deep\n", f"""
for u in (ImportUnionMembers(), Union('<import>').members):
    r = call(u.get_type_by_id, {i})
    claim(r[0] == "ok" and r[1] is {c}, "the type of", {i}, "is", r[1])
    r = call(u.get_type_id, {c})
    claim(r[0] == "ok" and r[1] == {i}, "the id of", {c}, "is", r[1])
""", modules=MODS)
    for i in IMPORT_BAD:
        yield case(f"import: no type at {i[1:-1]!r}", SETUP + "import scn_p, scn_p.mod, scn_p.mod.deep\n", f"claim_unknown(ImportUnionMembers(), [{i}], [], 'imports')", modules=MODS)
    yield case("import: any id", SETUP, """
r = call(ImportUnionMembers().get_type_by_id, val("id", str))
claim(r[0] != "exc" or isinstance(r[1], ImportError), "an unknown id gives", r[1])
""")
    yield case("import: what is not a type has no id", SETUP, """
def local():
    class L:
        pass
    return L
claim_unknown(ImportUnionMembers(), [], [None, 5, 'decimal.Decimal', List[int], TypeHint(int), C1(), local()], "imports")
r = call(ImportUnionMembers().get_type_ids)
claim(r[0] == "exc" and isinstance(r[1], NotImplementedError), "listing all importable types gives", r[1])
""")
    yield case("import: an error inside an imported module is not an unknown id", SETUP, """
failing_imports({'scn_bad': ModuleNotFoundError("No module named 'other'", name='other'), 'scn_p.bad': ModuleNotFoundError("No module named 'other'", name='other'), 'scn_err': RuntimeError('inner')})
for i in ('scn_bad.Cls', 'scn_p.bad.Cls', 'scn_err.Cls'):
    r = call(ImportUnionMembers().get_type_by_id, i)
    claim(r[0] != "ok", i, "gives", r[1])
    claim(r[0] == "exc", "an error while importing", i, "is reported as an unknown id:", r[1])
""", modules=MODS)
    # ---------------------------------------------------------------- chains
    yield case("chain: delegates in order", SETUP, """
d1 = Delegate('1', {C1: 'a1'}, {'x': C1}, ['x', 'y'])
d2 = Delegate('2', {C1: 'a2', C2: 'b2'}, {'x': C2, 'z': C2}, ['y', 'z'])
d3 = Delegate('3', {C3: 'c3'}, {'w': C3}, None)
u = ChainUnionMembers(d1, d2, d3)
claim(u.get_type_id(C1) == 'a1' and names("id") == ['1'], "the id of a type known to the first delegate is", u.get_type_id(C1), names("id"))
claim(u.get_type_id(C2) == 'b2' and u.get_type_id(C3) == 'c3', "the ids of types known to later delegates are", u.get_type_id(C2), u.get_type_id(C3))
claim(u.get_type_by_id('x') is C1, "the type of an id known to two delegates is", u.get_type_by_id('x'))
claim(u.get_type_by_id('z') is C2 and u.get_type_by_id('w') is C3, "the types of ids known to later delegates are", u.get_type_by_id('z'))
ids = u.get_type_ids()
claim(list(ids) == ['x', 'y', 'z'] and list(ids) == ['x', 'y', 'z'] and len(ids) == 3, "the ids of the chain are", u.get_type_ids())
claim_unknown(u, ['nope', ''], [float], "chain")
""")
    yield case("chain: earlier delegates only", SETUP, """
d1 = Delegate('1', {C1: 'a'}, {'x': C1}, [])
d2 = Delegate('2', {C1: 'b'}, {'x': C2}, [])
u = ChainUnionMembers(d1, d2)
u.get_type_id(C1); u.get_type_by_id('x')
claim(names("id") == ['1'] and names("type") == ['1'], "later delegates are consulted although the first one knows the member:", names("id"), names("type"))
u2 = ChainUnionMembers(d2, d1)
claim(u2.get_type_id(C1) == 'b' and u2.get_type_by_id('x') is C2, "the order of delegates does not matter")
""")
    for err in ("KeyError('inner')", "TypeError('inner')", "RuntimeError('inner')", "NotImplementedError()", "ImportError('inner')"):
        yield case(f"chain: {err} is passed on", SETUP, f"""
d1 = Delegate('1', err={err})
d2 = Delegate('2', {{C1: 'b'}}, {{'x': C1}}, [])
u = ChainUnionMembers(d1, d2)
for r in (call(u.get_type_id, C1), call(u.get_type_by_id, 'x')):
    claim(r[0] == "exc" and r[1] is d1.err, "an error of a delegate that is not 'unknown member' gives", r[1])
""")
    yield case("chain: no delegates", SETUP, """
u = ChainUnionMembers()
claim(list(u.get_type_ids()) == [], "ids are", u.get_type_ids())
claim_unknown(u, ['x'], [C1], "an empty chain")
""")
    yield case("chain: through Union", SETUP, """
entrypoints({'other': [EP('foreign', bytes, 'other')], 'grp': [EP('ep', C3)], '': [EP('foreign', bytes, '')]})
s = StaticUnionMembers({'s': C1})
u = Union([s, {'m': C2, 's': C3}, '!grp']).members
claim(isinstance(u, ChainUnionMembers) and len(u.delegates) == 3 and u.delegates[0] is s, "the delegates are", u.delegates)
claim(list(u.get_type_ids()) == ['s', 'm', 'ep'], "ids are", u.get_type_ids())
claim(u.get_type_by_id('s') is C1 and u.get_type_by_id('m') is C2 and u.get_type_by_id('ep') is C3, "types are", u.get_type_by_id('s'))
claim(u.get_type_id(C3) == 's' and u.get_type_id(C2) == 'm', "ids of types are", u.get_type_id(C3))
s.register('late')(Sub1)
claim(u.get_type_by_id('late') is Sub1 and list(u.get_type_ids()) == ['s', 'late', 'm', 'ep'], "a change of a delegate is not visible:", u.get_type_ids())
claim_unknown(u, ['nope'], [float], "chain")
""")
    yield case("chain: ids that cannot be listed", SETUP, """
u = Union([{'a': C1}, '<import>', {'b': C2}]).members
claim(list(u.get_type_ids()) == ['a', 'b'], "ids are", call(u.get_type_ids))
claim(u.get_type_by_id('decimal.Decimal') is Decimal and u.get_type_by_id('b') is C2 and u.get_type_id(C1) == 'a', "lookups fail")
""")
    for s in ("''", "'import'", "'<entrypoint>'", "'a'", "'grp!'", "val('s', str)"):
        yield case(f"Union: the members string {s[:12]}", SETUP, f"""
s = {s}
r = call(Union, s)
claim(r[0] == "ve" or r[0] == "ok" and (s == '<import>' and isinstance(r[1].members, ImportUnionMembers) or s.startswith('!') and isinstance(r[1].members, EntrypointUnionMembers)), "Union(", s, ") gives", r[1])
""")
    for g in ("grp", "grp!", "!grp", " grp", "grp ", "a.b", "Grp", "", "<import>", "g:n", "g/n"):
        yield case(f"Union: the group {g!r}", SETUP, f"""
entrypoints({{'other': [EP('foreign', bytes, 'other')], {g!r}: [EP('z', C1), EP('a', C2)]}})
for u in (Union('!' + {g!r}).members, Union(['!' + {g!r}]).members, Union.entrypoint({g!r})):
    claim(list(u.get_type_ids()) == ['z', 'a'] and u.get_type_by_id('a') is C2, "the group", {g!r}, "has the members", u.get_type_ids())
claim(Union.entrypoint({g!r}).group == {g!r} and Union('!' + {g!r}).members.group == {g!r}, "the group is", Union('!' + {g!r}).members.group)
""")
    # ---------------------------------------------------------------- Union.register
    yield case("Union.register", SETUP, """
@Union(discriminator_key='k')
class Base1:
    pass
@Union.register(Base1, 'x')
class X(Base1):
    pass
@Union.register(Base1)
class Y(Base1):
    pass
u = get_class_setting(Base1, Union).members
claim(X is not None and Y is not None, "register does not return the class")
claim_ids(u, [('x', X), ('Y', Y)], "registered")
claim_unknown(u, ['X', 'y'], [Base1, C1], "registered")
""")
    yield case("Union.register: only subclasses of a union", SETUP, """
@Union()
class Base1:
    pass
@Union('<import>')
class Base2:
    pass
class NoUnion:
    pass
class Un(Base1):
    pass
def reg(base, cls):
    return Union.register(base, 'n')(cls)
for base, cls in ((Base1, C1), (NoUnion, type('S', (NoUnion,), {}) if False else NoUnion)):
    try:
        reg(base, cls)
        claim(False, "a class that is not a subclass of a union is registered with", base)
    except (TypeError, RuntimeError, AssertionError, ValueError):
        pass
claim(list(get_class_setting(Base1, Union).members.get_type_ids()) == [], "a rejected class is registered")
""")
