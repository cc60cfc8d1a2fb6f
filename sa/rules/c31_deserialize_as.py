"""C31: DeserializeAs replaces the structured type of the hint it applies to, and nothing else."""
from .common import *

RULE = ("on every path, converting a structured hint to which a DeserializeAs setting applies ends exactly as converting the type it "
        "names (result, class, error), in both directions; hints it does not apply to - other fields, the parts of the type named, "
        "containers around it - convert as if it were not there")

SETUP = TYPES + """
class Iface:
    pass
@dataclass
class Animal:
    name: str
@dataclass
class Dog(Animal):
    age: int = 3
    tags: List[str] = field(default_factory=list)
@dataclass
class Odd:
    q: Annotated[int, Alias('qq', 'q2')]
    rest: Annotated[Dict[str, int], Remainder()] = field(default_factory=dict)
@dataclass
class Kid(Animal):
    pet: Animal = None
@dataclass
class Gen(Generic[T1]):
    v: T1
@dataclass
class Lax(Animal):
    n: int = 1
class DogDict(TypedDict):
    name: str
    age: int
def agree(v, hint, plain, d, s=None):
    q = attempt(M.convert, d, v, plain, Location.EMPTY, s)
    r = attempt(M.convert, d, v, hint, Location.EMPTY, s)
    claim(r[0] == q[0], "ends in", r[0], r[1], "instead of", q[0], q[1])
    if r[0] == "ok" and q[0] == "ok":
        claim(eqv(r[1], q[1]), "gives", r[1], "instead of", q[1])
        claim(type(r[1]) is type(q[1]), "gives a", type(r[1]), "instead of", type(q[1]))
"""
# the type named -> payloads and values
TARGETS = {
    "Dog": ["{'name': 'n', 'age': val('a')}", "{'name': val('n')}", "{'name': 'n', 'tags': [val('t')]}", "{}", "{'age': 1}",
            "{'name': 'n', 'zz': 1}", "None", "0", "'x'", "[]", "val('v')", "Dog(val('n'), val('a', int))", "Animal('x')", "Odd(1)", "Iface()"],
    "Animal": ["{'name': val('n')}", "{'name': 'n', 'age': 1}", "{}", "Animal(val('n'))", "Dog('x')", "Odd(1)"],
    "Odd": ["{'qq': val('q')}", "{'q2': val('q'), 'zz': val('z')}", "{'q': 1}", "{'name': 'x'}", "Odd(val('q', int), {'k': 1})", "Animal('x')"],
    "Lax": ["{'name': 'n', 'n': val('m')}", "{'name': 'n', 'zz': 1}", "Lax('x', 5)"],
    "DogDict": ["{'name': 'n', 'age': val('a')}", "{'name': 'n'}", "Dog('x')"],
    "Gen[int]": ["{'v': val('v')}", "Gen(val('v'))", "{}"],
    "Kid": ["{'name': 'k', 'pet': {'name': val('n')}}", "{'name': 'k', 'pet': {'name': 'x', 'age': 3}}", "Kid('k', Animal('a'))"],
}
DECLARED = ["Animal", "Iface", "Pt", "Odd"]


def cases():
    for target, values in TARGETS.items():
        for decl in DECLARED:
            for v in values:
                for how in ("Annotated[{0}, DeserializeAs({1})]", "Annotated[{0}, 'x', DeserializeAs({1}), 5]", "Annotated[Annotated[{0}, DeserializeAs({1})], 'x']"):
                    if how.startswith("Annotated[Ann") and decl != "Animal":
                        continue
                    q = how.format(decl, target)
                    yield case(f"{v} as {q}", SETUP, f"""
agree({v}, {q}, {target}, choice("direction", SER, DES))
""", max_paths=60)
        yield case(f"settings for the type name {target}", SETUP, f"""
m = get_object_mapper()
m.settings.add_local(Iface, DeserializeAs({target}))
d = choice("direction", SER, DES)
v = choice("value", {", ".join(values[:3] + values[-2:])})
q = attempt(get_object_mapper().convert, d, v, {target})
r = attempt(m.convert, d, v, Iface)
claim(r[0] == q[0] and (r[0] != "ok" or eqv(r[1], q[1])), "ends in", r, "instead of", q)
p = attempt(m.deserialize, {{'name': 'x'}}, Animal)
claim(p[0] == "ok" and exact(p[1], Animal), "another type is read as", p[1])
""")
    yield case("fields", SETUP, """
@dataclass
class F:
    a: Annotated[Animal, DeserializeAs(Dog)]
    b: Animal
    c: List[Annotated[Animal, DeserializeAs(Dog)]] = field(default_factory=list)
    d: Dict[str, Annotated[Iface, DeserializeAs(Dog)]] = field(default_factory=dict)
    e: Optional[Annotated[Animal, DeserializeAs(Dog)]] = None
n, g = val('n', str), val('g', int)
r = M.deserialize({'a': {'name': n, 'age': g}, 'b': {'name': n}, 'c': [{'name': n}], 'd': {'k': {'name': n}}, 'e': {'name': n}}, F)
claim(exact(r.a, Dog) and same(r.a.name, n) and same(r.a.age, g), "the field is read as", r.a)
claim(exact(r.b, Animal), "the next field of the same type is read as", r.b)
claim(len(r.c) == 1 and exact(r.c[0], Dog) and r.c[0].age == 3, "the elements are read as", r.c)
claim(exact(r.d['k'], Dog) and exact(r.e, Dog), "the values are read as", r.d, r.e)
q = attempt(M.deserialize, {'a': {'name': n}, 'b': {'name': n, 'age': g}}, F)
claim(q[0] == "conv", "the next field of the same type accepts keys of the other type, giving", q[1])
s = M.serialize(r, F)
claim(eqv(s['a'], {'name': n, 'age': g, 'tags': []}) and eqv(s['b'], {'name': n}), "written as", s)
""")
    yield case("the fields of the type named are read as declared", SETUP, """
@dataclass
class Node:
    name: str
    child: Optional[Animal] = None
    other: Optional['Node'] = None
@dataclass
class F:
    a: Annotated[Animal, DeserializeAs(Node)]
r = M.deserialize({'a': {'name': 'x', 'child': {'name': 'y'}, 'other': {'name': 'z'}}}, F)
claim(exact(r.a, Node) and exact(r.a.child, Animal) and exact(r.a.other, Node), "read as", r.a)
""", strict_setup=True)
    yield case("different types for different uses of one class", SETUP, """
@dataclass
class F:
    a: Annotated[Animal, DeserializeAs(Dog)]
    b: Annotated[Animal, DeserializeAs(Lax)]
    c: Animal
p = {'name': 'x'}
r = M.deserialize(choice("order", {'a': p, 'b': p, 'c': p}, {'c': p, 'b': p, 'a': p}), F)
claim(exact(r.a, Dog) and exact(r.b, Lax) and exact(r.c, Animal), "read as", r.a, r.b, r.c)
x, y, z = M.deserialize(p, Annotated[Animal, DeserializeAs(Dog)]), M.deserialize(p, Animal), M.deserialize(p, Annotated[Animal, DeserializeAs(Lax)])
claim(exact(x, Dog) and exact(y, Animal) and exact(z, Lax), "read as", x, y, z)
""")
    yield case("the highest priority wins", SETUP, """
r = M.deserialize({'name': 'x'}, Annotated[Animal, DeserializeAs(Dog), DeserializeAs(Lax, Priority.HIGH)])
claim(exact(r, Lax), "read as", r)
r = M.deserialize({'name': 'x'}, Annotated[Animal, DeserializeAs(Dog), DeserializeAs(Lax)])
claim(exact(r, Dog), "read as", r)
""")
