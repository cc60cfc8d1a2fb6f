"""C07: settings resolve by priority, then by documented proximity."""
from .common import *

RULE = ("for every pair and triple of places a setting can come from and all priorities, get_setting() returns the "
        "instance with the highest priority, the nearest one among equals, and never one of another type; per-call "
        "settings layer over the mapper's and every sub-context sees the same settings")

SETUP = TYPES + """
class S(ClassDecoratorSetting):
    def __init__(self, name, priority):
        super().__init__()
        self.name = name
        self.priority = priority
class SSub(S):
    pass
class Other(ClassDecoratorSetting):
    def __init__(self, name, priority):
        super().__init__()
        self.name = name
        self.priority = priority
ORDER = ["ann", "ann2", "cls", "cls2", "local", "local2", "cond", "prov", "prov2", "global", "global2", "parent-local",
         "parent-global", "grandparent"]
T2 = TypeVar('T2')
def build(make, noise, kind):
    'make: source -> setting; returns (context, provider)'
    class K:
        pass
    class G(Generic[T2]):
        pass
    def at(n, cls=None):
        out = []
        if noise:
            out.append(Other(n, Priority.ULTIMATE))
        if n in make:
            out.append(make[n])
        if noise:
            out.append(Other(n, Priority.ULTIMATE))
        return out
    target = K if kind in ("class", "annotated") else G
    for s in at("cls") + at("cls2"):
        s(target)
    if kind in ("class", "generic", "union"):
        hint = TypeHint(K if kind == "class" else G[int] if kind == "generic" else t.Union[K, int])
    else:
        md = tuple(at("ann") + ["text"] + at("ann2"))
        hint = TypeHint(Annotated[(K if kind == "annotated" else G[int] if kind == "annotated generic" else t.Union[K, int],) + md])
    class Sized(Settings):
        def __len__(self):
            return 0
    gp = (Sized if noise else Settings)(None, at("grandparent"))
    p = (Sized if noise else Settings)(gp)
    p.global_settings = []
    for s in at("parent-global"):
        p.add_global(s)
    for s in at("parent-local"):
        p.add_local(target, s)
    own = Settings(p, at("global"))
    for s in at("global2"):
        own.add_global(s)
    for s in at("local") + at("local2"):
        own.add_local(target, s)
    own.add_local(int, S("never", Priority.ULTIMATE))
    own.add_local(object, S("never", Priority.ULTIMATE))
    for s in at("cond"):
        own.add_conditional(lambda c, s=s: log("predicate", c) or True, s)
    own.add_conditional(lambda c: False, S("never", Priority.ULTIMATE))
    own.add_provider(lambda c: log("provider", c) or at("prov") + at("prov2"))
    ctx = Context(None, SER, val("v"), hint, own, Context.ROOT, Location.EMPTY, None)
    return ctx, own
def expected(make, kind):
    best = None
    for n in ORDER:
        if n not in make:
            continue
        if n in ("cls", "cls2", "local", "local2", "parent-local") and kind in ("union", "annotated union"):
            continue
        if n in ("ann", "ann2") and kind in ("class", "generic", "union"):
            continue
        if best is None or make[n].priority > best.priority:
            best = make[n]
    return best
def judge(make, noise, kind):
    ctx, own = build(make, noise, kind)
    np, nq = len(logged("predicate")), len(logged("provider"))
    got = own.get_setting(ctx, S)
    want = expected(make, kind)
    shown = [(n, make[n].priority.name) for n in ORDER if n in make]
    claim(same(got, want), "with settings from", shown, "a", kind, "hint finds", got and got.name, "instead of", want and want.name)
    claim(same(ctx.get_setting(S), want), "Context.get_setting() finds another setting than its provider")
    claim(all(same(c[1], ctx) for c in logged("predicate")[np:] + logged("provider")[nq:]), "a provider is asked about another context")
"""
SRC = ["ann", "ann2", "cls", "cls2", "local", "local2", "cond", "prov", "prov2", "global", "global2", "parent-local",
       "parent-global", "grandparent"]
PRIOS = "Priority.LOW, Priority.NORMAL, Priority.HIGH, Priority.ULTIMATE"
KINDS7 = ["class", "annotated", "generic", "annotated generic", "union", "annotated union"]


def cases():
    for kind in KINDS7:
        yield case(f"no setting, {kind} hint", SETUP, f"judge({{}}, choice('noise', False, True), {kind!r})")
        for i, a in enumerate(SRC):
            yield case(f"one setting from {a}, {kind} hint", SETUP, f"""
judge({{{a!r}: S("a", choice("priority", {PRIOS}))}}, choice("noise", False, True), {kind!r})
judge({{{a!r}: SSub("a", Priority.NORMAL)}}, True, {kind!r})
""")
    for i, a in enumerate(SRC):
        for b in SRC[i + 1:]:
            for kind in ("annotated", "annotated generic", "annotated union") if a.startswith("ann") else ("class", "annotated", "union"):
                yield case(f"settings from {a} and {b}, {kind} hint", SETUP, f"""
make = {{{a!r}: S("a", choice("priority a", {PRIOS})), {b!r}: S("b", choice("priority b", {PRIOS}))}}
judge(make, {kind != "class"}, {kind!r})
""")
    for i, a in enumerate(SRC):
        for j, b in enumerate(SRC[i + 1:]):
            for c in SRC[i + j + 2:]:
                if (i + j + SRC.index(c)) % 4:
                    continue
                yield case(f"settings from {a}, {b} and {c}", SETUP, f"""
three = Priority.LOW, Priority.NORMAL, Priority.HIGH
make = {{{a!r}: S("a", choice("priority a", *three)), {b!r}: S("b", choice("priority b", *three)), {c!r}: S("c", choice("priority c", *three))}}
judge(make, False, "annotated")
""")
    yield case("helpers for annotations and classes", SETUP, f"""
a, b, c = S("a", choice("priority a", {PRIOS})), SSub("b", choice("priority b", {PRIOS})), S("c", choice("priority c", Priority.LOW, Priority.NORMAL, Priority.HIGH))
def best(l):
    r = None
    for s in l:
        if r is None or s.priority > r.priority:
            r = s
    return r
o = Other("o", Priority.ULTIMATE)
class K:
    pass
claim(same(get_annotation_setting(TypeHint(Annotated[int, o, a, "x", b, c]), S), best([a, b, c])), "get_annotation_setting() picks another setting")
claim(get_annotation_setting(TypeHint(Annotated[int, o]), S) is None, "get_annotation_setting() finds a setting of another type")
claim(get_annotation_setting(TypeHint(int), S) is None, "get_annotation_setting() finds something on a plain hint")
for s in (o, a, b, c):
    s(K)
claim(same(get_class_setting(K, S), best([a, b, c])), "get_class_setting() picks another setting")
claim(get_class_setting(K, BooleanSetting) is None, "get_class_setting() finds a setting of another type")
""", max_paths=200)
    yield case("default priorities", SETUP, """
for s in (Strict(), Strict(False), Alias('a'), Required(), Flattened(), SerializeDefaults(False), DeserializeAs(int), Precision(prec=2),
          Union({}), DateFormat('%Y'), ExtraKeys(), Remainder(), JsonConverter(jc.AnyConverter())):
    claim(s.priority is Priority.NORMAL, "the default priority of", type(s).__name__, "is", s.priority)
claim([p.name for p in sorted([Priority.ULTIMATE, Priority.LOW, Priority.HIGH, Priority.NORMAL])] == ["LOW", "NORMAL", "HIGH", "ULTIMATE"],
      "priorities are not ordered")
for s in (Alias('a', priority=Priority.HIGH), ExtraKeys(priority=Priority.HIGH), Strict(True, Priority.HIGH)):
    claim(s.priority is Priority.HIGH, "the priority given to", type(s).__name__, "is lost")
""")
    # --- layering per call, and sub-contexts
    SUB = SETUP + """
class Probe(Converter):
    def convert(self, ctx):
        log("ctx", ctx)
        raise NotImplementedError
def mapper():
    m = get_object_mapper()
    m.module.register(Probe(), first=True)
    return m
"""
    values = {
        "List[Dict[str, int]]": ("[{'a': 1}]", "[{'a': 1}]"),
        "Pt": ("Pt(1)", "{'x': 1}"),
        "Dict[Num, Optional[Pt]]": ("{Num.ONE: Pt(1)}", "{1: {'x': 1}}"),
        "Nested": ("A(1)", "{'type': 'a', 'a': {'a': 1}}"),
        "Flat": ("A(1)", "{'type': 'a', 'a': 1}"),
        "Keyed": ("A(1)", "{'a': {'a': 1}}"),
        "t.Union[int, Pt]": ("Pt(1)", "{'x': 1}"),
        "Tuple[int, List[NT]]": ("(1, [NT(1)])", "(1, [{'a': 1}])"),
        "TD": ("{'a': 1, 'b': 'x'}", "{'a': 1, 'b': 'x'}"),
        "Out": ("Out(Pt(1), {'z': 1})", "{'x': 1, 'z': 1}"),
    }
    out = SUB + """
@dataclass
class Out:
    inner: Annotated[Pt, Flattened()]
    rest: Annotated[Dict[str, int], Remainder()]
"""
    for h, (value, payload) in values.items():
        for d, v in (("SER", value), ("DES", payload)):
            yield case(f"providers are asked about each context of {h}, {d}", out, f"""
m = mapper()
k = choice("layers", "mapper", "call", "between", "both")
hits = []
def at_leaf(c):
    log("asked", c)
    return c.parent is not None
s, other = S("leaf", Priority.NORMAL), S("other", Priority.LOW)
m.settings.add_global(other)
mid = Settings(m.settings)
call = Settings(mid)
for x in ([m.settings] if k == "mapper" else [call] if k == "call" else [mid] if k == "between" else [m.settings, call]):
    x.add_conditional(at_leaf, s)
r = attempt(m.convert, {d}, {v}, {h}, None, call)
claim(r[0] == "ok", "conversion fails", r[1])
cs = [c[1] for c in logged("ctx")]
claim(len(cs) > 1, "no sub-contexts")
for c in cs:
    n = len(logged("asked"))
    claim(same(c.get_setting(S), s if c.parent is not None else other), "the setting provided for some contexts is found at", c.key, ":", c.get_setting(S))
    got = logged("asked")[n:]
    claim(len(got) > 0 and all(same(g[1], c) for g in got), "a provider is asked about another context than that at", c.key)
""", max_paths=60)
    for h, (value, payload) in values.items():
        for d, v in (("SER", value), ("DES", payload)):
            yield case(f"sub-contexts of {h}, {d}", out, f"""
m = mapper()
given = choice("settings", "none", "list", "provider", "empty list")
own, call = S("own", Priority.NORMAL), S("call", choice("call priority", Priority.LOW, Priority.NORMAL))
m.settings.add_global(own)
p = Settings(None, [call])
l = [call]
r = attempt(m.convert, {d}, {v}, {h}, None, None if given == "none" else l if given == "list" else [] if given == "empty list" else p)
claim(r[0] == "ok", "conversion fails", r[1])
cs = [c[1] for c in logged("ctx")]
claim(len(cs) > 1, "no sub-contexts")
want = own if given in ("none", "empty list") or (given == "list" and call.priority is Priority.LOW) else call
for c in cs:
    claim(same(c.settings, cs[0].settings), "the sub-context at", c.key, "sees other settings than the root")
    claim(same(c.get_setting(S), want), "settings given as", given, "resolve to another setting")
    if given == "provider":
        claim(same(c.settings, p), "the given provider is not used as is")
    if given == "none":
        claim(same(c.settings, m.settings), "the mapper's settings are not used")
""")
