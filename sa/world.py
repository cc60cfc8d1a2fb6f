"""Scenarios: how a rule describes an abstract situation and the obligation that must hold in it.

A scenario is a piece of Python text that is *interpreted abstractly* (never executed) together with the current
source of the repository.  Configuration (classes, hints, settings) is written out; payloads and values are abstract
(`val("v", int)` is some int, `val("v")` is any value whatsoever).  `claim(cond, ...)` states an obligation: a trace on
which it is false, and which contains no step the analysis over-approximated, is reported as a violation together with
the construct of the repository the trace went through last.
"""
import re
import ast
import textwrap

from .interp import *
from . import lib, extlib, shims

PRELUDE = """
import abc, collections, collections.abc, dataclasses, datetime, decimal, enum, pathlib, typing, uuid
import typing as t
from dataclasses import dataclass, field
from datetime import date, time
from decimal import Decimal
from typing import Annotated, Any, Dict, Generic, List, Literal, Mapping, NamedTuple, Optional, Set, Tuple, TypedDict, TypeVar
from nr.date import duration, date_format, time_format, datetime_format, format_set
from typeapi import TypeHint
import databind.core, databind.json
from databind.core import (Alias, Context, Converter, ConversionError, DateFormat, Direction, ExtraKeys, Flattened,
    Location, Module, NoMatchingConverter, ObjectMapper, Precision, Priority, Remainder, Required, SerializeDefaults,
    Setting, Settings, ClassDecoratorSetting, BooleanSetting, Strict, Union, Field, Schema, convert_to_schema,
    get_annotation_setting, get_class_setting, convert_dataclass_to_schema, convert_typed_dict_to_schema,
    get_fields_expanded, DeserializeAs)
from databind.core.context import format_context_trace
from databind.core.converter import DelegateToClassmethodConverter
from databind.core.utils import NotSet
from databind.json import JsonConverter, JsonModule, get_object_mapper, load, loads, dump, dumps
from databind.json import converters as jc
SER, DES = Direction.SERIALIZE, Direction.DESERIALIZE
def attempt(f, *a, **k):
    'The result of a call: ("ok", value) / ("conv", error) / ("exc", error).'
    try:
        return ("ok", f(*a, **k))
    except ConversionError as e:
        return ("conv", e)
    except Exception as e:
        return ("exc", e)
"""

_PARSED = {}


def parse(src):
    t = _PARSED.get(src)
    if t is None:
        t = _PARSED[src] = ast.parse(textwrap.dedent(src))
    return t


OPAQUE = mkcls("Opaque", module="elsewhere")
OPAQUE.flags["methods"] = ["__hash__"]
# a non-dict mapping class a user might define, and a hashable immutable one
FROZENMAP = mkcls("FrozenMap", [MAPPING], module="elsewhere",
                  methods=["__getitem__", "__iter__", "__len__", "__contains__", "keys", "items", "values", "get"])
STRSUB = mkcls("StrSub", [STR], module="elsewhere")
INTSUB = mkcls("IntSub", [INT], module="elsewhere")
FLOATSUB = mkcls("FloatSub", [FLOAT], module="elsewhere")
LISTSUB = mkcls("ListSub", [LIST], module="elsewhere")
DICTSUB = mkcls("DictSub", [DICT], module="elsewhere")


class Harness:
    """Built-in vocabulary of scenarios."""

    def __init__(self, I):
        self.I = I
        ns = self.ns = {}
        for n in ("val", "atom", "choice", "claim", "log", "logged", "run_start", "same", "exact", "fresh", "mutated",
                  "unknown", "made_by", "const_of", "events", "intern", "trusted", "json_only", "setup_done",
                  "raised_in", "given", "opaque_exc", "eqv", "fmt_with", "consts", "frozen_map", "call_raises",
                  "entrypoints", "set_import", "arg_of", "assume", "mutations", "registries", "lines", "mentions", "derived", "type_id", "calls_of", "dup", "outcome", "failing_imports", "text"):
            f = getattr(self, "h_" + n, None)
            if f is not None:
                ns[n] = Builtin("scenario." + n, f)

    # val(name)                any value;   val(name, C) a value whose exact class is C; further keywords are facts
    def h_val(self, I, a, k):
        name = a[0].v
        c = a[1] if len(a) > 1 and a[1] is not NONE else None
        props = {}
        for n, v in k.items():
            props[n] = v.v if isinstance(v, Const) else v
        if "sizes" in props:
            s = props.pop("sizes")
            props["shapes"] = [x.v for x in s.items]
        if "elem" in props:
            f = props["elem"]
            props["elem"] = lambda I, i: I.call(f, [const(i)], {})
        return Sym(name, c, **props)

    def h_atom(self, I, a, k):
        return Sym(a[0].v, a[1] if len(a) > 1 else OPAQUE, atom=True, opaque_ne=True, not_const=True, truth=True)

    def h_unknown(self, I, a, k):
        return Sym(a[0].v)

    def h_choice(self, I, a, k):
        return I.choose(("choice", a[0].v, I.path.conv_count if k.get("fresh") else 0), a[1:], f"choice {a[0].v}")

    def h_claim(self, I, a, k):
        ok = I.truth(a[0])
        I.path.claims = getattr(I.path, "claims", 0) + 1
        if not ok:
            msg = "; ".join(render(x) for x in a[1:])
            self.violate(msg)
        return NONE

    def violate(self, msg, loc=None):
        I = self.I
        v = {"message": msg, "loc": loc or I.repo_loc, "ret": I.ret_loc, "tainted": list(I.path.tainted)}
        I.path.__dict__.setdefault("violations", []).append(v)

    def h_assume(self, I, a, k):
        if not I.truth(a[0]):
            raise Infeasible()
        return NONE

    def h_log(self, I, a, k):
        I.path.__dict__.setdefault("log", []).append(TupV(list(a)))
        return NONE

    def h_logged(self, I, a, k):
        l = I.path.__dict__.get("log", [])
        if a:
            l = [x for x in l if isinstance(x.items[0], Const) and x.items[0].v == a[0].v]
        return ListV(list(l))

    def h_run_start(self, I, a, k):
        I.start_run()
        return NONE

    def h_same(self, I, a, k):
        """Same object (constants: same type and value)."""
        return const(vid(a[0]) == vid(a[1]) if not (a[0].sid and a[0] is not a[1] and not isinstance(a[0], (BoundM, TupV)))
                     else False)

    def h_dup(self, I, a, k):
        return a[0]

    def h_exact(self, I, a, k):
        """The value's class is exactly the given one."""
        c = I.class_of(a[0])
        if c is None:
            return const(any(lib.type_is(I, a[0], x) for x in a[1:]))
        return const(any(c is x for x in a[1:]))

    def h_fresh(self, I, a, k):
        return const(isinstance(a[0], Const) or a[0].sid >= (I.path.run_sid or 0))

    def h_mutated(self, I, a, k):
        return const(len([e for e in I.path.events if e[0] == "mutate"]))

    def h_mutations(self, I, a, k):
        """What pre-existing objects were modified since run_start, apart from the caches of union member registries
        and functools caches (their effect on results is the subject of the history scenarios)."""
        base = I.repo("databind.core.union.UnionMembers")
        caches = set()
        regs = [e[1] for e in I.path.events if e[0] == "mutate" and isinstance(e[1], Inst)]
        regs += [o for o in I.path.__dict__.get("registries", [])]
        for o in regs:
            if issub(o.cls, base):
                caches.update(x.sid for n, x in o.attrs.items() if n.startswith("_") and isinstance(x, (DictV, ListV, SetV)))
        out = []
        for e in I.path.events:
            if e[0] != "mutate":
                continue
            o, op = e[1], e[2]
            if op == "memoise" or o.sid in caches or e[-1] and e[-1][0] == "scenario":
                continue
            if isinstance(o, Inst) and issub(o.cls, base) and op.startswith("setattr _"):
                continue
            out.append(TupV([const(op), o, const(f"{e[-1][0]}:{e[-1][1]}" if e[-1] else "?")]))
        return ListV(out)

    def h_registries(self, I, a, k):
        """Names union member registries whose private caches may be filled."""
        I.path.__dict__.setdefault("registries", []).extend(x for x in a if isinstance(x, Inst))
        return NONE

    def h_lines(self, I, a, k):
        """The lines of a text built from constants and opaque single-line parts: each a tuple of its parts."""
        parts = [a[0]]
        flat = []
        while parts:
            v = parts.pop(0)
            if isinstance(v, Sym) and v.expr and v.expr[0] == "concat":
                parts[:0] = [x for x in v.expr[1:] if isinstance(x, V)]
            else:
                flat.append(v)
        lines = [[]]
        for v in flat:
            if isinstance(v, Const) and isinstance(v.v, str):
                for i, piece in enumerate(v.v.split("\n")):
                    if i:
                        lines.append([])
                    if piece:
                        lines[-1].append(const(piece))
            else:
                lines[-1].append(v)
        return ListV([TupV(l) for l in lines])

    def h_text(self, I, a, k):
        """text(v): str(v), running every __str__ and __repr__ on the way"""
        before = I.__dict__.get("deep_str")
        I.deep_str = True
        try:
            return I.call(STR, a, {})
        finally:
            I.deep_str = before

    def h_mentions(self, I, a, k):
        """A line (tuple of parts, see lines) mentions the object: its text, or a part made from it."""
        line, x = a
        for v in line.items:
            if isinstance(v, Const):
                if isinstance(x, Const) and (str(x.v) in v.v or repr(x.v) in v.v):
                    return TRUE
            elif self.h_derived(I, [v, x], {}) is TRUE:
                return TRUE
        text = "".join(v.v for v in line.items if isinstance(v, Const))
        if isinstance(x, TupV) and all(isinstance(y, Const) for y in x.items):
            return const(repr(tuple(y.v for y in x.items)) in text)
        return FALSE

    def h_made_by(self, I, a, k):
        """made_by(v, "op", x): v is the result of the modelled operation on x"""
        v = a[0]
        if not isinstance(v, Sym) or not v.expr or v.expr[0] != a[1].v:
            return FALSE
        ex = list(v.expr[1:])
        for x in a[2:]:
            if not any(isinstance(y, V) and vid(y) == vid(x) for y in ex):
                return FALSE
        return TRUE

    def h_derived(self, I, a, k):
        """derived(v, x): v is x or the result of (pure, modelled) operations in which x occurs"""
        def occurs(v, d=0):
            if isinstance(v, V) and vid(v) == vid(a[1]):
                return True
            if d > 6:
                return False
            if isinstance(v, Sym) and v.expr:
                return any(occurs(y, d + 1) for y in v.expr[1:] if isinstance(y, V))
            if isinstance(v, (TupV, ListV, SetV)):
                return any(occurs(y, d + 1) for y in v.items)
            if isinstance(v, DictV):
                return any(occurs(y, d + 1) for p in v.pairs for y in p)
            if isinstance(v, Inst):
                return any(occurs(y, d + 1) for y in v.attrs.values() if isinstance(y, V))
            return False
        return const(occurs(a[0]))

    def h_arg_of(self, I, a, k):
        """The i-th operand of the operation that made the value."""
        ops = [x for x in (a[0].expr[1:] if isinstance(a[0], Sym) and a[0].expr else ()) if isinstance(x, V)]
        i = a[1].v
        return ops[i] if i < len(ops) else NONE

    def h_eqv(self, I, a, k):
        """Equal by construction: constants, identical objects, containers of such (no fork)."""
        return const(eqv(a[0], a[1]))

    def h_events(self, I, a, k):
        out = []
        for e in I.path.events:
            if e[0] == a[0].v:
                out.append(TupV([x if isinstance(x, V) else const(x) if isinstance(x, (str, int, float, bool, type(None)))
                                 else const(repr(x)) for x in e[1:-1]]))
        return ListV(out)

    def h_json_only(self, I, a, k):
        """The value consists of JSON types only (exact classes), given leaves listed as exempt."""
        exempt = a[1:]
        return const(json_problem(I, a[0], exempt) is None)

    def h_outcome(self, I, a, k):
        """A result that must be the same on every trace that made the same scenario choices."""
        I.path.claims = getattr(I.path, "claims", 0) + 1
        I.path.__dict__.setdefault("outcomes", []).append((canon(a[0]), render(a[0]), I.ret_loc or I.repo_loc))
        return NONE

    def h_opaque_exc(self, I, a, k):
        """An exception object of the given class, distinguishable from all others."""
        e = Inst(a[1], {"args": TupV([])}, label=a[0].v)
        return e

    def h_failing_imports(self, I, a, k):
        """failing_imports({name: exception}): importing those modules raises"""
        table = {p[0].v: p[1] for p in a[0].pairs}

        def hook(I, n):
            e = table.get(n.v) if isinstance(n, Const) else None
            if e is not None:
                raise Raised(e, I.loc)
        I.import_hook = hook
        return NONE

    def h_entrypoints(self, I, a, k):
        """entrypoints(list): what every group contains; entrypoints({group: list}): the installed groups"""
        def table(I, group):
            if not isinstance(a[0], DictV):
                return list(a[0].items)
            return [e for g, l in a[0].pairs if group is None or lib.eq(I, g, group) for e in l.items]
        I.entrypoint_table = table
        return NONE


ADDRESS = re.compile(r"#\d+>")  # objects rendered without a representation of their own carry a running number


def canon(v, depth=0):
    """A structural key of a value in which only the order of sets is forgotten."""
    if depth > 12:
        return "..."
    if isinstance(v, Const):
        return (type(v.v).__name__, ADDRESS.sub(">", repr(v.v)))
    if isinstance(v, (TupV, ListV)):
        return (type(v).__name__, tuple(canon(x, depth + 1) for x in v.items))
    if isinstance(v, SetV):
        return ("set", tuple(sorted(repr(canon(x, depth + 1)) for x in v.items)))
    if isinstance(v, DictV):
        return ("dict", tuple((canon(p[0], depth + 1), canon(p[1], depth + 1)) for p in v.pairs))
    if isinstance(v, Cls):
        return ("class", v.module, v.name)
    if isinstance(v, Inst):
        if any(issub(v.cls, c) for c in (EXCEPTION,)):
            return ("exception", v.cls.name)
        return (v.cls.name, v.label or "", tuple((n, canon(x, depth + 1)) for n, x in sorted(v.attrs.items()) if isinstance(x, V)))
    if isinstance(v, Sym):
        return ("sym", v.name if not v.expr else "", tuple(canon(x, depth + 1) if isinstance(x, V) else str(x) for x in v.expr) if v.expr else ())
    return (type(v).__name__, getattr(v, "name", ""))


def render(v):
    if isinstance(v, Const):
        return v.v if isinstance(v.v, str) else repr(v.v)
    if isinstance(v, Inst) and v.label:
        m = v.attrs.get("message")
        return f"{v.label}" + (f": {render(m)}" if m is not None else "")
    if isinstance(v, Inst) and "message" in v.attrs:
        return f"{v.cls.name}: {render(v.attrs['message'])}"
    if isinstance(v, Inst) and "args" in v.attrs:
        return f"{v.cls.name}{v.attrs['args']!r}"
    if isinstance(v, Sym):
        return f"{v.name}" + (f" ({v.cls.name})" if v.cls is not None else "")
    if isinstance(v, TupV):
        return "(" + ", ".join(map(render, v.items)) + ")"
    if isinstance(v, ListV):
        return "[" + ", ".join(map(render, v.items)) + "]"
    if isinstance(v, DictV):
        return "{" + ", ".join(f"{render(x)}: {render(y)}" for x, y in v.pairs) + "}"
    return repr(v)


def eqv(a, b, d=0):
    if isinstance(a, Const) or isinstance(b, Const):
        return vid(a) == vid(b)
    if a is b or vid(a) == vid(b):
        return True
    if d > 8:
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (TupV, ListV)):
        if isinstance(a, ListV) and (a.cls or LIST) is not (b.cls or LIST):
            return False
        return len(a.items) == len(b.items) and all(eqv(x, y, d + 1) for x, y in zip(a.items, b.items))
    if isinstance(a, SetV):
        return a.frozen == b.frozen and len(a.items) == len(b.items) and \
            all(any(eqv(x, y, d + 1) for y in b.items) for x in a.items)
    if isinstance(a, DictV):
        return (a.cls or DICT) is (b.cls or DICT) and len(a.pairs) == len(b.pairs) and \
            all(any(eqv(x[0], y[0], d + 1) and eqv(x[1], y[1], d + 1) for y in b.pairs) for x in a.pairs)
    if isinstance(a, Inst):
        if a.cls is not b.cls:
            return False
        if a.cls.meta == "enum":
            return False
        keys = set(a.attrs) | set(b.attrs)
        return bool(keys) and all(n in a.attrs and n in b.attrs and eqv(a.attrs[n], b.attrs[n], d + 1) for n in keys)
    if isinstance(a, Sym):
        return bool(a.expr and b.expr and a.expr[0] == b.expr[0] and len(a.expr) == len(b.expr)
                    and all(eqv(x, y, d + 1) if isinstance(x, V) and isinstance(y, V) else x == y
                            for x, y in zip(a.expr[1:], b.expr[1:])))
    return False


JSONCLS = (str, int, float, bool, type(None))


def json_problem(I, v, exempt=(), d=0):
    """None if v is built of JSON types only, else the offending part."""
    if any(v is x or vid(v) == vid(x) for x in exempt):
        return None
    if d > 10:
        return None
    c = I.class_of(v)
    if c is None:
        return v
    if c.py in JSONCLS:
        return None
    if isinstance(v, ListV) and c is LIST:
        for x in v.items:
            p = json_problem(I, x, exempt, d + 1)
            if p is not None:
                return p
        return None
    if isinstance(v, DictV) and c is DICT:
        for kk, x in v.pairs:
            p = json_problem(I, kk, exempt, d + 1)
            if p is None:
                p = json_problem(I, x, exempt, d + 1)
            if p is not None:
                return p
        return None
    return v


class Infeasible(Exception):
    pass


class Case:
    """One obligation: a scenario text plus bindings for its free names."""
    __slots__ = ("name", "setup", "body", "params", "post", "max_paths", "max_steps", "strict_setup", "modules")

    def __init__(self, name, setup, body, params=None, post=None, max_paths=600, max_steps=40000, strict_setup=False,
                 modules=()):
        self.name = name
        self.setup = setup
        self.body = body
        self.params = params or {}
        self.post = post
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.strict_setup = strict_setup
        self.modules = modules      # (name, text): further modules of the scenario, which the setup can import


def order_cause(p, q):
    for (c, n, lab), (d, m, lab2) in zip(p.trace, q.trace):
        if c != d:
            return lab
    return "an undetermined order"


def lib_unsupported(I, a, k):
    raise Unsupported(a[0].v)


class World:
    def __init__(self, root="/repo"):
        self.I = I = Interp(root)
        I.base_sid = Ids.n
        self.static(self.shims)
        Ids.n = I.base_sid
        I.init(sorted(I.sources))
        self.h = Harness(I)
        self.base = I.base_sid
        # the vocabulary of the scenarios: evaluated once, part of the static state
        self.prelude = {}
        try:
            self.static(lambda: extlib.extdc.process(I, extlib.extdata.DURATION, {}))
            self.static(lambda: self.block(parse(PRELUDE), self.prelude))
        except Raised as e:
            raise AnchorMissing(f"{render(e.exc)} while importing the public names")
        self.base = I.base_sid

    def shims(self):
        """Standard library helpers that are interpreted from their Python text."""
        I = self.I
        for name, tree in shims.TREES.items():
            m = ModV(name)
            m.path = f"<{name}>"
            m.ns = {"__name__": const(name), "unsupported": Builtin("unsupported", lib_unsupported)}
            env = m.env = Env(None, "module", m)
            env.vars = m.ns
            I.run_block(tree.body, env)
            extlib.module(name).update({n: v for n, v in m.ns.items() if n[0] != "_" and n != "unsupported"})

    def static(self, f):
        """Run f as part of the static state; returns the trace (empty if nothing had to be decided)."""
        I = self.I
        Ids.n = I.base_sid
        p = I.path = Path([])
        p.run_sid = 0
        I.initing = True
        I.depth = 0
        I.exc_stack = []
        I.callstack = []
        try:
            f()
        finally:
            I.initing = False
            I.path = None
        I.base_sid = Ids.n
        return p

    def block(self, tree, ns, name="scn"):
        I = self.I
        m = ModV(name)
        m.path = "scenario"
        m.ns = ns
        ns["__name__"] = const(name)
        ns.update(self.h.ns)
        env = Env(None, "module", m)
        env.vars = ns
        m.env = env
        I.modules[name] = m
        I.run_block(tree.body, env)

    def bind(self, case, ns):
        for n, b in case.params.items():
            ns[n] = b(self.I) if callable(b) and not isinstance(b, V) else (b if isinstance(b, V) else const(b))

    def run(self, case):
        """Analyse one case; returns a picklable summary."""
        I, h = self.I, self.h
        I.base_sid = self.base
        I.entrypoint_table = I.import_hook = None
        I.covered, I.lines = set(), set()
        setup, body = parse(case.setup), parse(case.body)
        stats = {"paths": 0, "undecided": 0, "claims": 0, "steps": 0, "infeasible": 0, "tainted": 0}
        violations = []
        notes = set()

        def prepare():
            ns = dict(self.prelude)
            self.bind(case, ns)
            for name, text in case.modules:
                mod = dict(self.prelude)
                self.bind(case, mod)
                self.block(parse(text), mod, name)
                if "." in name:
                    up, last = name.rsplit(".", 1)
                    I.modules[up].ns[last] = I.modules[name]
            self.block(setup, ns)
            return ns

        def broken(e):
            if case.strict_setup:
                h.violate(f"the definition raises {render(e.exc)}", e.loc)
            else:
                raise Unsupported(f"setup raises {render(e.exc)}")

        # the definitions are evaluated once unless they depend on an undetermined fact
        shared = []
        once = False
        try:
            p0 = self.static(lambda: shared.append(prepare()))
            once = not p0.trace and not p0.tainted and not p0.facts
        except (Raised, Unsupported):
            pass
        if not once:
            I.base_sid = self.base

        def scenario(I):
            p = I.path
            p.run_sid = None
            if once:
                ns = dict(shared[0])
            else:
                try:
                    ns = prepare()
                except Raised as e:
                    broken(e)
                    return NONE
            I.start_run()
            try:
                self.block(body, ns)
            except Raised as e:
                h.violate(f"unexpected {render(e.exc)}", e.loc if e.loc and e.loc[0] != "scenario" else None)
            except Infeasible:
                p.infeasible = True
                return NONE
            if case.post:
                case.post(I, h, ns)
            return NONE

        res, complete = I.explore(scenario, case.max_paths, case.max_steps)
        outcomes = {}
        for r in res:
            p = r.path
            key = tuple((lab, c) for c, n, lab in p.trace if str(lab).startswith("choice "))
            if r.kind == "ret" and not r.tainted and not getattr(p, "infeasible", False) and hasattr(p, "outcomes"):
                first = outcomes.setdefault(key, p)
                for (a, ta, la), (b, tb, lb) in zip(first.outcomes, p.outcomes):
                    if a != b:
                        p.__dict__.setdefault("violations", []).append({
                            "message": f"the result depends on {order_cause(p, first)}: {ta} / {tb}", "loc": lb, "ret": lb, "tainted": []})
                        break
        I.modules.pop("scn", None)
        for name, _ in case.modules:
            I.modules.pop(name, None)
        for r in res:
            p = r.path
            stats["paths"] += 1
            stats["steps"] += p.steps
            stats["claims"] += getattr(p, "claims", 0)
            if getattr(p, "infeasible", False):
                stats["infeasible"] += 1
                continue
            if r.kind == "undecided":
                stats["undecided"] += 1
                notes.add(f"undecided: {r.value}")
            if r.tainted:
                stats["tainted"] += 1
                notes.add(f"over-approximated: {r.tainted[0]}")
            for v in getattr(p, "violations", []):
                if v["tainted"]:
                    continue
                if len(violations) < 5:
                    v = dict(v)
                    v["case"] = case.name
                    v["trace"] = [f"{lab} -> alternative {c}" for c, n, lab in p.trace][:40]
                    violations.append(v)
        if not complete:
            notes.add("path bound reached")
            stats["bounded"] = 1
        return {"case": case.name, "stats": stats, "violations": violations, "notes": sorted(notes)[:4],
                "covered": sorted(q for m, q in I.covered if m != "scenario"), "lines": sorted(I.lines)}
