"""Trace-partitioned abstract interpreter for the Python subset of the analysed repository.

One `Interp` holds the parsed repository.  `explore()` enumerates the abstract traces of a scenario: whenever a fact
is not determined by the abstract state the trace is split (`choose`), the fact is recorded, and each alternative is
followed separately.  Nothing of the repository is imported or executed.
"""
import ast
import collections.abc
import copy
import os
import sys

from .vals import *
from . import vals

sys.setrecursionlimit(20000)


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []          # [(chosen, n, label)]
        self.facts = {}
        self.memo = {}
        self.events = []
        self.tainted = []
        self.conv_count = 0
        self.saved = {}
        self.run_sid = None
        self.steps = 0


class Env:
    __slots__ = ("vars", "parent", "kind", "mod", "locals", "fn", "globs", "nonlocs", "cls")

    def __init__(self, parent, kind, mod, locals_=(), fn=None, globs=(), nonlocs=()):
        self.vars = {}
        self.parent = parent
        self.kind = kind
        self.mod = mod
        self.locals = locals_
        self.fn = fn
        self.globs = globs
        self.nonlocs = nonlocs
        self.cls = None


class Hoist(ast.NodeTransformer):
    """Gives every `yield` inside a larger expression a statement of its own."""

    def __init__(self):
        self.n = 0
        self.pre = []

    def block(self, body):
        out = []
        for s in body:
            out.extend(self.stmt(s))
        return out

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) or not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
            return [s]
        s = copy.copy(s)
        saved, self.pre = self.pre, []
        try:
            for name, v in ast.iter_fields(s):
                if name in ("body", "orelse", "finalbody") and isinstance(v, list):
                    setattr(s, name, self.block(v))
                elif name in ("handlers", "cases"):
                    out = []
                    for h in v:
                        h = copy.copy(h)
                        h.body = self.block(h.body)
                        out.append(h)
                    setattr(s, name, out)
                elif name == "value" and isinstance(v, (ast.Yield, ast.YieldFrom)) and isinstance(s, (ast.Expr, ast.Assign, ast.Return)):
                    v = copy.copy(v)
                    if v.value is not None:
                        v.value = self.visit(copy.deepcopy(v.value))
                    s.value = v
                elif isinstance(v, ast.AST):
                    setattr(s, name, self.visit(copy.deepcopy(v)))
                elif isinstance(v, list):
                    setattr(s, name, [self.visit(copy.deepcopy(x)) if isinstance(x, ast.AST) else x for x in v])
            if self.pre and isinstance(s, ast.While):
                s = ast.copy_location(ast.While(ast.Constant(True), self.pre + [ast.copy_location(ast.If(
                    ast.UnaryOp(ast.Not(), s.test), [ast.copy_location(ast.Break(), s)], []), s)] + s.body, []), s)
                ast.fix_missing_locations(s)
                return [s]
            return self.pre + [s]
        finally:
            self.pre = saved

    def hoist(self, n):
        n = self.generic_visit(n)
        self.n += 1
        name = f".y{self.n}"
        self.pre.append(ast.fix_missing_locations(ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], n), n)))
        return ast.copy_location(ast.Name(name, ast.Load()), n)

    visit_Yield = visit_YieldFrom = hoist

    def same(self, n):
        return n

    visit_Lambda = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = same
    visit_BoolOp = visit_IfExp = same


class FnInfo:
    """Syntactic facts about a function: its locals and whether it is a generator."""

    def __init__(self, node):
        self.globs, self.nonlocs, self.locals = set(), set(), set()
        self.is_gen = False
        self.gen_body = None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.scan(s)
        self.locals -= self.globs
        self.locals -= self.nonlocs

    def scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.scan(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Global):
            self.globs.update(n.names)
        if isinstance(n, ast.Nonlocal):
            self.nonlocs.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.scan(c)


class Interp:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.fninfo = {}
        self.annames = {}
        self.path = None
        self.hooks = {}          # qualified repo function name -> func(I, fn, args, kwargs) -> V or NotImplemented
        self.loc = self.repo_loc = self.ret_loc = None
        self.depth = 0
        self.exc_stack = []
        self.sources = {}
        self.covered = set()
        self.lines = set()
        self.calls = 0
        self.callstack = []
        from . import lib, extlib
        self.lib = lib
        self.ext = extlib
        self.builtins = lib.make_builtins(self)
        self.load_sources()

    # ------------------------------------------------------------------------------------------ sources and modules

    def load_sources(self):
        base = os.path.join(self.root, "databind", "src")
        for dirpath, dirs, files in os.walk(os.path.join(base, "databind")):
            dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py") or f.startswith("test_") or f.endswith("_test.py"):
                    continue
                p = os.path.join(dirpath, f)
                rel = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                m = ModV(rel)
                m.path = os.path.relpath(p, self.root)
                m.tree = ast.parse(src, p)
                m.is_pkg = f == "__init__.py"
                m.in_repo = True
                self.sources[rel] = m
        if "databind" not in self.sources:
            m = ModV("databind")
            m.path = "databind/src/databind"
            m.tree = ast.parse("")
            m.is_pkg = True
            self.sources["databind"] = m

    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.sources:
            m = self.sources[name]
            self.modules[name] = m
            if "." in name:
                par = self.import_module(name.rsplit(".", 1)[0])
                par.ns[name.rsplit(".", 1)[1]] = m
            m.ns["__name__"] = const(name)
            m.ns["__file__"] = const(m.path)
            env = Env(None, "module", m)
            env.vars = m.ns
            m.env = env
            self.run_block(m.tree.body, env)
            return m
        if name.split(".")[0] == "databind":
            raise self.lib.no_module(self, const(name))
        m = self.lib.ext_module(self, name)
        self.modules[name] = m
        return m

    def repo(self, dotted):
        """The value of a public name such as databind.core.Context; a vanished anchor is an analysis error."""
        mod, name = dotted.rsplit(".", 1)
        m = self.import_module(mod)
        if name not in m.ns:
            raise AnchorMissing(dotted)
        return m.ns[name]

    def init(self, names):
        """Evaluate the modules once; what they create is the static state shared by all traces."""
        self.path = Path([])
        self.path.run_sid = 0
        self.initing = True
        for n in names:
            self.import_module(n)
        self.initing = False
        self.init_taints = list(self.path.tainted)
        self.path = None
        self.base_sid = Ids.n

    # ------------------------------------------------------------------------------------------ exploration

    def explore(self, scenario, max_paths=4000, max_steps=60000):
        """scenario(I) -> (outcome kind, value).  Returns the list of PathResult."""
        results = []
        stack = [[]]
        complete = True
        while stack:
            if len(results) >= max_paths:
                complete = False
                break
            prefix = stack.pop(0 if len(results) % 2 else -1)     # depth- and breadth-first in turn
            Ids.n = self.base_sid
            p = self.path = Path(prefix)
            p.max_steps = max_steps
            self.depth = 0
            self.exc_stack = []
            self.callstack = []
            self.loc = self.repo_loc = self.ret_loc = None
            r = PathResult()
            try:
                r.value = scenario(self)
                r.kind = "ret"
            except Raised as e:
                r.kind = "exc"
                r.value = e.exc
                r.loc = e.loc
            except Unsupported as e:
                r.kind = "undecided"
                r.value = str(e)
            except RecursionError:
                r.kind = "undecided"
                r.value = "recursion"
            except AnchorMissing:
                raise
            except Exception as e:      # a gap of the analyser itself: the path stays undecided
                if os.environ.get("SA_DEBUG"):
                    raise
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                r.kind = "undecided"
                r.value = f"analyser: {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}"
            finally:
                for obj, restore in reversed(list(p.saved.values())):
                    restore(obj)
            r.path = p
            r.events = p.events
            r.tainted = p.tainted
            if r.loc is None:
                r.loc = self.loc
            results.append(r)
            for i in range(len(p.trace) - 1, len(prefix) - 1, -1):
                chosen, n, label = p.trace[i]
                for alt in range(chosen + 1, n):
                    stack.append([t[0] for t in p.trace[:i]] + [alt])
        self.path = None
        return results, complete

    def choose(self, key, options, label=None):
        """Split the trace: pick one of the alternatives of an undetermined fact (remembered for this trace)."""
        p = self.path
        if key is not None and key in p.facts:
            return p.facts[key]
        options = list(options)
        if len(options) == 1:
            r = options[0]
        else:
            i = len(p.trace)
            if i < len(p.prefix):
                c = p.prefix[i]
            else:
                c = 0
            p.trace.append((c, len(options), label or key))
            r = options[c]
        if key is not None:
            p.facts[key] = r
        return r

    def taint(self, why):
        self.path.tainted.append(why)

    def event(self, *e):
        self.path.events.append(e + (self.loc,))

    def touch(self, obj, op):
        """Record a mutation; save static objects so that the next trace starts from the same state."""
        p = self.path
        if p.run_sid is not None and obj.sid < p.run_sid:
            p.events.append(("mutate", obj, op, self.loc))
        if obj.sid <= self.__dict__.get("base_sid", 0) and obj.sid not in p.saved and not self.__dict__.get("initing"):
            snap = self.snapshot(obj)
            p.saved[obj.sid] = (obj, snap)

    def snapshot(self, obj):
        if isinstance(obj, (ListV, SetV)):
            items = list(obj.items)
            return lambda o: setattr(o, "items", items)
        if isinstance(obj, DictV):
            pairs = [list(x) for x in obj.pairs]
            return lambda o: setattr(o, "pairs", pairs)
        if isinstance(obj, Inst):
            at = dict(obj.attrs)

            def restore(o):
                o.attrs.clear()
                o.attrs.update(at)
            return restore
        if isinstance(obj, Cls):
            ns = dict(obj.ns)

            def restore(o):
                o.ns.clear()
                o.ns.update(ns)
            return restore
        if isinstance(obj, ModV):
            ns2 = dict(obj.ns)

            def restore(o):
                o.ns.clear()
                o.ns.update(ns2)
            return restore
        if isinstance(obj, (Sym, Fn)):
            at2 = dict(obj.attrs)

            def restore(o):
                o.attrs.clear()
                o.attrs.update(at2)
            return restore
        return lambda o: None

    def start_run(self):
        """Everything created before this point counts as pre-existing (inputs and shared state)."""
        self.path.run_sid = Ids.n + 1
        self.path.events.clear()

    # ------------------------------------------------------------------------------------------ exceptions

    def exc(self, cls, msg="", tag=None):
        c = cls if isinstance(cls, Cls) else ext(cls)
        args = [const(msg)] if isinstance(msg, str) else ([msg] if msg is not None else [])
        e = Inst(c, {"args": TupV(args)})
        e.label = f"{c.name}({msg})" if isinstance(msg, str) else c.name
        if tag:
            e.attrs["__tag__"] = const(tag)
        return Raised(e, self.loc)

    def raises(self, exc, *classes):
        return any(issub(exc.cls, c if isinstance(c, Cls) else ext(c)) for c in classes)

    # ------------------------------------------------------------------------------------------ statements

    def run_block(self, stmts, env):
        g = self.exec_block(stmts, env)
        try:
            next(g)
        except StopIteration as s:
            return s.value
        raise Unsupported("yield outside a generator")

    def exec_block(self, stmts, env):
        for s in stmts:
            h = self.SIMPLE.get(type(s))
            p = self.path
            p.steps += 1
            if p.steps > getattr(p, "max_steps", 10 ** 9):
                raise Unsupported("step bound")
            self.loc = (env.mod.path, s.lineno, self.callstack[-1] if self.callstack else env.mod.name)
            if env.mod.in_repo:
                self.repo_loc = self.loc
                self.lines.add((env.mod.path, s.lineno))
            if h is not None:
                v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
                if isinstance(v, (ast.Yield, ast.YieldFrom)):
                    if isinstance(v, ast.Yield):
                        sent = yield (self.eval(v.value, env) if v.value else NONE)
                        res = sent if sent is not None else NONE
                    else:
                        res = yield from self.delegate(self.iterate(self.eval(v.value, env)))
                    self.loc = (env.mod.path, s.lineno, self.callstack[-1] if self.callstack else env.mod.name)
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            self.assign(t, res, env)
                    elif isinstance(s, ast.Return):
                        return ("ret", res)
                    continue
                c = h(self, s, env)
            else:
                hh = self.COMPOUND.get(type(s))
                if hh is None:
                    raise Unsupported(type(s).__name__)
                c = yield from hh(self, s, env)
            if c is not None:
                return c
        return None

    def s_expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, env)

    def s_assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_annassign(self, s, env):
        if env.kind == "class" and isinstance(s.target, ast.Name):
            ann = self.annotation(s.annotation, env)
            d = env.vars.get("__annotations__")
            if d is None:
                d = env.vars["__annotations__"] = DictV()
            self.lib.dict_set(self, d, const(s.target.id), ann, quiet=True)
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def check_annotations(self, s, env):
        """Annotations of parameters and results are evaluated where the function is defined: their names must exist."""
        if env.mod.postponed is None:
            t = getattr(env.mod, "tree", None)
            env.mod.postponed = t is not None and any(
                isinstance(x, ast.ImportFrom) and x.module == "__future__" and any(y.name == "annotations" for y in x.names)
                for x in t.body)
        if env.mod.postponed:
            return
        names = self.annames.get(s)
        if names is None:
            a = s.args
            nodes = [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]
                     if x is not None and x.annotation is not None] + ([s.returns] if s.returns is not None else [])
            names = self.annames[s] = {n.id: n for node in nodes for n in ast.walk(node) if isinstance(n, ast.Name)}
        for name, n in names.items():
            try:
                self.lookup(name, env)
            except Raised as e:
                e.loc = (env.mod.path, n.lineno, getattr(s, "name", "")) if e.loc is None else e.loc
                raise

    def annotation(self, node, env):
        try:
            return self.eval(node, env)
        except (Raised, Unsupported):
            return Sym(f"annotation {ast.unparse(node)}", trusted=True)

    def s_augassign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.inplace(s.op, cur, self.eval(s.value, env))
            self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.inplace(s.op, cur, self.eval(s.value, env))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.lib.getitem(self, o, k)
            v = self.inplace(s.op, cur, self.eval(s.value, env))
            self.lib.setitem(self, o, k, v)
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, val):
        if isinstance(op, ast.Add) and isinstance(cur, ListV):
            self.touch(cur, "+=")
            cur.items.extend(self.iterate(val))
            return cur
        if isinstance(cur, SetV) and not cur.frozen and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor)):
            r = self.lib.binop(self, op, cur, val)
            self.touch(cur, "op=")
            cur.items = list(r.items)
            return cur
        if isinstance(cur, DictV) and isinstance(op, ast.BitOr):
            self.lib.dict_update(self, cur, val)
            return cur
        return self.lib.binop(self, op, cur, val)

    def s_return(self, s, env):
        return ("ret", self.eval(s.value, env) if s.value is not None else NONE)

    def s_raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                raise self.exc(RuntimeError, "No active exception to reraise")
            raise Raised(self.exc_stack[-1], self.loc)
        e = self.eval(s.exc, env)
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if isinstance(e, Alias):
            raise Unsupported("raise of an alias")
        if s.cause is not None:
            c = self.eval(s.cause, env)
            if isinstance(e, (Inst, Sym)):
                e.attrs["__cause__"] = c
        if isinstance(e, Sym) and e.cls is None:
            if e.props.get("exc"):
                raise Raised(e, self.loc)
            raise Unsupported("raise of an unknown value")
        if not issub(self.class_of(e), ext(BaseException)):
            raise self.exc(TypeError, "exceptions must derive from BaseException")
        self.loc = (env.mod.path, s.lineno, self.callstack[-1] if self.callstack else env.mod.name)
        raise Raised(e, self.loc)

    def s_assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            self.loc = (env.mod.path, s.lineno, self.callstack[-1] if self.callstack else env.mod.name)
            raise self.exc(AssertionError, ast.unparse(s.test))

    def s_pass(self, s, env):
        return None

    def s_break(self, s, env):
        return ("brk",)

    def s_continue(self, s, env):
        return ("cont",)

    def s_delete(self, s, env):
        for t in s.targets:
            self.delete(t, env)

    def delete(self, t, env):
        if isinstance(t, ast.Name):
            e = self.scope_of(t.id, env)
            if t.id not in e.vars:
                raise self.exc(NameError, t.id)
            del e.vars[t.id]
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.lib.delitem(self, o, self.eval(t.slice, env))
        elif isinstance(t, ast.Attribute):
            self.delattr(self.eval(t.value, env), t.attr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, env)
        else:
            raise Unsupported("del")

    def s_import(self, s, env):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store(al.asname, m, env)
            else:
                top = al.name.split(".")[0]
                self.store(top, self.import_module(top), env)

    def s_importfrom(self, s, env):
        name = s.module or ""
        if s.level:
            pk = env.mod.name.split(".")
            if not env.mod.is_pkg:
                pk = pk[:-1]
            pk = pk[: len(pk) - (s.level - 1)]
            name = ".".join(pk + ([name] if name else []))
        m = self.import_module(name)
        for al in s.names:
            if al.name == "*":
                if m.external:
                    raise Unsupported("import *")
                names = m.ns.get("__all__")
                ks = [k.v for k in names.items] if isinstance(names, ListV) else [k for k in m.ns if k[0] != "_"]
                for k in ks:
                    self.store(k, m.ns[k], env)
                continue
            if f"{name}.{al.name}" in self.sources and al.name not in m.ns:
                v = self.import_module(f"{name}.{al.name}")
            else:
                v = self.mod_attr(m, al.name, ImportError)
            self.store(al.asname or al.name, v, env)

    def mod_attr(self, m, name, exc=AttributeError):
        if name in m.ns:
            return m.ns[name]
        if m.external:
            v = self.lib.ext_attr(self, m, name)
            if v is not None:
                m.ns[name] = v
                return v
        elif f"{m.name}.{name}" in self.sources and f"{m.name}.{name}" in self.modules:
            return self.modules[f"{m.name}.{name}"]
        raise self.exc(exc, f"cannot import name {name!r} from {m.name!r}")

    def s_functiondef(self, s, env):
        v = self.make_fn(s, env)
        for d in reversed(s.decorator_list):
            dec = self.eval(d, env)
            v = self.call(dec, [v], {})
        self.store(self.mangle(s.name, env), v, env)

    def make_fn(self, s, env):
        if env.kind != "class" and not isinstance(s, ast.Lambda):
            self.check_annotations(s, env)
        defaults = [self.eval(d, env) for d in s.args.defaults]
        kwd = {a.arg: (self.eval(d, env) if d is not None else None)
               for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)}
        name = getattr(s, "name", "<lambda>")
        if env.kind == "class":
            q = f"{env.cls_qual}.{name}" if hasattr(env, "cls_qual") else name
        elif env.kind == "module":
            q = f"{env.mod.name}.{name}"
        else:
            q = f"{self.callstack[-1] if self.callstack else env.mod.name}.<locals>.{name}"
        return Fn(s, env, name, env.mod, q, defaults, kwd)

    def s_classdef(self, s, env):
        bases, orig = [], []
        for b in s.bases:
            v = self.eval(b, env)
            orig.append(v)
            bases.append(self.base_class(v))
        kws = {k.arg: self.eval(k.value, env) for k in s.keywords}
        mod = env.mod.name
        prefix = ""
        if env.kind == "class":
            prefix = env.cls_name + "."
        elif env.kind != "module":
            prefix = (self.callstack[-1].split(".")[-1] if self.callstack else "") + ".<locals>."
        cls = Cls(s.name, mod, [b for b in bases if b is not None] or [OBJECT], node=s)
        cls.qual = f"{mod}.{prefix}{s.name}"
        cls.ns["__module__"] = const(mod)
        cls.ns["__qualname__"] = const(prefix + s.name)
        doc = ast.get_docstring(s)
        cls.ns["__doc__"] = const(doc)
        cls.mro = c3(cls)
        cls.meta = next((b.meta for b in cls.mro[1:] if b.meta != "type"), "type")
        mc = kws.get("metaclass")
        if isinstance(mc, Cls) and mc.py is not None and mc.py.__name__ == "ABCMeta":
            cls.meta = "abc"
        mc = mc if isinstance(mc, Cls) else next((b.flags["metaclass"] for b in cls.mro[1:] if "metaclass" in b.flags), None)
        if mc is not None and mc.py is None and TYPE in mc.mro:
            if any(isinstance(self.class_attr(mc, n), (Fn, StaticM)) for n in ("__new__", "__init__", "__prepare__")):
                raise Unsupported("metaclass with a constructor")
            if any(k.py is not None and k.py.__name__ == "ABCMeta" for k in mc.mro):
                cls.meta = "abc"
            cls.flags["metaclass"] = mc
        if any(isinstance(o, (Alias,)) for o in orig):
            cls.orig_bases = orig
        e = ClassEnv(env, env.mod)
        e.vars = cls.ns
        e.cls_qual = cls.qual
        e.cls_name = prefix + s.name
        self.run_block(s.body, e)
        for k, v in list(cls.ns.items()):
            self.own(v, cls)
        self.lib.finish_class(self, cls, kws)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        self.store(s.name, v, env)

    def own(self, v, cls):
        if isinstance(v, Fn) and v.owner is None:
            v.owner = cls
        elif isinstance(v, (StaticM, ClassM)):
            self.own(v.fn, cls)
        elif isinstance(v, Prop):
            if v.fget is not None:
                self.own(v.fget, cls)
            if v.fset is not None:
                self.own(v.fset, cls)
        elif isinstance(v, Builtin) and v.attrs.get("__wrapped__") is not None:
            self.own(v.attrs["__wrapped__"], cls)

    def base_class(self, v):
        if isinstance(v, Cls):
            return v
        if isinstance(v, Alias):
            return v.origin if isinstance(v.origin, Cls) else None
        if isinstance(v, Special):
            return self.lib.special_base(self, v)
        if isinstance(v, Sym):
            return None
        raise Unsupported(f"base class {v!r}")

    # compound statements (generators, because they may contain yields)

    def c_if(self, s, env):
        if self.truth(self.eval(s.test, env)):
            return (yield from self.exec_block(s.body, env))
        return (yield from self.exec_block(s.orelse, env))

    def c_for(self, s, env):
        it = self.iterate(self.eval(s.iter, env))
        n = 0
        for x in it:
            n += 1
            if n > 200:
                raise Unsupported("loop bound")
            self.assign(s.target, x, env)
            c = yield from self.exec_block(s.body, env)
            if c is not None:
                if c[0] == "brk":
                    return None
                if c[0] == "cont":
                    continue
                return c
        return (yield from self.exec_block(s.orelse, env))

    def c_while(self, s, env):
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > 200:
                raise Unsupported("loop bound")
            c = yield from self.exec_block(s.body, env)
            if c is not None:
                if c[0] == "brk":
                    return None
                if c[0] == "cont":
                    continue
                return c
        return (yield from self.exec_block(s.orelse, env))

    def c_try(self, s, env):
        c = None
        pending = None
        depth = len(self.exc_stack)
        cs = list(self.callstack)
        try:
            try:
                c = yield from self.exec_block(s.body, env)
                ok = c is None
            except Raised as r:
                ok = False
                self.callstack[:] = cs
                h = self.find_handler(s.handlers, r.exc, env)
                if h is None:
                    raise
                self.exc_stack.append(r.exc)
                try:
                    if h.name:
                        self.store(h.name, r.exc, env)
                    c = yield from self.exec_block(h.body, env)
                    if h.name:
                        e = self.scope_of(h.name, env)
                        e.vars.pop(h.name, None)
                finally:
                    del self.exc_stack[depth:]
            if ok:
                c = yield from self.exec_block(s.orelse, env)
        except Raised as r:
            pending = r
        except GeneratorExit:
            raise
        if s.finalbody:
            if pending is not None:
                self.callstack[:] = cs
                self.exc_stack.append(pending.exc)
            f = yield from self.exec_block(s.finalbody, env)
            if pending is not None:
                self.exc_stack.pop()
            if f is not None:
                return f
        if pending is not None:
            raise pending
        return c

    def find_handler(self, handlers, exc, env):
        for h in handlers:
            if h.type is None:
                return h
            if self.exc_matches(exc, self.eval(h.type, env)):
                return h
        return None

    def exc_matches(self, exc, t):
        if isinstance(t, TupV):
            return any(self.exc_matches(exc, x) for x in t.items)
        if isinstance(t, Sym):
            self.taint("unknown exception class")
            return False
        if not isinstance(t, Cls):
            raise self.exc(TypeError, "catching non-class")
        return self.isinstance(exc, t)

    def c_with(self, s, env):
        return (yield from self.with_items(s.items, s.body, env))

    def with_items(self, items, body, env):
        if not items:
            return (yield from self.exec_block(body, env))
        it = items[0]
        cm = self.eval(it.context_expr, env)
        enter, exit_ = self.lib.context_manager(self, cm)
        v = enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            c = yield from self.with_items(items[1:], body, env)
        except Raised as r:
            if exit_(r):
                return None
            raise
        exit_(None)
        return c

    def c_match(self, s, env):
        v = self.eval(s.subject, env)
        for case in s.cases:
            if self.match(case.pattern, v, env):
                if case.guard is None or self.truth(self.eval(case.guard, env)):
                    return (yield from self.exec_block(case.body, env))
        return None

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.lib.eq(self, v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.lib.is_(self, v, const(p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.isinstance(v, c):
                return False
            if p.patterns:
                names = self.class_attr(c, "__match_args__") if isinstance(c, Cls) else None
                if names is None:
                    if not any(self.lib.issub(c, ext(x)) for x in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)):
                        raise self.exc(TypeError, f"{c.name}() accepts 0 positional sub-patterns")
                    if len(p.patterns) > 1 or not self.match(p.patterns[0], v, env):
                        return False
                else:
                    for n, q in zip(self.iterate(names), p.patterns):
                        if not self.match(q, self.getattr(v, n.v), env):
                            return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = self.getattr(v, a)
                except Raised as r:
                    if self.raises(r.exc, AttributeError):
                        return False
                    raise
                if not self.match(q, x, env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            k = self.class_of(v)
            if k is not None and any(self.lib.issub(k, ext(x)) for x in (str, bytes, bytearray)):
                return False
            if not self.isinstance(v, ext(collections.abc.Sequence)):
                return False
            n = self.lib.length(self, v)
            if not isinstance(n, Const):
                n = const(len(list(self.iterate(v))))
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if (n.v < len(p.patterns) - 1) if star else (n.v != len(p.patterns)):
                return False
            xs = list(self.iterate(v))
            if star:
                i, rest = star[0], len(p.patterns) - star[0] - 1
                if p.patterns[i].name:
                    self.store(p.patterns[i].name, ListV(xs[i:len(xs) - rest]), env)
                xs = xs[:i] + [None] + xs[len(xs) - rest:]
            return all(x is None or self.match(q, x, env) for q, x in zip(p.patterns, xs))
        if isinstance(p, ast.MatchMapping):
            if not self.isinstance(v, ext(collections.abc.Mapping)):
                return False
            seen = []
            for kx, q in zip(p.keys, p.patterns):
                kv = self.eval(kx, env)
                if not self.lib.contains(self, v, kv):
                    return False
                seen.append(kv)
                if not self.match(q, self.lib.getitem(self, v, kv), env):
                    return False
            if p.rest:
                self.store(p.rest, DictV([(x, y) for x, y in self.lib.mapping_pairs(self, v)
                                          if not any(self.lib.eq(self, x, z) for z in seen)]), env)
            return True
        raise Unsupported("match pattern")

    SIMPLE = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AnnAssign: s_annassign, ast.AugAssign: s_augassign,
              ast.Return: s_return, ast.Raise: s_raise, ast.Assert: s_assert, ast.Pass: s_pass, ast.Break: s_break,
              ast.Continue: s_continue, ast.Delete: s_delete, ast.Import: s_import, ast.ImportFrom: s_importfrom,
              ast.FunctionDef: s_functiondef, ast.ClassDef: s_classdef, ast.Global: s_pass, ast.Nonlocal: s_pass}
    COMPOUND = {ast.If: c_if, ast.For: c_for, ast.While: c_while, ast.Try: c_try, ast.With: c_with, ast.Match: c_match}

    # ------------------------------------------------------------------------------------------ names

    def scope_of(self, name, env):
        e = env
        if name in e.nonlocs:
            e = e.parent
            while e is not None and not (e.kind == "function" and name in e.locals):
                e = e.parent
            if e is None:
                raise Unsupported("nonlocal")
            return e
        if name in e.globs:
            return e.mod.env
        if e.kind == "comp":
            return e
        return e

    def store(self, name, v, env):
        e = self.scope_of(name, env)
        if e.kind == "module" and not getattr(self, "initing", False) and e.vars is e.mod.ns:
            self.touch(e.mod, f"global {name}")
        e.vars[name] = v

    def lookup(self, name, env):
        e = env
        if name in e.globs:
            e = e.mod.env
        first = True
        while e is not None:
            if e.kind != "class" or first:
                if name in e.vars:
                    return e.vars[name]
                if e.kind == "function" and name in e.locals:
                    raise self.exc(UnboundLocalError, f"local variable {name!r} referenced before assignment")
            first = False
            e = e.parent
        ns = env.mod.ns
        if name in ns:
            return ns[name]
        b = self.builtins.get(name)
        if b is not None:
            return b
        v = self.lib.builtin_class(name)
        if v is not None:
            return v
        if name == "__class__" or name == "__builtins__":
            raise Unsupported(name)
        raise self.exc(NameError, f"name {name!r} is not defined")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.lib.setitem(self, o, self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, env):
        vals = list(self.iterate(v, bound=len(elts)))
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(vals) < len(elts) - 1:
                raise self.exc(ValueError, "not enough values to unpack")
            parts = vals[:i] + [ListV(vals[i:len(vals) - after])] + vals[len(vals) - after:]
        else:
            if len(vals) != len(elts):
                raise self.exc(ValueError, "wrong number of values to unpack")
            parts = vals
        for e, x in zip(elts, parts):
            self.assign(e, x, env)

    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__"):
            e = env
            while e is not None:
                if e.kind == "class":
                    return f"_{e.cls_name.split('.')[-1].lstrip('_')}{name}"
                e = e.parent
        return name

    # ------------------------------------------------------------------------------------------ expressions

    def eval(self, n, env):
        h = self.EVAL.get(type(n))
        if h is None:
            raise Unsupported(type(n).__name__)
        return h(self, n, env)

    def e_constant(self, n, env):
        return const(n.value)

    def e_name(self, n, env):
        return self.lookup(self.mangle(n.id, env), env)

    def e_attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), self.mangle(n.attr, env))

    def e_boolop(self, n, env):
        v = None
        for x in n.values[:-1]:
            v = self.eval(x, env)
            tv = self.truth(v)
            if isinstance(n.op, ast.And) and not tv:
                return v
            if isinstance(n.op, ast.Or) and tv:
                return v
        return self.eval(n.values[-1], env)

    def e_unaryop(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return FALSE if self.truth(v) else TRUE
        return self.lib.unary(self, n.op, v)

    def e_binop(self, n, env):
        return self.lib.binop(self, n.op, self.eval(n.left, env), self.eval(n.right, env))

    def e_compare(self, n, env):
        left = self.eval(n.left, env)
        res = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env)
            res = self.lib.compare(self, op, left, right)
            if not self.truth(res):
                return res
            left = right
        return res

    def e_ifexp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_call(self, n, env):
        f = self.eval(n.func, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in n.keywords:
            if k.arg is None:
                m = self.eval(k.value, env)
                for kk, vv in self.lib.mapping_pairs(self, m):
                    if isinstance(kk, Const) and isinstance(kk.v, str):
                        name = kk.v
                    elif isinstance(kk, Sym) and kk.cls is STR:
                        name = kk
                    else:
                        raise self.exc(TypeError, "keywords must be strings")
                    if name in kwargs:
                        raise self.exc(TypeError, "multiple values for keyword argument")
                    kwargs[name] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        self.loc = (env.mod.path, n.lineno, self.callstack[-1] if self.callstack else env.mod.name)
        if isinstance(f, Builtin) and f.name == "super" and not args:
            return self.zero_super(env)
        if isinstance(f, Builtin) and f.name in ("locals", "globals", "vars", "dir") and not args:
            raise Unsupported(f.name + "()")
        return self.call(f, args, kwargs)

    def zero_super(self, env):
        e = env
        while e is not None and not (e.kind == "function" and e.fn is not None and e.fn.owner is not None):
            e = e.parent
        if e is None:
            raise Unsupported("super()")
        fn = e.fn
        a = fn.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return SuperV(fn.owner, e.vars[first])

    def e_lambda(self, n, env):
        return self.make_fn(n, env)

    def e_tuple(self, n, env):
        return TupV(self.elts(n.elts, env))

    def e_list(self, n, env):
        return ListV(self.elts(n.elts, env))

    def e_set(self, n, env):
        s = SetV()
        for x in self.elts(n.elts, env):
            self.lib.set_add(self, s, x, quiet=True)
        return s

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_dict(self, n, env):
        d = DictV()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for kk, vv in self.lib.mapping_pairs(self, self.eval(v, env)):
                    self.lib.dict_set(self, d, kk, vv, quiet=True)
            else:
                kk = self.eval(k, env)
                self.lib.dict_set(self, d, kk, self.eval(v, env), quiet=True)
        return d

    def comp_iter(self, gens, env, elt):
        """Python generator over the element values of a comprehension."""
        def rec(i, e):
            if i == len(gens):
                yield elt(e)
                return
            g = gens[i]
            src = self.eval(g.iter, e)
            for x in self.iterate(src):
                e2 = Env(e, "comp", env.mod)
                e2.fn = None
                self.assign(g.target, x, e2)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.eval(c, e2)):
                        ok = False
                        break
                if ok:
                    yield from rec(i + 1, e2)
        return rec(0, env)

    def e_listcomp(self, n, env):
        return ListV(list(self.comp_iter(n.generators, env, lambda e: self.eval(n.elt, e))))

    def e_setcomp(self, n, env):
        s = SetV()
        for x in self.comp_iter(n.generators, env, lambda e: self.eval(n.elt, e)):
            self.lib.set_add(self, s, x, quiet=True)
        return s

    def e_dictcomp(self, n, env):
        d = DictV()
        for k, v in self.comp_iter(n.generators, env, lambda e: (self.eval(n.key, e), self.eval(n.value, e))):
            self.lib.dict_set(self, d, k, v, quiet=True)
        return d

    def e_genexp(self, n, env):
        # the first iterable is evaluated eagerly
        src = self.eval(n.generators[0].iter, env)
        first = self.iter_value(src)
        cs = list(self.callstack)

        def run():
            def rec(i, e):
                if i == len(n.generators):
                    yield self.eval(n.elt, e)
                    return
                g = n.generators[i]
                it = first if i == 0 else self.iterate(self.eval(g.iter, e))
                for x in it:
                    e2 = Env(e, "comp", env.mod)
                    self.assign(g.target, x, e2)
                    if all(self.truth(self.eval(c, e2)) for c in g.ifs):
                        yield from rec(i + 1, e2)
            yield from rec(0, env)
        return IterV(run(), "generator", gen=True)

    def e_joinedstr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, env)
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                parts.append(self.lib.format_value(self, x, v.conversion, spec))
        return self.lib.concat_str(self, parts)

    def e_subscript(self, n, env):
        o = self.eval(n.value, env)
        return self.lib.getitem(self, o, self.eval(n.slice, env))

    def e_slice(self, n, env):
        f = lambda x: self.eval(x, env) if x is not None else NONE
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def e_namedexpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.kind == "comp":
            e = e.parent
        self.store(n.target.id, v, e)
        return v

    def e_starred(self, n, env):
        raise Unsupported("starred expression")

    def e_yield(self, n, env):
        raise Unsupported("yield expression")

    EVAL = {ast.Constant: e_constant, ast.Name: e_name, ast.Attribute: e_attribute, ast.BoolOp: e_boolop,
            ast.UnaryOp: e_unaryop, ast.BinOp: e_binop, ast.Compare: e_compare, ast.IfExp: e_ifexp, ast.Call: e_call,
            ast.Lambda: e_lambda, ast.Tuple: e_tuple, ast.List: e_list, ast.Set: e_set, ast.Dict: e_dict,
            ast.ListComp: e_listcomp, ast.SetComp: e_setcomp, ast.DictComp: e_dictcomp, ast.GeneratorExp: e_genexp,
            ast.JoinedStr: e_joinedstr, ast.Subscript: e_subscript, ast.Slice: e_slice, ast.NamedExpr: e_namedexpr,
            ast.Starred: e_starred, ast.Yield: e_yield, ast.YieldFrom: e_yield}

    # ------------------------------------------------------------------------------------------ calls

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.calls += 1
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.obj] + list(args), kwargs)
        if isinstance(f, Builtin):
            if f.arity is not None and not fits(f.arity, args, kwargs):
                raise self.exc(TypeError, f"{f.name}() called with {len(args) + len(kwargs)} arguments")
            return f.func(self, list(args), kwargs)
        if isinstance(f, Cls):
            return self.lib.instantiate(self, f, list(args), kwargs)
        if isinstance(f, Alias):
            if isinstance(f.origin, Cls):
                return self.call(f.origin, args, kwargs)
            raise self.exc(TypeError, "not callable")
        if isinstance(f, (Inst, Sym)):
            return self.lib.call_object(self, f, list(args), kwargs)
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, Special):
            return self.lib.call_special(self, f, list(args), kwargs)
        raise self.exc(TypeError, f"{f!r} is not callable")

    def info(self, node):
        i = self.fninfo.get(node)
        if i is None:
            i = self.fninfo[node] = FnInfo(node)
        return i

    def call_fn(self, f, args, kwargs):
        h = self.hooks.get(f.qual)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        info = self.info(f.node)
        env = Env(f.env if f.env.kind != "class" else ClassSkip(f.env), "function", f.mod, info.locals, f,
                  info.globs, info.nonlocs)
        self.bind(f, env, args, kwargs)
        self.covered.add((f.mod.path, f.qual))
        if isinstance(f.node, ast.Lambda):
            self.callstack.append(f.qual)
            try:
                return self.eval(f.node.body, env)
            finally:
                self.callstack.pop()
        if info.is_gen:
            return IterV(self.run_gen(f, env), "generator", gen=True)
        if self.depth > 150:      # far beyond what the small documents of the scenarios need: it never ends
            raise self.exc(RecursionError, "maximum recursion depth exceeded")
        self.depth += 1
        self.callstack.append(f.qual)
        n = len(self.callstack)
        loc = self.loc
        try:
            g = self.exec_block(f.node.body, env)
            try:
                next(g)
            except StopIteration as s:
                c = s.value
            else:
                raise Unsupported("yield")
        finally:
            self.depth -= 1
            del self.callstack[n - 1:]
        if c is None:
            self.path.events.append(("falloff", f.qual, (f.mod.path, f.node.lineno, f.qual)))
            self.loc = loc
            return NONE
        if f.mod.in_repo:
            self.ret_loc = self.loc
        self.loc = loc
        return c[1]

    def delegate(self, it):
        """`yield from` an iterator; the result is what the generator returned."""
        send, throw = getattr(it, "send", None), getattr(it, "throw", None)
        try:
            x = next(it)
            while True:
                try:
                    sent = yield x
                except Raised as r:
                    if throw is None:
                        raise
                    x = throw(r)
                else:
                    x = next(it) if sent is None or send is None else send(sent)
        except StopIteration as s:
            return s.value if isinstance(s.value, V) else NONE

    def run_gen(self, f, env):
        i = self.info(f.node)
        if i.gen_body is None:
            i.gen_body = Hoist().block(f.node.body)
        g = self.exec_block(i.gen_body, env)

        def step(resume, *a):
            self.callstack.append(f.qual)
            n = len(self.callstack)
            try:
                return resume(*a)
            except Raised as r:
                if self.raises(r.exc, StopIteration):
                    raise self.exc(RuntimeError, "generator raised StopIteration")
                raise
            finally:
                del self.callstack[n - 1:]
        try:
            x = step(g.send, None)
            while True:
                try:
                    sent = yield x
                except Raised as r:
                    x = step(g.throw, r)
                else:
                    x = step(g.send, sent)
        except StopIteration as s:
            return s.value[1] if isinstance(s.value, tuple) else NONE

    def bind(self, f, env, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        vals = env.vars
        kwargs = dict(kwargs)
        n = len(pos)
        if len(args) > n and a.vararg is None:
            raise self.exc(TypeError, f"{f.name}() takes {n} positional arguments but {len(args)} were given")
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = TupV(args[n:])
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg in kwargs and p not in a.posonlyargs:
                if p.arg in vals and i < len(args):
                    raise self.exc(TypeError, f"{f.name}() got multiple values for argument {p.arg!r}")
                vals[p.arg] = kwargs.pop(p.arg)
            elif p.arg not in vals:
                j = i - (n - nd)
                if j >= 0:
                    vals[p.arg] = f.defaults[j]
                else:
                    raise self.exc(TypeError, f"{f.name}() missing required argument {p.arg!r}")
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                vals[p.arg] = kwargs.pop(p.arg)
            elif f.kwdefaults.get(p.arg) is not None:
                vals[p.arg] = f.kwdefaults[p.arg]
            else:
                raise self.exc(TypeError, f"{f.name}() missing keyword-only argument {p.arg!r}")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV([((const(k) if isinstance(k, str) else k), v) for k, v in kwargs.items()])
        elif kwargs:
            raise self.exc(TypeError, f"{f.name}() got an unexpected keyword argument {next(iter(kwargs))!r}")

    # ------------------------------------------------------------------------------------------ basic protocols

    def class_of(self, v):
        """The class of a value, or None if it is not known."""
        if isinstance(v, Const):
            return ext(type(v.v))
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Sym):
            if v.cls is not None:
                return v.cls
            return self.path.facts.get(("exact", v.sid))
        if isinstance(v, TupV):
            return TUPLE
        if isinstance(v, ListV):
            return v.cls or LIST
        if isinstance(v, DictV):
            return v.cls or DICT
        if isinstance(v, SetV):
            return v.cls or (FROZENSET if v.frozen else SET)
        if isinstance(v, (Fn,)):
            return FUNCTION
        if isinstance(v, BoundM):
            return METHOD
        if isinstance(v, Builtin):
            return BUILTINFN
        if isinstance(v, Cls):
            return self.lib.metaclass(v)
        if isinstance(v, IterV):
            return GENERATOR if v.gen else self.lib.ITERCLS
        if isinstance(v, ViewV):
            return self.lib.VIEWCLS[v.kind]
        if isinstance(v, ModV):
            return MODULETYPE
        if isinstance(v, Prop):
            return PROPERTY
        if isinstance(v, StaticM):
            return STATICM
        if isinstance(v, ClassM):
            return CLASSM
        if isinstance(v, SliceV):
            return SLICE
        if isinstance(v, NsV):
            return self.lib.MAPPINGPROXY
        if isinstance(v, Alias):
            return self.lib.GENERICALIAS
        if isinstance(v, Special):
            return self.lib.SPECIALFORM
        return None

    def isinstance(self, v, c):
        if isinstance(c, TupV):
            for x in c.items:
                if self.isinstance(v, x):
                    return True
            return False
        if c is self.lib.BARE_TUPLE:
            c = TUPLE
        if isinstance(c, Alias):
            if isinstance(c.origin, Special) and c.origin.name in ("Union", "Optional"):
                return any(self.isinstance(v, NONETYPE if x is NONE else x) for x in c.args)
            raise self.exc(TypeError, "isinstance() with a parameterized generic")
        if isinstance(c, Special):
            if c.name == "Any":
                raise self.exc(TypeError, "typing.Any cannot be used with isinstance()")
            raise self.exc(TypeError, "isinstance() arg 2 must be a type")
        if isinstance(c, Sym):
            if c.props.get("isinst") is not None:
                return c.props["isinst"](self, v)
            self.taint("isinstance with an unknown class")
            return self.choose(("isinst", vid(v), vid(c)), [True, False])
        if not isinstance(c, Cls):
            raise self.exc(TypeError, "isinstance() arg 2 must be a type")
        if c.flags.get("nocheck"):
            raise self.exc(TypeError, f"{c.name} does not support instance and class checks")
        k = self.class_of(v)
        if k is not None:
            if isinstance(v, Cls) and c.py is None and False:
                pass
            return issub(k, c)
        return self.sym_isinst(v, c)

    def sym_isinst(self, v, c):
        if c is OBJECT:
            return True
        f = self.path.facts
        key = ("isinst", v.sid, c.sid)
        if key in f:
            return f[key]
        pos = f.setdefault(("pos", v.sid), [])
        neg = f.setdefault(("neg", v.sid), [])
        nots = v.props.get("not_classes", ())
        if c is NONETYPE:
            r = self.is_none(v)
            return r
        bound = v.props.get("bound")
        if bound is not None:
            if issub(bound, c):
                f[key] = True
                return True
            if disjoint(bound, c):
                f[key] = False
                return False
        for d in pos:
            if issub(d, c):
                f[key] = True
                return True
            if disjoint(d, c):
                f[key] = False
                return False
        for d in list(neg) + list(nots):
            if issub(c, d):
                f[key] = False
                return False
        r = self.choose(key, [True, False], f"isinstance({v!r}, {c.name})")
        if r and f.get(("none", v.sid)) is True and c is not NONETYPE:
            f[key] = False
            return False
        (pos if r else neg).append(c)
        if r:
            f.setdefault(("none", v.sid), False)
        return r

    def is_none(self, v):
        if isinstance(v, Const):
            return v.v is None
        if isinstance(v, Sym):
            k = self.class_of(v)
            if k is not None:
                return k is NONETYPE
            if v.props.get("notnone") or v.props.get("bound") is not None:
                return False
            r = self.choose(("none", v.sid), [False, True], f"{v!r} is None")
            return r
        return False

    def truth(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, (TupV, ListV, SetV)):
            return bool(v.items)
        if isinstance(v, DictV):
            return bool(v.pairs)
        if isinstance(v, ViewV):
            return bool(v.d.pairs)
        if isinstance(v, NsV):
            return bool(v.ns)
        if isinstance(v, Inst):
            m = self.class_attr(v.cls, "__bool__")
            if m is not None and not (isinstance(m, Builtin) and m.name.startswith("object.")):
                return self.truth(self.call(m, [v], {}))
            m = self.class_attr(v.cls, "__len__")
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            if v.cls.flags.get("int_enum"):
                return self.truth(v.attrs["value"])
            return True
        if isinstance(v, Sym):
            return self.sym_truth(v)
        return True

    def sym_truth(self, v):
        t = v.props.get("truth")
        if t is not None:
            return t
        f = self.path.facts
        if v.items is not None:
            return bool(v.items)
        sh = f.get(("shape", v.sid))
        if sh is not None:
            return sh > 0
        ec = f.get(("eqconst", v.sid))
        if ec is not None:
            return bool(ec.v)
        key = ("truth", v.sid)
        if key in f:
            return f[key]
        k = self.class_of(v)
        if k is NONETYPE:
            return False
        if k is not None and not self.lib.falsy_possible(k):
            return True
        if k is None and f.get(("none", v.sid)) is True:
            return False
        if k is None and v.props.get("bound") is not None and not self.lib.falsy_possible(v.props["bound"]) \
                and not v.props.get("open"):
            return True
        r = self.choose(key, [True, False], f"bool({v!r})")
        if r and k is None:
            f.setdefault(("none", v.sid), False)
        if not r:
            for e in f.get(("neqconst", v.sid), ()):
                pass
        return r

    # ------------------------------------------------------------------------------------------ attributes

    def class_attr(self, cls, name):
        """Raw lookup along the MRO (no binding)."""
        for k in cls.mro:
            if name in k.ns:
                return k.ns[name]
        return None

    def getattr(self, o, name, default=None):
        """Attribute access; `default` (a value) plays the role of getattr()'s third argument."""
        try:
            return self.lib.get_attribute(self, o, name)
        except Raised as r:
            if default is not None and self.raises(r.exc, AttributeError):
                return default
            raise

    def setattr(self, o, name, v):
        return self.lib.set_attribute(self, o, name, v)

    def delattr(self, o, name):
        return self.lib.del_attribute(self, o, name)

    # ------------------------------------------------------------------------------------------ iteration

    def iterate(self, v, bound=None):
        """Python iterator over the elements of a value (raises TypeError of the program if it has none)."""
        return self.lib.iterate(self, v, bound)

    def iter_value(self, v):
        return iter(self.iterate(v))

    def app(self, op, args, cls=None, name=None, **props):
        """The (memoised) result of an uninterpreted pure operation."""
        key = (op,) + tuple(vid(a) if isinstance(a, V) else a for a in args)
        r = self.path.memo.get(key)
        if r is None:
            r = Sym(name or f"{op}({', '.join(map(repr, args))})", cls, expr=(op,) + tuple(args), **props)
            self.path.memo[key] = r
        return r


class ClassEnv(Env):
    __slots__ = ("cls_qual", "cls_name")

    def __init__(self, parent, mod):
        super().__init__(parent, "class", mod)


def ClassSkip(env):
    """Functions defined in a class body do not see the class namespace (but keep it for name mangling)."""
    return env


class PathResult:
    kind = None
    value = None
    loc = None
    path = None


class AnchorMissing(Exception):
    pass
