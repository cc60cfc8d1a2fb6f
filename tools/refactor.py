"""Behaviour-preserving rewrites of the whole repository (development only; no check uses it).

  python3 -B tools/refactor.py [NAME...]    applies each rewrite to a scratch copy, runs the repository's tests there and
                                            then every check, which must stay quiet and decide as many paths as before
"""
import ast, copy, glob, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "databind/src/databind/"


class T(ast.NodeTransformer):
    n = 0

    def __init__(self):
        self.k = 0

    def fresh(self, p="tmp"):
        self.k += 1
        return f"_{p}{self.k}"


def expr(s, **kw):
    e = ast.parse(s, mode="eval").body
    return Fill(kw).visit(e)


def stmts(s, **kw):
    b = ast.parse(s).body
    return [Fill(kw).visit(x) for x in b]


class Fill(ast.NodeTransformer):
    def __init__(self, kw):
        self.kw = kw

    def visit_Name(self, n):
        return self.kw.get(n.id, n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Name) and isinstance(self.kw.get(n.value.id), list):
            return self.kw[n.value.id]
        return self.generic_visit(n)


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def own(n, *kinds):
    """walk without nested functions"""
    todo = list(ast.iter_child_nodes(n)) if not isinstance(n, list) else list(n)
    while todo:
        x = todo.pop()
        if isinstance(x, kinds):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))
    return False


# ---------------------------------------------------------------------------------------------- expressions

class IsInstanceSplit(T):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "issubclass") and isinstance(n.args[1], ast.Tuple) and len(n.args[1].elts) > 1 and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], e], []) for e in n.args[1].elts])
        return n


class DeMorgan(T):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp):
            o = ast.Or() if isinstance(n.operand.op, ast.And) else ast.And()
            return ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.operand.values])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Yoda(T):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        f = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0])) if len(n.ops) == 1 else None
        return ast.Compare(n.comparators[0], [f()], [n.left]) if f else n


class NotCompare(T):
    def visit_Compare(self, n):
        self.generic_visit(n)
        f = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(n.ops[0])) if len(n.ops) == 1 else None
        return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [f()], n.comparators)) if f else n


class IfExpSwap(T):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class FStringFormat(T):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        s, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None:
                    return n
                s += "{" + {-1: "", 114: "!r", 115: "!s", 97: "!a"}[v.conversion] + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])


class FStringPercent(T):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        s, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("%", "%%")
            else:
                if v.format_spec is not None:
                    return n
                s += {-1: "%s", 114: "%r", 115: "%s", 97: "%a"}[v.conversion]
                args.append(v.value)
        return ast.BinOp(ast.Constant(s), ast.Mod(), ast.Tuple(args, ast.Load())) if args else ast.Constant(s)


class FStringJoin(T):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                if v.format_spec is not None:
                    return n
                parts.append(expr("repr(x)" if v.conversion == 114 else "str(x)", x=v.value))
        return expr("''.join(x)", x=ast.List(parts, ast.Load()))


class CompToCall(T):
    """[f(x) for x in y] -> list(f(x) for x in y), {k: v for ...} -> dict((k, v) for ...)"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return expr("list(g)", g=ast.GeneratorExp(n.elt, n.generators))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return expr("dict(g)", g=ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return expr("set(g)", g=ast.GeneratorExp(n.elt, n.generators))


class LiteralCalls(T):
    def visit_List(self, n):
        self.generic_visit(n)
        return expr("list()") if not n.elts and isinstance(n.ctx, ast.Load) else n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            return ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n

    def visit_Tuple(self, n):
        self.generic_visit(n)
        return expr("tuple()") if not n.elts and isinstance(n.ctx, ast.Load) else n


class OrToIf(T):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Or) and len(n.values) == 2 and isinstance(n.values[0], (ast.Name, ast.Attribute)):
            return ast.IfExp(n.values[0], n.values[0], n.values[1])
        if isinstance(n.op, ast.And) and len(n.values) == 2 and isinstance(n.values[0], (ast.Name, ast.Attribute)):
            return ast.IfExp(n.values[0], n.values[1], n.values[0])
        return n


class Ternary(T):
    """if/else with one assignment or return each -> conditional expression"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == len(n.orelse) == 1:
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
                return ast.Return(ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.unparse(a.targets) == ast.unparse(b.targets) if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == len(b.targets) == 1 and ast.unparse(a.targets[0]) == ast.unparse(b.targets[0]) else False:
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
        return n


class TernaryToIf(T):
    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(n.targets, n.value.orelse)])
        return n


class ReturnVar(T):
    """return e -> result = e; return result"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        v = self.fresh("ret")
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]

    def visit_Lambda(self, n):
        return n


class RaiseVar(T):
    def visit_Raise(self, n):
        if n.exc is None or isinstance(n.exc, ast.Name):
            return n
        v = self.fresh("exc")
        return [ast.Assign([ast.Name(v, ast.Store())], n.exc), ast.Raise(ast.Name(v, ast.Load()), n.cause)]


class ElseAfterReturn(T):
    """if c: …return / raise; rest   ->  if c: … else: rest"""
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and body[i + 1:]:
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class NoElse(T):
    """if c: …return  else: rest -> if c: …return; rest"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            o, n.orelse = n.orelse, []
            return [n] + o
        return n


class InvertIf(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class NestAnd(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return n


class CondVar(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if "TYPE_CHECKING" in ast.unparse(n.test):
            return n
        v = self.fresh("cond")
        n2 = ast.If(ast.Name(v, ast.Load()), n.body, n.orelse)
        return [ast.Assign([ast.Name(v, ast.Store())], n.test), n2]


class WalrusIf(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if "TYPE_CHECKING" in ast.unparse(n.test):
            return n
        v = self.fresh("w")
        n.test = ast.NamedExpr(ast.Name(v, ast.Store()), n.test)
        return n


class ForWhile(T):
    """for x in it: … -> iterator protocol by hand"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it, end = self.fresh("it"), self.fresh("end")
        item = self.fresh("item")
        return stmts(f"{it} = iter(S)\n{end} = object()\nwhile True:\n    {item} = next({it}, {end})\n    if {item} is {end}:\n        break\n    T0 = {item}\n    B", S=n.iter, T0=n.target, B=n.body) if False else \
            [ast.Assign([ast.Name(it, ast.Store())], expr("iter(S)", S=n.iter)),
             ast.Assign([ast.Name(end, ast.Store())], expr("object()")),
             ast.While(ast.Constant(True), [
                 ast.Assign([ast.Name(item, ast.Store())], expr(f"next({it}, {end})")),
                 ast.If(expr(f"{item} is {end}"), [ast.Break()], []),
                 ast.Assign([n.target], ast.Name(item, ast.Load()))] + n.body, [])]


class ForTryNext(T):
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it, item = self.fresh("it"), self.fresh("item")
        return [ast.Assign([ast.Name(it, ast.Store())], expr("iter(S)", S=n.iter)),
                ast.While(ast.Constant(True), [
                    ast.Try([ast.Assign([ast.Name(item, ast.Store())], expr(f"next({it})"))],
                            [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], []),
                    ast.Assign([n.target], ast.Name(item, ast.Load()))] + n.body, [])]


class ForEnumerate(T):
    def visit_For(self, n):
        self.generic_visit(n)
        v = self.fresh("i")
        n.iter = expr("enumerate(S)", S=n.iter)
        n.target = ast.Tuple([ast.Name(v, ast.Store()), n.target], ast.Store())
        return n


class CompLoop(T):
    """statement-level comprehensions -> loops"""
    def unroll(self, n, e):
        v = self.fresh("acc")
        kinds = {ast.ListComp: ("[]", "append"), ast.SetComp: ("set()", "add")}
        if isinstance(e, ast.DictComp):
            init, inner = expr("{}"), ast.Assign([ast.Subscript(ast.Name(v, ast.Load()), e.key, ast.Store())], e.value)
        else:
            i, m = kinds[type(e)]
            init, inner = expr(i), ast.Expr(expr(f"{v}.{m}(X)", X=e.elt))
        b = [inner]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            b = [ast.For(g.target, g.iter, b, [])]
        return [ast.Assign([ast.Name(v, ast.Store())], init)] + b, ast.Name(v, ast.Load())

    def visit_Return(self, n):
        if isinstance(n.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
            s, e = self.unroll(n, n.value)
            return s + [ast.Return(e)]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, (ast.ListComp, ast.DictComp, ast.SetComp)) and isinstance(n.targets[0], ast.Name):
            s, e = self.unroll(n, n.value)
            return s + [ast.Assign(n.targets, e)]
        return n


class YieldList(T):
    """generator functions -> collect then return iter (not lazily; only those that are plain loops)"""


class ExtractBody(T):
    """every method/function body moves to a helper the original calls"""
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.name.startswith("__") and not s.decorator_list and not has(s, ast.Yield, ast.YieldFrom) and s.args.args and s.args.args[0].arg == "self" \
                    and "super" not in ast.unparse(s):
                h = copy.deepcopy(s)
                h.name = "_do_" + s.name
                a = s.args
                call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]], [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs])
                if a.vararg:
                    call.args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
                if a.kwarg:
                    call.keywords.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
                s.body = [ast.Return(call)]
                out += [s, h]
            else:
                out.append(s)
        n.body = out
        return n


class ExtractModuleFn(T):
    """every method body moves to a module-level function that takes self"""
    def visit_Module(self, m):
        new = []
        for n in m.body:
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.FunctionDef) and not s.name.startswith("__") and not s.decorator_list and s.args.args and s.args.args[0].arg == "self" \
                            and "super" not in ast.unparse(s) and "self.__" not in ast.unparse(s) and not has(s, ast.Yield, ast.YieldFrom):
                        h = copy.deepcopy(s)
                        h.name = f"_{n.name}_{s.name}"
                        h.returns = None
                        for x in h.args.args + h.args.kwonlyargs:
                            x.annotation = None
                        a = s.args
                        call = ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args], [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs])
                        if a.vararg or a.kwarg:
                            continue
                        if any(isinstance(x, ast.Name) and x.id in {y.name for y in n.body if isinstance(y, (ast.FunctionDef, ast.ClassDef))} for d in a.defaults for x in ast.walk(d)):
                            continue
                        h.args.defaults = [d if isinstance(d, ast.Constant) else ast.Constant(None) for d in h.args.defaults]
                        s.body = [ast.Return(call)]
                        new.append(h)
        m.body += new
        return m


class RenameLocals(T):
    def visit_FunctionDef(self, n):
        if has(n, ast.Global, ast.Nonlocal):
            return n
        body = ast.Module(n.body, [])
        params = {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
        stored = {x.id for x in ast.walk(body) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        stored -= {(a.asname or a.name).split(".")[0] for x in ast.walk(body) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        stored -= {y.id for x in ast.walk(body) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        for x in ast.walk(body):
            if isinstance(x, ast.Name) and x.id in stored:
                x.id = x.id + "_v"
            if isinstance(x, ast.ExceptHandler) and x.name and x.name in stored:
                x.name += "_v"
        return n


class ArgVars(T):
    """f(g(x), h(y)) as a statement/return -> temporaries for every non-trivial argument"""
    def hoist(self, call):
        pre = []
        if not isinstance(call, ast.Call) or isinstance(call.func, ast.Call) or has(call, ast.Lambda, ast.GeneratorExp, ast.Await, ast.NamedExpr):
            return pre
        if isinstance(call.func, ast.Attribute) and not isinstance(call.func.value, (ast.Name, ast.Attribute)):
            return pre
        if isinstance(call.func, ast.Name) and call.func.id == "super":
            return pre
        for i, a in enumerate(call.args):
            if isinstance(a, (ast.Call, ast.Subscript, ast.BinOp, ast.JoinedStr)):
                v = self.fresh("a")
                pre.append(ast.Assign([ast.Name(v, ast.Store())], a))
                call.args[i] = ast.Name(v, ast.Load())
            elif isinstance(a, (ast.Starred,)):
                break
        return pre

    def visit_Return(self, n):
        return self.hoist(n.value) + [n] if n.value is not None else n

    def visit_Expr(self, n):
        return self.hoist(n.value) + [n]

    def visit_Raise(self, n):
        return self.hoist(n.exc) + [n] if n.exc is not None else n

    def visit_Assign(self, n):
        return self.hoist(n.value) + [n]

    def visit_Lambda(self, n):
        return n


class PosToKw(T):
    """ctx.spawn(value, datatype, key) and friends with keyword arguments"""
    SIG = {"spawn": ["value", "datatype", "key"], "expected": ["origin", "ctx", "types"], "ConversionError": ["origin", "context", "message", "errors"],
           "get_setting": ["setting_type"], "get_annotation_setting": ["hint", "setting_type"] if False else None, "Location": ["key"] if False else None}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        sig = self.SIG.get(nm)
        if sig and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(sig):
            n.keywords = [ast.keyword(k, a) for k, a in zip(sig, n.args)] + n.keywords
            n.args = []
        return n


class TryElse(T):
    """try: return f() except…  -> try: r = f() except… else: return r"""
    def visit_Try(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Return) and n.body[0].value is not None and not n.orelse and not n.finalbody:
            v = self.fresh("r")
            e = n.body[0].value
            n.body = [ast.Assign([ast.Name(v, ast.Store())], e)]
            n.orelse = [ast.Return(ast.Name(v, ast.Load()))]
        return n


class DictGet(T):
    """x[k] if k in x style left alone; a.get(k) -> a[k] if k in a else None for plain names"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and isinstance(n.func.value, ast.Name) and len(n.args) in (1, 2) and isinstance(n.args[0], (ast.Name, ast.Constant)) and not n.keywords:
            d = n.args[1] if len(n.args) == 2 else ast.Constant(None)
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(n.func.value, n.args[0], ast.Load()), d)
        return n


class Match(T):
    """if isinstance chains -> match with guards"""
    def visit_If(self, n):
        chain, cur = [], n
        while True:
            chain.append((cur.test, cur.body))
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
            else:
                break
        rest = cur.orelse
        if len(chain) < 2:
            return self.generic_visit(n)
        cs = []
        for t, b in chain:
            b2 = []
            for s in b:
                r = self.visit(s)
                b2 += r if isinstance(r, list) else [r]
            cs.append(ast.match_case(ast.MatchAs(), t, b2))
        if rest:
            b2 = []
            for s in rest:
                r = self.visit(s)
                b2 += r if isinstance(r, list) else [r]
            cs.append(ast.match_case(ast.MatchAs(), None, b2))
        return ast.Match(ast.Constant(None), cs)


class LambdaDef(T):
    """lambda in a statement -> local def"""
    def visit_Return(self, n):
        return self.go(n)

    def visit_Assign(self, n):
        return self.go(n)

    def visit_Expr(self, n):
        return self.go(n)

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    def go(self, n):
        pre = []
        me = self

        class R(ast.NodeTransformer):
            def visit_Lambda(s, l):
                v = me.fresh("fn")
                pre.append(ast.FunctionDef(v, l.args, [ast.Return(l.body)], [], None, None, type_params=[]))
                return ast.Name(v, ast.Load())

            def visit_ListComp(s, l):
                return l
            visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_ListComp
        n = R().visit(n)
        return pre + [n]


class LocalAlias(T):
    """self.x read repeatedly -> attributes of `ctx` bound to a local first"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any(a.arg == "ctx" for a in n.args.args) and not n.decorator_list:
            if not any(isinstance(x, (ast.Attribute,)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "ctx" for x in ast.walk(n)) \
                    and not any(isinstance(x, ast.Name) and x.id == "ctx" and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                used = sorted({x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "ctx" and x.attr in ("value", "datatype", "direction", "location")})
                doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []

                class R(ast.NodeTransformer):
                    def visit_Attribute(s, a):
                        s.generic_visit(a)
                        if isinstance(a.value, ast.Name) and a.value.id == "ctx" and a.attr in used:
                            return ast.Name("ctx_" + a.attr, ast.Load())
                        return a
                body = [R().visit(x) for x in n.body[len(doc):]]
                n.body = doc + [ast.Assign([ast.Name("ctx_" + u, ast.Store())], expr(f"ctx.{u}")) for u in used] + body
        return n


class YieldFromLoop(T):
    def visit_Expr(self, n):
        if isinstance(n.value, ast.YieldFrom):
            v = self.fresh("y")
            return ast.For(ast.Name(v, ast.Store()), n.value.value, [ast.Expr(ast.Yield(ast.Name(v, ast.Load())))], [])
        return n


class AugExpand(T):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class AssertRaise(T):
    def visit_Assert(self, n):
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Raise(ast.Call(ast.Name("AssertionError", ast.Load()), [n.msg] if n.msg else [], []), None)], [])


class GenToList(T):
    """generator expression arguments -> list comprehensions (any/all/next excepted)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "next", "chain"):
            return n
        n.args = [ast.ListComp(a.elt, a.generators) if isinstance(a, ast.GeneratorExp) else a for a in n.args]
        return n


class AnyLoop(T):
    """x = any(...) / if any(...) -> loop in a local function"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and isinstance(n.args[0], ast.GeneratorExp) and n.func.id == "any":
            g = n.args[0]
            return expr("len(X) > 0", X=ast.ListComp(ast.Constant(True), [*g.generators[:-1], ast.comprehension(g.generators[-1].target, g.generators[-1].iter, g.generators[-1].ifs + [g.elt], 0)]))
        return n


class UnpackIndex(T):
    """for k, v in d.items() -> for k in d: v = d[k]  (d a plain name)"""
    def visit_For(self, n):
        self.generic_visit(n)
        i = n.iter
        if isinstance(i, ast.Call) and isinstance(i.func, ast.Attribute) and i.func.attr == "items" and isinstance(i.func.value, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2:
            v = self.fresh("pair")
            n.target, (k, val) = ast.Name(v, ast.Store()), n.target.elts
            n.body = [ast.Assign([k], expr(f"{v}[0]")), ast.Assign([val], expr(f"{v}[1]"))] + n.body
        return n


class IsNoneTruthyType(T):
    """type(x) is Y -> x.__class__ is Y is *not* the same for proxies; leave: type(x) -> type(x) via variable"""


class HelperPredicates(T):
    """isinstance(ctx.datatype, X) -> module-level predicate function"""
    def visit_Module(self, m):
        self.used = False
        self.generic_visit(m)
        if self.used:
            i = next((k for k, s in enumerate(m.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(m.body))
            m.body[i:i] = stmts("def _is_a(value, *classes):\n    for cls in classes:\n        if isinstance(value, cls):\n            return True\n    return False\n")
        return m

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance":
            self.used = True
            c = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
            return ast.Call(ast.Name("_is_a", ast.Load()), [n.args[0]] + c, [])
        return n


class PartialCalls(T):
    """ConversionError.expected(self, ctx, X) -> staticmethod reference in a local"""
    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call) and isinstance(n.exc.func, ast.Attribute) and n.exc.func.attr == "expected":
            v = self.fresh("mk")
            f = n.exc.func
            n.exc.func = ast.Name(v, ast.Load())
            return [ast.Assign([ast.Name(v, ast.Store())], f), n]
        return n


class FinallyWith(T):
    pass


class SetOps(T):
    """x - y on sets -> x.difference(y); x | y -> union only when syntactically set()/keys()"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub) and ("set(" in ast.unparse(n.left) or ".keys()" in ast.unparse(n.left)):
            return expr("set(X).difference(Y)", X=n.left, Y=n.right)
        return n


class StarCalls(T):
    """f(a, b) -> f(*(a, b)) for calls of ctx.spawn"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("spawn",) and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            n.args = [ast.Starred(ast.Tuple(n.args, ast.Load()), ast.Load())]
        return n


class DeadCode(T):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        doc = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        v = self.fresh("unused")
        n.body[doc:doc] = stmts(f"{v} = None\nif False:\n    raise AssertionError('never')\nfor _ in ():\n    pass\ndel {v}\n")
        return n


class ReorderMethods(T):
    def visit_ClassDef(self, n):
        if any(isinstance(s, ast.FunctionDef) and s.decorator_list for s in n.body):
            return n
        m = [s for s in n.body if isinstance(s, ast.FunctionDef)]
        names = {s.name for s in m}
        if any(isinstance(x, ast.Name) and x.id in names for s in n.body if not isinstance(s, ast.FunctionDef) for x in ast.walk(s)):
            return n
        n.body = [s for s in n.body if not isinstance(s, ast.FunctionDef)] + m[::-1]
        return n


class Comprehend(T):
    """x = []; for …: x.append(e) -> comprehension"""
    def blocks(self, body):
        out = []
        i = 0
        while i < len(body):
            a, b = body[i], body[i + 1] if i + 1 < len(body) else None
            tgt = None
            if isinstance(a, (ast.Assign, ast.AnnAssign)) and isinstance(b, ast.For) and not b.orelse and len(b.body) == 1:
                t0 = a.targets[0] if isinstance(a, ast.Assign) else a.target
                s = b.body[0]
                conds = []
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                    conds, s = [s.test], s.body[0]
                if isinstance(t0, ast.Name) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == t0.id + ".append":
                    out.append(ast.Assign([ast.Name(t0.id, ast.Store())], ast.ListComp(s.value.args[0], [ast.comprehension(b.target, b.iter, conds, 0)])))
                    i += 2
                    continue
                if isinstance(t0, ast.Name) and isinstance(a.value, ast.Dict) and not a.value.keys and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and ast.unparse(s.targets[0].value) == t0.id and t0.id not in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}:
                    out.append(ast.Assign([ast.Name(t0.id, ast.Store())], ast.DictComp(s.targets[0].slice, s.value, [ast.comprehension(b.target, b.iter, conds, 0)])))
                    i += 2
                    continue
            out.append(a)
            i += 1
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.ClassDef, ast.Module)):
                setattr(n, f, self.blocks(b))
        return n


BASE = {ast.NodeTransformer, T}
ALL = {c.__name__: c for c in list(globals().values()) if isinstance(c, type) and issubclass(c, T) and c is not T and len(c.__dict__) > 2}


class Inlined(T):
    pass


def apply(names, root):
    for p in glob.glob(f"{root}/{SRC}**/*.py", recursive=True):
        if "/tests/" in p:
            continue
        src = open(p).read()
        for n in names:
            t = ast.fix_missing_locations(ALL[n]().visit(ast.parse(src)))
            src = ast.unparse(t) + "\n"
        open(p, "w").write(src)


def main():
    names = sys.argv[1:] or list(ALL)
    base = {}
    for name in names:
        root = tempfile.mkdtemp(prefix="rf") + "/repo"
        shutil.copytree("/repo", root, symlinks=True)
        try:
            apply(name.split("+"), root)
            d = subprocess.run(["git", "diff", "--stat"], cwd=root, capture_output=True, text=True).stdout.splitlines()
            e = dict(os.environ, PYTHONPATH=root + "/databind/src", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0")
            q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "src/", "-q", "-x", "-p", "no:cacheprovider"], cwd=root + "/databind", env=e, capture_output=True, text=True, timeout=120)
            if q.returncode:
                print(f"{name}: TESTS FAIL {q.stdout[-600:]}")
                continue
            bad = []
            for rule in sorted(glob.glob(VERIF + "/sa/rules/c[0-9]*.py")):
                pid = os.path.basename(rule)[:3].upper()
                if os.environ.get("RF_ONLY") and pid not in os.environ["RF_ONLY"].split():
                    continue
                r = subprocess.run([sys.executable, "-B", "-m", "sa.check", pid], cwd=VERIF, env=dict(os.environ, SA_REPO=root, SA_VERBOSE=""), capture_output=True, text=True, timeout=900)
                u = re.search(r"(\d+) paths undecided", r.stdout)
                u = int(u.group(1)) if u else -1
                if r.returncode or u > {"C22": 2, "C24": 8}.get(pid, 0):
                    bad.append((pid, r.returncode, u, (r.stdout + r.stderr)[:700]))
            print(f"{name}: {d[-1] if d else 'NO CHANGE'}: " + ("quiet" if not bad else ""), flush=True)
            for b in bad:
                print("   ", b[0], "rc", b[1], "undecided", b[2], "\n       ", b[3].replace("\n", "\n        "), flush=True)
        finally:
            shutil.rmtree(os.path.dirname(root), ignore_errors=True)


if __name__ == "__main__":
    main()
