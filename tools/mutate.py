"""Systematic mutation of the repository (development only; no check uses it).

  python3 -B tools/mutate.py gen            /tmp/mu/mutants.json: every mutant of the operators below
  python3 -B tools/mutate.py tests          keeps those the repository's own tests pass with -> /tmp/mu/alive.json
  python3 -B tools/mutate.py index          which scenario reaches which line -> /tmp/mu/index.json
  python3 -B tools/mutate.py check [SUB]    runs the scenarios that reach the mutated line -> /tmp/mu/result.json
"""
import ast, copy, glob, json, multiprocessing as mp, os, random, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
OUT = "/tmp/mu/"
SRC = "databind/src/databind/"
FILES = [f[len("/repo/"):] for f in sorted(glob.glob("/repo/" + SRC + "**/*.py", recursive=True)) if "/tests/" not in f]
SWAP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
        ast.GtE: [ast.Gt, ast.Lt], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq], ast.In: [ast.NotIn],
        ast.NotIn: [ast.In], ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
WRAP = {"list", "tuple", "dict", "set", "sorted", "reversed", "str", "copy", "deepcopy", "iter", "frozenset", "int", "float", "bool", "type", "enumerate", "repr"}


def sub(src, node, text):
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    a, z = off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset
    return (b[:a] + text.encode() + b[z:]).decode()


def expr_variants(n):
    """(description, new expression) for an expression node"""
    C = copy.deepcopy
    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for w in SWAP.get(type(o), []):
                m = C(n); m.ops[i] = w(); yield type(o).__name__ + "->" + w.__name__, m
        yield "cond True", ast.Constant(True)
        yield "cond False", ast.Constant(False)
    elif isinstance(n, ast.BoolOp):
        m = C(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield "and<->or", m
        for i in range(len(n.values)):
            v = [x for j, x in enumerate(n.values) if j != i]
            yield f"drop operand {i}", v[0] if len(v) == 1 else ast.BoolOp(n.op, v)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield "drop not", n.operand
    elif isinstance(n, ast.BinOp):
        for w in SWAP.get(type(n.op), []):
            m = C(n); m.op = w(); yield "binop", m
        yield "left only", n.left
        yield "right only", n.right
    elif isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            yield "flip", ast.Constant(not v)
        elif v is None:
            yield "None->0", ast.Constant(0)
        elif isinstance(v, int):
            yield "n+1", ast.Constant(v + 1)
            if v: yield "n-1", ast.Constant(v - 1)
        elif isinstance(v, str) and v:
            yield "str", ast.Constant(v + "x")
    elif isinstance(n, ast.IfExp):
        yield "then", n.body
        yield "else", n.orelse
    elif isinstance(n, ast.Call):
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if nm in WRAP and n.args:
            yield f"unwrap {nm}", n.args[0]
        if nm in ("isinstance", "issubclass"):
            yield "True", ast.Constant(True)
            yield "False", ast.Constant(False)
            if isinstance(n.args[1], ast.Tuple):
                for i in range(len(n.args[1].elts)):
                    m = C(n); del m.args[1].elts[i]; yield f"drop class {i}", m
            if nm == "isinstance":
                yield "exact type", ast.parse(f"type({ast.unparse(n.args[0])}) in ({ast.unparse(n.args[1])},)" if not isinstance(n.args[1], ast.Tuple) else f"type({ast.unparse(n.args[0])}) in {ast.unparse(n.args[1])}", mode="eval").body
        for i in range(len(n.keywords)):
            m = C(n); del m.keywords[i]; yield f"drop kw {n.keywords[i].arg}", m
        if len(n.args) >= 2:
            for i in range(len(n.args)):
                m = C(n); del m.args[i]; yield f"drop arg {i}", m
            for i in range(len(n.args) - 1):
                m = C(n); m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]; yield f"swap args {i}", m
        if isinstance(f, ast.Attribute):
            yield "receiver only", f.value
            if nm in ("copy", "items", "keys", "values", "strip", "lower"): pass
            if nm == "get" and len(n.args) == 1:
                yield "get->[]", ast.Subscript(f.value, n.args[0])
            if nm == "items": pass
            if nm == "append":
                m = C(n); m.func.attr = "insert"; m.args = [ast.Constant(0)] + m.args; yield "append->insert 0", m
            if nm == "insert" and len(n.args) == 2:
                m = C(n); m.func.attr = "append"; m.args = m.args[1:]; yield "insert->append", m
        if nm in ("any", "all"):
            m = C(n); m.func.id = "all" if nm == "any" else "any"; yield "any<->all", m
    elif isinstance(n, ast.Subscript):
        if isinstance(n.slice, ast.Slice):
            yield "drop slice", n.value
    elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        for gi, g in enumerate(n.generators):
            for i in range(len(g.ifs)):
                m = C(n); del m.generators[gi].ifs[i]; yield "drop if", m
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        alt = {"SERIALIZE": "DESERIALIZE", "DESERIALIZE": "SERIALIZE", "Any": None, "NESTED": "FLAT", "FLAT": "NESTED", "KEYED": "NESTED", "BEST_MATCH": "NESTED",
               "key": "name", "parent": "root", "location": "settings", "datatype": "value", "settings": "location", "alias": "aliases", "priority": "name"}.get(n.attr)
        if alt:
            m = C(n); m.attr = alt; yield f".{n.attr}->.{alt}", m
    elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
        for i in range(len(n.elts)):
            m = C(n); del m.elts[i]; yield f"drop element {i}", m
    elif isinstance(n, ast.Dict):
        for i in range(len(n.keys)):
            m = C(n); del m.keys[i]; del m.values[i]; yield f"drop entry {i}", m
    elif isinstance(n, ast.Lambda):
        pass
    elif isinstance(n, ast.Starred):
        pass


def stmt_variants(n):
    P = ast.Pass()
    if isinstance(n, (ast.Raise, ast.Assert, ast.AugAssign, ast.Delete)):
        yield "delete", P
    elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
        yield "delete", P
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
        yield "delete", P
    elif isinstance(n, ast.Continue):
        yield "continue->break", ast.Break()
        yield "delete", P
    elif isinstance(n, ast.Break):
        yield "break->continue", ast.Continue()
        yield "delete", P
    elif isinstance(n, ast.Return) and n.value is not None:
        yield "return None", ast.Return(None)
    elif isinstance(n, ast.If):
        m = copy.deepcopy(n); m.test = ast.Constant(True); yield "if True", m
        m = copy.deepcopy(n); m.test = ast.Constant(False); yield "if False", m
    elif isinstance(n, ast.For):
        m = copy.deepcopy(n); m.body.append(ast.Break()); yield "first only", m
        m = copy.deepcopy(n); m.iter = ast.parse(f"reversed(list({ast.unparse(n.iter)}))", mode="eval").body; yield "reversed", m
        m = copy.deepcopy(n); m.iter = ast.parse(f"list({ast.unparse(n.iter)})[1:]", mode="eval").body; yield "skip first", m
    elif isinstance(n, ast.Try):
        for i, h in enumerate(n.handlers):
            if isinstance(h.type, ast.Tuple):
                for j in range(len(h.type.elts)):
                    m = copy.deepcopy(n); del m.handlers[i].type.elts[j]; yield f"except narrower {i}.{j}", m
            m = copy.deepcopy(n); m.handlers[i].type = ast.Name("Exception"); yield f"except Exception {i}", m
            if len(n.handlers) > 1:
                m = copy.deepcopy(n); del m.handlers[i]; yield f"drop handler {i}", m
        if n.finalbody:
            m = copy.deepcopy(n); m.body = m.body + m.finalbody; m.finalbody = []
            if m.handlers: yield "no finally", m
            else: yield "no finally", ast.If(ast.Constant(True), m.body, [])
    elif isinstance(n, (ast.FunctionDef,)):
        for i, d in enumerate(n.args.defaults):
            pass
        for i, d in enumerate(n.decorator_list):
            m = copy.deepcopy(n); del m.decorator_list[i]; yield f"drop decorator {i}", m


def gen():
    out = []
    for f in FILES:
        src = open("/repo/" + f).read()
        tree = ast.parse(src)
        skip = set()
        for n in ast.walk(tree):
            # annotations and docstrings are not behaviour the mutation is after
            for a in ("annotation", "returns"):
                x = getattr(n, a, None)
                if isinstance(x, ast.AST) and not isinstance(n, ast.AnnAssign):
                    skip.update(map(id, ast.walk(x)))
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                skip.add(id(n.value))
            if isinstance(n, ast.JoinedStr):
                skip.update(map(id, ast.walk(n)))
            if isinstance(n, ast.If) and ast.unparse(n.test).endswith("TYPE_CHECKING"):
                skip.update(map(id, ast.walk(n)))
        for n in ast.walk(tree):
            if id(n) in skip:
                continue
            if isinstance(n, ast.expr):
                vs = expr_variants(n)
            elif isinstance(n, ast.stmt):
                vs = stmt_variants(n)
            else:
                continue
            for d, m in vs:
                try:
                    if isinstance(n, ast.expr):
                        t = "(" + ast.unparse(ast.fix_missing_locations(m)) + ")"
                    else:
                        t = ast.unparse(ast.fix_missing_locations(m)).replace("\n", "\n" + " " * n.col_offset)
                        if isinstance(n, ast.FunctionDef) and n.decorator_list:
                            n2 = copy.copy(n); n2.lineno = n.decorator_list[0].lineno; n2.col_offset = n.decorator_list[0].col_offset - 1
                            s2 = sub(src, n2, t)
                            ast.parse(s2)
                            out.append({"file": f, "line": n.lineno, "end": n.end_lineno, "what": d, "old": "", "new": "", "src": s2})
                            continue
                    s2 = sub(src, n, t)
                    ast.parse(s2)
                except Exception:
                    continue
                # elif chains: replacing an `elif` statement node would break the syntax; those were skipped above
                out.append({"file": f, "line": n.lineno, "end": n.end_lineno, "what": d,
                            "old": ast.get_source_segment(src, n)[:160], "new": t[:160], "src": s2})
    for i, m in enumerate(out):
        m["id"] = i
    json.dump(out, open(OUT + "mutants.json", "w"))
    print(len(out), "mutants")


_root = None


def scratch():
    global _root
    if _root is None:
        _root = tempfile.mkdtemp(prefix="mu")
        os.rmdir(_root)
        shutil.copytree("/repo", _root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    return _root


def test_one(m):
    r = scratch()
    p = f"{r}/{m['file']}"
    good = open("/repo/" + m["file"]).read()
    open(p, "w").write(m["src"])
    try:
        e = dict(os.environ, PYTHONPATH=r + "/databind/src", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0")
        try:
            q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "src/", "-q", "-x", "-p", "no:cacheprovider"], cwd=r + "/databind",
                               env=e, capture_output=True, timeout=60)
            return m["id"], q.returncode == 0
        except subprocess.TimeoutExpired:
            return m["id"], False
    finally:
        open(p, "w").write(good)


def tests():
    ms = json.load(open(OUT + "mutants.json"))
    with mp.Pool(8) as pool:
        ok = [i for i, a in pool.imap_unordered(test_one, ms, 4) if a]
    alive = [ms[i] for i in sorted(ok)]
    json.dump(alive, open(OUT + "alive.json", "w"))
    print(len(alive), "pass the tests")


def pids():
    return [os.path.basename(p)[:3].upper() for p in sorted(glob.glob(VERIF + "/sa/rules/c[0-9]*.py"))]


_cases = None


def all_cases():
    global _cases
    if _cases is None:
        from sa import rules
        _cases = {p: list(rules.load(p).cases()) for p in pids()}
    return _cases


_w = None


def idx_one(job):
    global _w
    from sa.world import World
    pid, i = job
    if _w is None:
        _w = World("/repo")
    t = time.time()
    r = _w.run(all_cases()[pid][i])
    return pid, i, [f"{a}:{b}" for a, b in r["lines"]], time.time() - t


def index():
    jobs = [(p, i) for p, c in all_cases().items() for i in range(len(c))]
    d = {}
    tm = {}
    with mp.Pool(8) as pool:
        for pid, i, lines, t in pool.imap_unordered(idx_one, jobs, 20):
            tm[f"{pid}#{i}"] = t
            for l in lines:
                d.setdefault(l, []).append(f"{pid}#{i}")
    json.dump({"lines": d, "time": tm}, open(OUT + "index.json", "w"))
    print(len(jobs), "scenarios", len(d), "lines")


_idx = None


def check_one(m, budget=float(os.environ.get("MU_BUDGET", "150"))):
    global _idx
    from sa.world import World
    from sa import rules
    from sa.interp import AnchorMissing
    if _idx is None:
        _idx = json.load(open(OUT + "index.json"))
    r = scratch()
    p = f"{r}/{m['file']}"
    good = open("/repo/" + m["file"]).read()
    open(p, "w").write(m["src"])
    t0 = time.time()
    res = {"id": m["id"], "by": None, "n": 0}
    try:
        try:
            w = World(r)
        except AnchorMissing as e:
            res["by"] = f"anchor {e}"
            return res
        lines = []
        jobs = []
        for n in range(m["line"], m["end"] + 1):
            jobs += _idx["lines"].get(f"{m['file']}:{n}", [])
        # evaluated at import (class bodies, module level): everything reaches it
        if not jobs:
            jobs = list(_idx["time"])
        jobs = sorted(set(jobs))
        rnd = random.Random(m["id"])
        rnd.shuffle(jobs)
        # a first round with a few scenarios of every property, then the rest
        seen = {}
        jobs.sort(key=lambda j: (seen.setdefault(j[:3], []).append(1) or len(seen[j[:3]]) > 12, _idx["time"].get(j, 0) > .5))
        res["total"] = len(jobs)
        for j in jobs:
            pid, i = j.split("#")
            try:
                q = w.run(all_cases()[pid][int(i)])
            except AnchorMissing as e:
                res["by"] = f"{pid} anchor {e}"; break
            except Exception as e:
                res["by"] = f"{pid} CRASH {type(e).__name__} {e} in {all_cases()[pid][int(i)].name}"; break
            res["n"] += 1
            res["und"] = res.get("und", 0) + (q["stats"].get("undecided", 0) > 0)
            if q["violations"]:
                res["by"] = f"{pid} [{all_cases()[pid][int(i)].name}] {q['violations'][0]['message'][:120]}"
                break
            if time.time() - t0 > budget:
                res["by"] = None; res["timeout"] = True
                break
        if res["by"] is None:
            for pid in pids():
                mod = rules.load(pid)
                if hasattr(mod, "structural"):
                    try:
                        for s in mod.structural(w):
                            if s["violations"]:
                                res["by"] = f"{pid} structural"
                    except AnchorMissing as e:
                        res["by"] = f"{pid} anchor"
    except BaseException as e:
        res["by"] = None; res["crash"] = f"{type(e).__name__}: {e}"
    finally:
        open(p, "w").write(good)
    res["t"] = time.time() - t0
    return res


def check(subset=None):
    ms = json.load(open(OUT + "alive.json"))
    if subset:
        ms = [m for m in ms if subset in m["file"] or str(m["id"]) in subset.split(",")]
    out = []
    idx = json.load(open(OUT + "index.json"))["lines"]
    reached = lambda m: any(f"{m['file']}:{n}" in idx for n in range(m["line"], m["end"] + 1))
    if os.environ.get("MU_REACHED"):
        ms = [m for m in ms if reached(m)]
    random.Random(1).shuffle(ms)
    all_cases()
    with mp.Pool(int(os.environ.get("MU_PROCS", "8"))) as pool:
        for r in pool.imap_unordered(check_one, ms, 1):
            out.append(r)
            json.dump(out, open(OUT + "result.json", "w"))
    print(len(out), "checked;", sum(r["by"] is None for r in out), "survive")


if __name__ == "__main__":
    {"gen": gen, "tests": tests, "index": index, "check": check}[sys.argv[1]](*sys.argv[2:])
