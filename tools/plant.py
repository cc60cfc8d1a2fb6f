"""Build and confirm planted bugs: python3 -B tools/plant.py bugs.py [ID...]   (development only; no check uses it)

bugs.py defines BUGS = {name: dict(property, file, old, new, needs, breaks, demo)}.  Every bug is applied to a scratch
copy of /repo; it is kept under seeded/<name>/ if the tests pass with it and the demo fails with it and passes without."""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "databind/src/databind/"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, cwd, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def tests(root):
    e = dict(ENV, PYTHONPATH=root + "/databind/src", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0")
    r = sh([PY, "-m", "pytest", "src/", "-q", "-p", "no:cacheprovider", "-x"], root + "/databind", e)
    return r.returncode == 0, r.stdout[-1500:]


BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:] or list(bugs)
    for name in want:
        b = bugs[name]
        tmp = tempfile.mkdtemp(prefix="plant")
        root = tmp + "/repo"
        try:
            shutil.copytree("/repo", root, symlinks=True)
            edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
            bad = None
            for f, old, new in edits:
                p = f"{root}/{SRC}{f}"
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"{s.count(old)} matches in {f} of {old[:60]!r}"
                    break
                base = sh(["git", "show", f"{BASE}:{SRC}{f}"], "/repo").stdout.splitlines()
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(f"{name}: {bad}"); continue
            diff = sh(["git", "diff"], root).stdout
            minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not any(l.strip() and l in base for l in minus):
                print(f"{name}: changes no original line: {minus}"); continue
            ok, out = tests(root)
            if not ok:
                print(f"{name}: TESTS FAIL\n{out}"); continue
            d = f"{tmp}/demo"; os.mkdir(d)
            open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 if the behaviour is right\n'
                'export PYTHONPATH="$PWD/databind/src" PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            g = sh(["bash", d + "/demo.sh"], "/repo"); w = sh(["bash", d + "/demo.sh"], root)
            if g.returncode != 0:
                print(f"{name}: demo fails on good tree\n{g.stderr[-800:]}"); continue
            if w.returncode == 0:
                print(f"{name}: demo passes with the bug"); continue
            out = f"{VERIF}/seeded/{name}"
            shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            e = dict(ENV, SA_REPO=root)
            caught = []
            for pid in ([b["property"]] + (b.get("also") or [])):
                r = sh(["python3", "-B", "-m", "sa.check", pid], VERIF, e, 900)
                if r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout:
                    caught.append(pid)
                elif r.returncode not in (0, 1):
                    print(r.stdout[-300:], r.stderr[-600:])
            print(f"{name}: kept; {'CAUGHT by ' + ','.join(caught) if caught else 'MISSED'}  [{w.stderr.strip().splitlines()[-1][:100] if w.stderr.strip() else ''}]", flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
