"""Run the checks of the planted bugs' own properties (or ALL) against scratch copies; writes /tmp/caught.json."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
full = "--all" in sys.argv
names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
ids = [f"C{i:02}" for i in range(1, 34)]
out = json.load(open("/tmp/caught.json")) if os.path.exists("/tmp/caught.json") else {}
for n in names:
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="pl"); root = tmp + "/repo"
    shutil.copytree("/repo", root, symlinks=True)
    r = subprocess.run(["git", "apply", f"{V}/seeded/{n}/patch.diff"], cwd=root, capture_output=True, text=True)
    if r.returncode:
        print(n, "DOES NOT APPLY", r.stderr); continue
    got = []
    for pid in (ids if full else [m["property"]]):
        r = subprocess.run(["python3", "-B", "-m", "sa.check", pid], cwd=V, env=dict(os.environ, SA_REPO=root), capture_output=True, text=True)
        if r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout: got.append(pid)
        elif r.returncode not in (0, 1): print(n, pid, "exit", r.returncode, r.stdout[-200:], r.stderr[-300:])
    shutil.rmtree(tmp)
    out[n] = got
    print(n, m["property"], "caught by", got or "NOTHING", flush=True)
    json.dump(out, open("/tmp/caught.json", "w"))
