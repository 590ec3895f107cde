"""tools/mut.py FILE: each line of FILE is a python tuple (name, [properties], [(file, old, new), ...]); every mutant is built in
a scratch copy of /repo's sources and the properties' quick checks run against it. Prints caught / MISSED / build failure."""
import ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(m):
    name, props, edits = m
    T = tempfile.mkdtemp(prefix="mut_")
    try:
        os.makedirs(T + "/repo"); subprocess.run("cp -a /repo/src /repo/build.sh /repo/misc " + T + "/repo/", shell=True, check=True)
        for f, o, n in edits:
            p = T + "/repo/" + f; s = open(p).read()
            if s.count(o) != 1: return f"{name}: EDIT DOES NOT APPLY ({s.count(o)} matches)"
            open(p, "w").write(s.replace(o, n))
        env = dict(os.environ, VF_REPO=T + "/repo", VF_BUILD=T + "/b", VF_EVIDENCE=T + "/e", VF_REPLAYS=T + "/r")
        out = []
        for p in props:
            r = subprocess.run([V + "/check", p, "quick"], env=env, capture_output=True, text=True)
            first = next((l for l in r.stdout.splitlines() if "VIOLATION" not in l and l.strip()), "")
            out.append(f"{p}:{'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'rc%d' % r.returncode} {first[:170] if r.returncode else ''}{r.stderr[-300:] if r.returncode not in (0, 1) else ''}")
        return name + ": " + " ; ".join(out)
    finally:
        shutil.rmtree(T)
ms = ast.literal_eval(open(sys.argv[1]).read())
if len(sys.argv) > 2: ms = [m for m in ms if any(a in m[0] for a in sys.argv[2:])]
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ms): print(r, flush=True)
