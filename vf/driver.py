#!/usr/bin/env python3
"""Builds libnar variants and harnesses from /repo's current working tree, runs the shards of one
property's check, confirms and reports violations, writes evidence/<id>.json.

usage: check <ID> [quick|thorough]        (tier also from VERIF_TIER)
       check <ID> --replay FILE           (re-executes the recorded case)
       check --setup                      (pre-builds everything)
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("VF_REPLAYS", os.path.join(VERIF, "replays"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
NPROC = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from vf.specs import SPECS, VARIANTS

BASE = ["-pthread", "-D_POSIX_C_SOURCE=199506L", "-std=c99", "-w", "-fPIC", "-g1"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf-8", "replace")[-4000:])
    return p.stdout


def sources():
    src = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/NetworkNAR/*.c"))
    return [s for s in src if os.path.basename(s) != "RuleTable.c"]


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for root, dirs, files in os.walk(REPO + "/src"):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h")) and f != "RuleTable.c":
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def parallel(cmds):
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in [ex.submit(run, c) for c in cmds]:
            r.result()


def build_ruletable():
    """Stage 1, as /repo/build.sh: the rule compiler compiled from the tree, its output is the rule table."""
    d = os.path.join(BUILD, "stage1")
    with lock("stage1"):
        key = tree_hash("stage1")
        stamp = os.path.join(d, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key:
            return os.path.join(d, "RuleTable.c"), key
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cmds, objs = [], []
        for s in sources():
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            cmds.append(["gcc", "-O1", "-DSTAGE=1"] + BASE + ["-c", s, "-o", o])
        parallel(cmds)
        exe = os.path.join(d, "NAR1")
        run(["gcc", "-pthread"] + objs + ["-o", exe, "-lpthread", "-lm"])
        out = run([exe, "NAL_GenerateRuleTable"], cwd=d, timeout=120)
        with open(os.path.join(d, "RuleTable.c"), "wb") as f:
            f.write(out)
        open(stamp, "w").write(key)
    return os.path.join(d, "RuleTable.c"), key


def build_variant(name):
    """libnar.so: all of /repo/src except main.c, with reduced capacities / sanitizers as the variant says."""
    v = VARIANTS[name]
    rt, rkey = build_ruletable()
    d = os.path.join(BUILD, "v_" + name)
    with lock("v_" + name):
        key = rkey + json.dumps(v, sort_keys=True)
        stamp = os.path.join(d, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key:
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        # capacities are changed by re-defining the macros of Config.h after including it
        with open(os.path.join(d, "vfcfg.h"), "w") as f:
            f.write('#include "%s/src/Config.h"\n' % REPO)
            for k, val in v.get("defs", {}).items():
                f.write("#undef %s\n#define %s %s\n" % (k, k, val))
        cmds, objs = [], []
        cc = v.get("cc", "gcc")
        for s in [s for s in sources() if os.path.basename(s) != "main.c"] + [rt]:
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            opt = v.get("opt", "-O2") if os.path.basename(s) != "RuleTable.c" else v.get("rtopt", "-O1")
            cmds.append([cc, opt, "-DSTAGE=2"] + BASE + v.get("cflags", []) + (v.get("netflags", []) if "/NetworkNAR/" in s else []) + ["-include", os.path.join(d, "vfcfg.h"), "-I" + REPO + "/src", "-c", s, "-o", o])
        parallel(cmds)
        run([cc, "-shared", "-pthread"] + v.get("cflags", []) + objs + ["-Wl,-z,now", "-o", os.path.join(d, "libnar.so"), "-lpthread", "-lm"])
        open(stamp, "w").write(key)
    return d


def build_harness(spec, hname=None):
    vname = spec["variant"]
    v = VARIANTS[vname]
    d = build_variant(vname)
    cc = v.get("cc", "gcc")
    src = os.path.join(VERIF, "harness", spec["harness"])
    tag = spec["id"]
    exe = os.path.join(d, tag)
    with lock("h_" + tag):
        key = open(os.path.join(d, "stamp")).read()
        deps = sorted(glob.glob(VERIF + "/harness/*.[ch]") + glob.glob(VERIF + "/vf/*.[ch]"))
        key += "".join(hashlib.sha256(open(x, "rb").read()).hexdigest() for x in deps) + json.dumps(spec.get("cflags", []))
        stamp = exe + ".stamp"
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        san = [f for f in v.get("cflags", []) if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        inc = ["-include", os.path.join(d, "vfcfg.h"), "-I" + REPO + "/src", "-I" + VERIF + "/vf", "-I" + VERIF + "/harness"]
        base = [x for x in BASE if not x.startswith("-std") and not x.startswith("-D_POSIX")] + ["-std=gnu99", "-DSTAGE=2"]
        run([cc, spec.get("opt", "-O2")] + base + san + spec.get("cflags", []) + inc + ["-c", src, "-o", exe + ".h.o"])
        run([cc, "-O2", "-std=gnu99", "-w", "-fPIC", "-g1"] + san + ["-c", os.path.join(VERIF, "vf", "vf.c"), "-o", exe + ".vf.o"])
        run([cc, "-rdynamic", "-pthread"] + san + [exe + ".h.o", exe + ".vf.o", "-L" + d, "-lnar", "-Wl,-z,now", "-Wl,-rpath," + d, "-o", exe, "-lpthread", "-lm", "-ldl"] + spec.get("ldflags", []))
        open(stamp, "w").write(key)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=11:allocator_may_return_null=1:detect_odr_violation=0:handle_segv=1:symbolize=1",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=11:print_stacktrace=1")


def run_shard(exe, args, tmp, tag, limit):
    res, fl = os.path.join(tmp, tag + ".json"), os.path.join(tmp, tag + ".flight")
    err = os.path.join(tmp, tag + ".err")
    for f in (res, fl):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe] + args + ["--res", res, "--flight", fl]
    to = False
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=subprocess.STDOUT, env=ENV, cwd=tmp, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc, to = -9, True
    try:
        r = json.load(open(res))
    except Exception:
        r = None
    flight = None
    try:
        b = open(fl, "rb").read()
        flight = {"case": int.from_bytes(b[:8], "little", signed=True), "desc": b[8:].split(b"\0")[0].decode("latin1")}
    except Exception:
        pass
    tail = open(err, "rb").read()[-3000:].decode("utf-8", "replace")
    return {"rc": rc, "res": r, "flight": flight, "tail": tail, "timeout": to, "tag": tag, "args": args}


def known_keys(pid):
    keys, fixed = [], []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            pre = "finding: property=%s " % pid
            if line.startswith(pre):
                key, _, text = line[len(pre):].partition(" | ")
                keys.append((key.strip(), text.strip()))
    return keys


def failure(out):
    """(kind, case, desc, msg) if this shard's run is not a clean pass."""
    if out["rc"] == 0 and out["res"] and out["res"]["verdict"] == "ok":
        return None
    r = out["res"] or {}
    f = out["flight"] or {}
    kind = r.get("verdict") if r.get("verdict") in ("fail", "hang", "crash") else ("timeout" if out["timeout"] else "crash")
    msg = r.get("msg") or ("exit status %d" % out["rc"])
    if kind == "crash" and ("ERROR: AddressSanitizer" in out["tail"] or "runtime error" in out["tail"]):
        lines = [x for x in out["tail"].split("\n") if "ERROR: AddressSanitizer" in x or "runtime error" in x or "#0" in x or "#1" in x or "#2" in x]
        msg += " " + " / ".join(x.strip() for x in lines[:4])
    return kind, r.get("case", f.get("case", -1)), r.get("desc") or f.get("desc", ""), msg


def check(pid, tier):
    spec = dict(SPECS[pid], id=pid)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        exe = build_harness(spec)
    except (BuildError, subprocess.TimeoutExpired) as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        return 2
    tmp = os.path.join(BUILD, "run_%s_%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    keys = known_keys(pid)
    kf = os.path.join(tmp, "known")
    with open(kf, "w") as f:
        f.write("".join(k + "\n" for k, _ in keys))
    common = ["--known", kf] + (["--thorough"] if tier == "thorough" else [])
    n = spec.get("shards", NPROC)
    limit = spec.get("limit", 780) if tier == "quick" else spec.get("limit_thorough", 6 * 3600)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(lambda i: run_shard(exe, ["--shard", str(i), str(n)] + common, tmp, "s%d" % i, limit), range(n)))
    tb = time.time()
    bad, unconfirmed = [], []
    seen_case = set()
    for o in outs:
        fl = failure(o)
        if not fl:
            continue
        kind, case, desc, msg = fl
        # confirm by replaying that case alone, twice as patient
        conf = None
        if case >= 0:
            r = run_shard(exe, ["--only", str(case), "--hang", "120"] + common, tmp, o["tag"] + "r", 400)
            f2 = failure(r)
            if f2 is not None:
                conf = f2
        if conf is None and kind in ("fail", "crash"):
            # the case alone passes: state carried over from earlier cases; re-run the whole shard
            r = run_shard(exe, o["args"], tmp, o["tag"] + "R", limit)
            f2 = failure(r)
            if f2 is not None and f2[0] in ("fail", "crash"):
                conf = f2
                case = -1
        if conf is None or conf[0] == "timeout":
            unconfirmed.append((kind, case, desc, msg, o["tail"]))
            continue
        bad.append((conf, case, o))
        if len(bad) >= 3:
            break
    # evidence
    agg = {}
    samples, extra, known = [], {}, {}
    for o in outs:
        r = o["res"] or {}
        for k in ("run", "states", "transitions", "validated", "nontrivial", "distinct"):
            agg[k] = agg.get(k, 0) + r.get(k, 0)
        agg["cases"] = max(agg.get("cases", 0), r.get("cases", 0))
        samples += r.get("samples", [])[:2]
        for k, v in r.get("extra", {}).items():
            extra[k] = extra.get(k, 0) + v
        for k, v in r.get("known", {}).items():
            known[k] = known.get(k, 0) + v
    cov = {"evaluations": agg["run"], "distinct_nontrivial": agg["nontrivial"], "rule": spec["rule"], "samples": samples[:8] or ["(none)"],
           "states": agg["states"] or agg["distinct"], "transitions": agg["transitions"], "traces_validated_against_impl": agg["validated"] or agg["run"],
           "distinct_outcomes_sum_over_shards": agg["distinct"], "cases_in_bounded_space": agg["cases"], "shards": n, "exhaustive": not bad and not unconfirmed,
           "bounds": spec["bounds"][1 if tier == "thorough" and len(spec["bounds"]) > 1 else 0] if isinstance(spec["bounds"], list) else spec["bounds"]}
    cov.update({"count_" + k: v for k, v in extra.items()})
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, text in keys:
        if known.get(k):
            print("KNOWN-FINDING: property=%s %s (%s; seen %d times)" % (pid, text, k, known[k]))
    rc = 0
    for (kind, case2, desc, msg), case, o in bad:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s.json" % (pid, case if case >= 0 else o["tag"]))
        args = (["--only", str(case)] + common) if case >= 0 else o["args"]
        json.dump({"property": pid, "tier": tier, "kind": kind, "case": case, "desc": desc, "msg": msg,
                   "args": [a for a in args if a != "--known" and a != kf], "how": "python3 %s/vf/driver.py %s --replay %s" % (VERIF, pid, path)}, open(path, "w"), indent=1)
        print("%s: %s [case %s: %s]" % (kind, msg[:1500], case, desc[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    if rc == 0 and unconfirmed:
        for kind, case, desc, msg, tail in unconfirmed:
            print("UNCONFIRMED %s case=%s %s %s\n%s" % (kind, case, desc, msg, tail[-800:]))
        rc = 3
    if rc == 0:
        print("OK property=%s tier=%s runs=%d states=%d transitions=%d nontrivial=%d build=%.1fs total=%.1fs" % (
            pid, tier, agg["run"], cov["states"], agg["transitions"], agg["nontrivial"], 0, time.time() - t0))
    shutil.rmtree(tmp, ignore_errors=True)
    return rc


def replay(pid, path):
    spec = dict(SPECS[pid], id=pid)
    exe = build_harness(spec)
    a = json.load(open(path))["args"]
    tmp = os.path.join(BUILD, "replay_%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    kf = os.path.join(tmp, "known")
    open(kf, "w").write("".join(k + "\n" for k, _ in known_keys(pid)))
    o = run_shard(exe, a + ["--known", kf], tmp, "r", 3600)
    shutil.rmtree(tmp, ignore_errors=True)
    f = failure(o)
    if f:
        print("%s: %s [%s]" % (f[0], f[3], f[2]))
        print(o["tail"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("the recorded case passes")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        try:
            for v in sorted({s["variant"] for s in SPECS.values()}):
                build_variant(v)
            with cf.ThreadPoolExecutor(NPROC) as ex:
                list(ex.map(lambda p: build_harness(dict(SPECS[p], id=p)), SPECS))
        except BuildError as e:
            print(e)
            return 2
        return 0
    if len(a) >= 3 and a[1] == "--replay":
        return replay(a[0], a[2])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
