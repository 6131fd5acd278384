#!/usr/bin/env python3
"""Driver of the checks:  check.py <property> [quick|thorough]   (or  check.py <property> --case WORK:N )

Builds the binaries of a property from /repo's working tree, runs them, and turns what their monitors report into
the verdict: exit 0 (held on everything observed), exit 1 + VIOLATION line, or exit 2 (inconclusive: no verdict).
"""
import json, os, subprocess, sys, time, shutil, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")

# property -> list of stages: (kind, binary, features, quick timeout, thorough timeout)
STAGES = json.load(open(os.path.join(VERIF, "stages.json")))

CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def say(*a):
    print(*a, flush=True)


def env():
    """The environment of the repository's own build (offline registry), with a target directory of ours."""
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.inc >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode(errors="replace").split("=", 1)
                if k not in ("PWD", "OLDPWD", "SHLVL", "_"):
                    e[k] = v
    except OSError:
        pass
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def force_rebuild():
    """cargo decides by modification time whether /repo changed; never trust an old build of it."""
    d = os.path.join(HARNESS, "target")
    for root in [d]:
        for dirpath, dirs, files in os.walk(root):
            if os.path.basename(dirpath) == ".fingerprint":
                for x in list(dirs):
                    if x.startswith("combine-") or x.startswith("vharness-"):
                        shutil.rmtree(os.path.join(dirpath, x), ignore_errors=True)
                dirs[:] = []


def build(stages, e):
    groups = {}
    for s in stages:
        groups.setdefault((s.get("kind", "bin"), s.get("features", ""), s.get("config", "")), []).append(s["bin"])
    for (kind, feats, config), bins in groups.items():
        e2 = dict(e)
        cmd = ["cargo"]
        if kind == "asan":
            cmd += ["+nightly"]
            e2["RUSTFLAGS"] = "-Zsanitizer=address"
            e2["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", "asan")
        elif kind == "miri":
            continue  # built by `cargo miri run`
        cmd += ["build", "--offline", "--quiet"]
        if kind == "asan":
            cmd += ["--target", "x86_64-unknown-linux-gnu"]
        for b in sorted(set(bins)):
            cmd += ["--bin", b]
        if config:
            # a configuration of combine other than `std`: "none" of its features, or those named
            e2["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", "config-" + config)
            cmd += ["--no-default-features"]
            feats = " ".join(x for x in (feats, config) if x and x != "none")
        if feats:
            cmd += ["--features", feats]
        r = subprocess.run(cmd, cwd=HARNESS, env=e2, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-6000:])
            say("inconclusive: the harness does not build")
            sys.exit(2)


def binary(s):
    if s.get("kind") == "asan":
        return os.path.join(HARNESS, "target", "asan", "x86_64-unknown-linux-gnu", "debug", s["bin"])
    if s.get("config"):
        return os.path.join(HARNESS, "target", "config-" + s["config"], "debug", s["bin"])
    return os.path.join(HARNESS, "target", "debug", s["bin"])


def run(s, e, timeout, extra=None):
    e2 = dict(e)
    e2.update(extra or {})
    e2.update(s.get("env", {}))
    kind = s.get("kind", "bin")
    if kind == "miri":
        e2["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", "miri")
        e2["MIRIFLAGS"] = s.get("miriflags", "-Zmiri-disable-isolation")
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", s["bin"]]
        if s.get("features"):
            cmd += ["--features", s["features"]]
    else:
        cmd = [binary(s)]
    cmd += s.get("args", [])
    if kind == "asan":
        e2["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1"
    if extra and "VERIF_CASE" in extra:
        e2.pop("VERIF_SHARDS", None)
    p = subprocess.Popen(cmd, cwd=HARNESS, env=e2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out, err


def runs(stages, e, tier, cur):
    """The runs of all the stages, one after the other; the interpreters (of one thread each) side by side."""
    limit = lambda s: s.get("timeout", [240, 3000])[1 if tier == "thorough" else 0]
    for s in stages:
        if s.get("kind", "bin") != "miri":
            for f in os.listdir(cur):
                os.unlink(os.path.join(cur, f))
            yield s, limit(s), run(s, e, limit(s))
    jobs = []
    for s in stages:
        if s.get("kind", "bin") == "miri":
            k = s.get("shards", 1)
            for i in range(k):
                jobs.append((s, {"VERIF_SHARDS": "%d/%d" % (i, k), "VERIF_CUR": "", "VERIF_THREADS": "1"}))
    if jobs:
        with ThreadPoolExecutor(8) as pool:
            fs = [(s, pool.submit(run, s, e, limit(s), x)) for s, x in jobs]
            for s, f in fs:
                yield s, limit(s), f.result()


def candidates(cur):
    """The cases that were being worked on when the process ended"""
    cs = [open(os.path.join(cur, f)).read().split("\n")[0].strip() for f in sorted(os.listdir(cur))]
    return [c for c in cs if c]


def replay_file(prop, n, doc):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%d.json" % (prop, n))
    json.dump(doc, open(f, "w"), indent=1)
    return f


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    case = args[args.index("--case") + 1] if "--case" in args else None
    spec = STAGES[prop]
    stages = [s for s in spec["stages"] if tier == "thorough" or s.get("tier", "quick") == "quick"]
    t0 = time.time()
    e = env()
    e["VERIF_SEED"] = str(seed)
    e["VERIF_TIER"] = tier
    e["VERIF_KNOWN"] = os.path.join(VERIF, "known_findings.txt")
    cur = os.path.join(VERIF, "replay", "cur-%s-%d" % (prop, os.getpid()))
    os.makedirs(cur, exist_ok=True)
    e["VERIF_CUR"] = cur
    # what one configuration showed, for the others to compare with
    e["VERIF_DUMP"] = os.path.join(VERIF, "replay", "dump-%s-%d" % (prop, os.getpid()))
    force_rebuild()
    build(stages, e)
    t_build = time.time() - t0
    if case:
        for s in stages:
            rc, out, err = run(s, e, 600, {"VERIF_CASE": case})
            say(out + err)
        shutil.rmtree(cur, ignore_errors=True)
        if os.path.exists(e["VERIF_DUMP"]):
            os.unlink(e["VERIF_DUMP"])
        sys.exit(0)
    viols, known, incon, ev = [], {}, [], []
    for s, limit, (rc, out, err) in runs(stages, e, tier, cur):
        kind = s.get("kind", "bin")
        got = False
        for l in out.splitlines():
            if l.startswith("@viol "):
                v = json.loads(l[6:])
                v["stage"] = s["bin"]
                viols.append(v)
            elif l.startswith("@known "):
                k = json.loads(l[7:])
                known[k["sig"]] = k["what"]
            elif l.startswith("@evidence "):
                d = json.loads(l[10:])
                d["stage"] = s["bin"] + ("" if kind == "bin" else "/" + kind) + ("/" + s["config"] if s.get("config") else "")
                ev.append(d)
                got = True
                incon += d.get("inconclusive", [])
        if got:
            continue
        name = s["bin"] + "/" + kind
        if rc is None:
            # A case which does not end by itself either is a verdict; a slow machine is not
            hit = False
            for c in candidates(cur):
                if run(s, e, 60, {"VERIF_CASE": c})[0] is None:
                    w, n = c.rsplit(":", 1)
                    viols.append({"work": w, "case": int(n), "stage": name, "what": "does not end: after 60 s this case alone is still running"})
                    hit = True
                    break
            if not hit:
                incon.append("%s: watchdog after %d s" % (name, limit))
            continue
        ub = [x for x in err.splitlines() if "Undefined Behavior" in x or "ERROR: AddressSanitizer" in x
              or "error: memory leaked" in x]
        if kind in ("miri", "asan") and ub:
            i = err.find(ub[0])
            viols.append({"work": "", "case": 0, "stage": name, "what": ub[0].strip(), "report": err[max(0, i):][:6000]})
            continue
        if rc < 0 and -rc in CRASH or rc in (134, 139):
            # The process died: find out which case did it, and that it does so by itself
            hit = False
            for c in candidates(cur):
                rc2, out2, err2 = run(s, e, 120, {"VERIF_CASE": c})
                if rc2 is not None and (rc2 < 0 and -rc2 in CRASH or rc2 in (134, 139)):
                    w, n = c.rsplit(":", 1)
                    why = (err2.strip().splitlines() or [""])[-1][:300]
                    viols.append({"work": w, "case": int(n), "stage": name, "what": "the process was killed by signal %d: %s" % (abs(rc2), why)})
                    hit = True
                    break
            if not hit:
                incon.append("%s: died with %s and no single case reproduces it" % (name, rc))
            continue
        sys.stderr.write(err[-3000:])
        incon.append("%s: ended with %s and no report" % (name, rc))
    shutil.rmtree(cur, ignore_errors=True)
    if os.path.exists(e["VERIF_DUMP"]):
        os.unlink(e["VERIF_DUMP"])

    cov = {"evaluations": sum(d["evaluations"] for d in ev),
           "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in ev),
           "rule": " | ".join(dict.fromkeys(d["rule"] for d in ev)) or "nothing ran",
           "samples": [x for d in ev for x in d["samples"]][:8] or ["none"],
           "build_s": round(t_build, 1)}
    for d in ev:
        o = cov.setdefault("observed." + d["stage"], {})
        for k, n in d["counters"].items():
            o[k] = o.get(k, 0) + n
    if incon:
        cov["inconclusive"] = incon
    doc = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    for k in sorted(known):
        say("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], k))
    if viols:
        for n, v in enumerate(viols[:5]):
            v.update({"property": prop, "seed": seed, "tier": tier,
                      "rerun": "VERIF_SEED=%d ./check.py %s %s --case %s:%s" % (seed, prop, tier, v["work"], v["case"])})
            f = replay_file(prop, n, v)
            say("VIOLATION property=%s replay=%s" % (prop, f))
            say("   " + v["what"][:2000])
        sys.exit(1)
    if incon or not ev:
        say("inconclusive: " + "; ".join(incon or ["nothing ran"]))
        sys.exit(2)
    say("%s held on %d executions (%d distinct), %.0f s (build %.0f s)" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, t_build))
    sys.exit(0)


main()
