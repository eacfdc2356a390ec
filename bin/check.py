#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [--tier quick|thorough].

1. builds the driver against /repo's working tree,
2. has TLC check the design models of the property (spec/MC*.tla) and
   enumerate its scenario spaces (spec/GenScen.tla),
3. runs the driver: the real library on the scenarios and on seeded inputs,
4. has TLC validate every recorded run against the specification
   (spec/Trace*.tla),
5. writes evidence/<property>.json.

Exit 0: held.  Exit 1 with a VIOLATION line: a recorded run of the real library
is not a behaviour of the specification.  Anything else: an error of the check.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from props import PROPS

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = {
    "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": os.environ.get("HOME", "/root"),
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=readonly", "GOPROXY": "off", "GO111MODULE": "on",
    "GONOSUMDB": "*", "GOFLAGS_EXTRA": "",
}


class CheckError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def go_env():
    env = dict(os.environ)
    env.update(GOENV)
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def build(work, race=False):
    out = os.path.join(work, "drv-race" if race else "drv")
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
    env = go_env()
    if race:
        env["CGO_ENABLED"] = "1"
    rc, o = run(cmd, env=env, cwd=os.path.join(HERE, "driver"), timeout=600)
    if rc != 0:
        raise CheckError("the driver does not build:\n" + o)
    return out


def tlc(work, module, cfg=None, env=None, heap="1500m", workers="1", timeout=800, extra=()):
    """Runs TLC on a spec module; returns (rc, output)."""
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(dir=work)
    tmp = os.path.join(meta, "tmp")
    os.mkdir(tmp)
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + tmp,
           "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", workers,
           "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    try:
        rc, o = run(cmd, env=e, cwd=os.path.join(HERE, "spec"), timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, o


def tlc_stats(o):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def scenario(work, name, tier):
    out = os.path.join(work, name + ".json")
    rc, o = tlc(work, "GenVlc" if name == "vlc" else "GenScen", env={"SCEN": name, "OUT": out, "TIER": tier}, heap="4g")
    m = re.search(r'SCENARIOS\|(\d+)', o)
    if rc != 0 or not m:
        raise CheckError("scenario generation %s failed:\n%s" % (name, o[-3000:]))
    return int(m.group(1))


def model(work, cfg, tier):
    """Checks a design model; cfg is Module or Module:cfgname (per tier: name-thorough.cfg)."""
    module, _, name = cfg.partition(":")
    name = name or module
    if tier == "thorough" and os.path.exists(os.path.join(HERE, "spec", name + "-thorough.cfg")):
        name += "-thorough"
    rc, o = tlc(work, module, cfg=name, heap="6g", workers="3", timeout=3000,
                extra=("-deadlock",))     # these processes end
    if rc != 0 or "No error has been found" not in o:
        # the model does not involve the code under test
        raise CheckError("design model %s fails:\n%s" % (name, o[-3000:]))
    gen, dist = tlc_stats(o)
    return {"model": name, "transitions": gen, "states": dist}


VLINE = re.compile(r'^"V\|(\d+)\|(.*)"$', re.M)
DLINE = re.compile(r'^"DONE\|(\d+)"$', re.M)


def validate(work, module, shard, prop, timeout):
    n = sum(1 for _ in open(shard))
    if n == 0:
        return 0, [], 0
    start, out, extra = 1, "", []
    while True:
        rc, o = tlc(work, module, env={"TRACE": shard, "PROP": prop, "START": str(start)}, heap="2600m", timeout=timeout)
        out += o
        d = DLINE.findall(o)
        if rc == 0 and len(d) == 1 and int(d[0]) == n:
            break
        # a recorded run with values outside of what the specification can
        # evaluate at all is no behaviour of it either
        at = [int(x) for x in re.findall(r"^(?:/\\ )?(?:n|idx) = (\d+)$", o, re.M)]
        if not at or "evaluating the nested" not in o and "TLC threw an unexpected exception" not in o or len(extra) >= 5:
            if extra:
                break
            raise CheckError("trace validation of %s stopped (rc %d):\n%s" % (os.path.basename(shard), rc, o[-4000:]))
        if at[-1] < start or at[-1] > n or "OutOfMemory" in o or "StackOverflow" in o:
            raise CheckError("trace validation of %s stopped (rc %d):\n%s" % (os.path.basename(shard), rc, o[-4000:]))
        with open(shard) as f:
            for k, line in enumerate(f, 1):
                if k == at[-1]:
                    extra.append((json.loads(line)["id"], "a result outside of the specification's vocabulary"))
        start = at[-1] + 1
    o = out
    vs = extra + [(int(a), b.replace('\\"', '"').replace("\\\\", "\\")) for a, b in VLINE.findall(o)]
    return n, vs, tlc_stats(o)[1]


def load_findings():
    known = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) match=\"([^\"]+)\" (.*)", line)
            if m:
                known.append(m.groups())
    return known


def find_case(shards, cid):
    for s in shards:
        with open(s) as f:
            for line in f:
                m = re.match(r'\{"id":(\d+),', line)
                if m and int(m.group(1)) == cid:
                    return json.loads(line)
    return None


def shorten(v, n=160):
    if isinstance(v, dict):
        return {k: shorten(x, n) for k, x in v.items()}
    if isinstance(v, list):
        if len(v) > n:
            return [shorten(x, n) for x in v[:24]] + ["... %d more" % (len(v) - 24)]
        return [shorten(x, n) for x in v]
    if isinstance(v, str) and len(v) > 4000:
        return v[:4000]
    return v


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check(prop, tier, seed, spec, work, t0)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, spec, work, t0):
    pool = ThreadPoolExecutor(8)
    fb = pool.submit(build, work, spec.get("race", False))
    fs = {n: pool.submit(scenario, work, n, tier) for n in spec.get("scen", [])}
    fm = [pool.submit(model, work, m, tier) for m in spec.get("models", [])]
    drv = fb.result()
    scen = {n: f.result() for n, f in fs.items()}

    shards_n = 8
    deadline = 780 if tier == "quick" else 6 * 3600
    env = dict(os.environ)
    if spec.get("race"):
        env["VERIF_RACE"] = "1"
    rc, o = run([drv, "gen", "-suite", prop, "-seed", str(seed), "-tier", tier, "-shards", str(shards_n),
                 "-out", work, "-scen", work, "-timeout", "40" if spec.get("race") else "10"], env=env, timeout=deadline)
    if rc != 0:
        raise CheckError("driver failed (%d):\n%s" % (rc, o[-4000:]))
    summary = json.loads(o.strip().splitlines()[-1])
    t_drv = time.time() - t0

    jobs = []
    shards = []
    for fam, module in (("c", "TraceContainer"), ("v", "TraceVideo")):
        for i in range(shards_n):
            s = os.path.join(work, "%s-%d.ndjson" % (fam, i))
            if os.path.exists(s) and os.path.getsize(s) > 0:
                shards.append(s)
                jobs.append(pool.submit(validate, work, module, s, prop, deadline))
    done, verdicts, tstates = 0, [], 0
    for j in jobs:
        n, vs, st = j.result()
        done += n
        verdicts += vs
        tstates += st
    models = [f.result() for f in fm]
    if done != summary["cases"] or done == 0:
        raise CheckError("validated %d of %d cases" % (done, summary["cases"]))

    findings = load_findings()
    known = [k for k in findings if k[0] == prop]
    bad, hit = [], {}
    for cid, v in sorted(verdicts):
        if v.startswith("GENERR"):
            raise CheckError("case %d: %s" % (cid, v))
        for _, match, what in known:
            if match == v:
                hit.setdefault((match, what), []).append(cid)
                break
        else:
            if any(match == v for _, match, _ in findings):
                continue        # the finding is listed under its own property
            bad.append((cid, v))

    samples = []
    for cid in (1, max(1, done // 2), done):
        c = find_case(shards, cid)
        if c:
            samples.append(shorten({"id": c["id"], "kind": c["k"], "in": c["in"], "out": c.get("out")}, 60))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": sum(m["states"] for m in models) + tstates,
            "transitions": sum(m["transitions"] for m in models) + done,
            "traces_validated_against_impl": done,
            "evaluations": done,
            "distinct_nontrivial": summary["distinct"],
            "rule": spec["rule"],
            "samples": samples,
            "design_models": models,
            "scenarios_enumerated_by_tlc": scen,
            "runs_by_kind": summary["kinds"],
            "run_status": summary["status"],
            "driver_s": round(t_drv, 1),
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for (match, what), ids in hit.items():
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, what, len(ids)))
    if bad:
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        full = []
        for cid, v in bad[:5]:
            c = find_case(shards, cid)
            if c:
                c["verdict"] = v
                full.append(c)
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier,
                       "how": "each case: 'verifdriver run CASE' repeats it; verdict is the specification's objection",
                       "all": [{"id": c, "verdict": v} for c, v in bad[:500]], "cases": full}, f)
        for cid, v in bad[:8]:
            print("  run %d: %s" % (cid, v))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s held: %d runs validated, %d design states, %.1f s" %
          (prop, done, sum(m["states"] for m in models), time.time() - t0))
    return 0


COMMON_ASSUMPTIONS = [
    "the Go toolchain, the bitreader and huffman modules, TLC and its JSON module work",
    "sources follow io.Reader and never return data together with an error (the pinned bitreader drops such data)",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR: timeout", e.cmd[:3])
        sys.exit(2)
