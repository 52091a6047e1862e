#!/usr/bin/env python3
"""Decide one property:  check.py PROPERTY [quick|thorough]

1. TLC checks the specification itself (bounded, exhaustive): MC_*.cfg.
2. TLC / the driver generates behaviours; the driver runs the real code from
   /repo and records what it did as ndjson events.
3. TLC replays every recorded trace against the specification (Trace_<P>.tla);
   each event gets the set of specification clauses it violates.
4. Failing clauses that are not listed in known_findings.txt -> VIOLATION, exit 1.
Exit 0: held on everything explored.  Exit 2: the machinery itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, str(VERIF / "harness"))
import registry  # noqa

NCPU = os.cpu_count() or 4


def tool_error(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def run_tlc(module, cfg, workdir, env=None, workers=1, timeout=800, heap="2g", extra=()):
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + str(workdir), "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", str(cfg), *extra, str(module)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=str(SPEC), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        rc, out = 124, (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t0


def tlc_counts(out):
    m = None
    for m in re.finditer(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", "")):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def load_known(prop):
    known, path = [], VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            m = re.match(r"known:\s+property=(\S+)\s+event=(\S+)\s+clause=(\S+)\s*(.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3), m.group(4)))
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = registry.PROPS[prop]
    t_start = time.time()
    work = Path(tempfile.mkdtemp(prefix="verif-%s-" % prop))
    try:
        code = decide(prop, tier, seed, conf, work, t_start)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, conf, work, t_start):
    states = trans = 0
    mc_info = []
    traces = work / "traces"
    traces.mkdir()
    gen = work / "gen"
    gen.mkdir()
    env = dict(os.environ)
    env.update({"PYTHONPATH": "%s:%s" % (REPO, VERIF / "harness"), "PYTHONDONTWRITEBYTECODE": "1",
                "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
                "PYTHONHASHSEED": "0", "VERIF_GEN": str(gen), "VERIF_SCRATCH": str(work / "scratch")})
    (work / "scratch").mkdir()

    pool = cf.ThreadPoolExecutor(NCPU)
    # 1. model checking of the specification
    mcs = []
    for mc in conf.get("mc", []):
        cfg = mc.get("cfg_thorough", mc["cfg"]) if tier == "thorough" else mc["cfg"]
        mcs.append((mc, cfg, pool.submit(run_tlc, mc["module"], cfg, work, {"GEN": str(gen)}, mc.get("workers", 1),
                                         3000 if tier == "thorough" else 600, mc.get("heap", "3g"))))
    # behaviours generated from the specification must exist before the driver starts
    for g in conf.get("gen", []):
        cfg = g.get("cfg_thorough", g["cfg"]) if tier == "thorough" else g["cfg"]
        extra = [str(x).replace("$SEED", str(seed)) for x in
                 (g.get("extra_thorough", g.get("extra", [])) if tier == "thorough" else g.get("extra", []))]
        rc, out, dt = run_tlc(g["module"], cfg, work, {"GEN": str(gen), "GENOUT": str(gen / g["out"])},
                              g.get("workers", 1), 1200, "3g", extra)
        if rc != 0 or not (gen / g["out"]).exists():
            tool_error("behaviour generation %s failed rc=%d\n%s" % (cfg, rc, out[-1500:]))
        a, b = tlc_counts(out)
        states += b
        trans += a
        mc_info.append({"config": cfg, "generated": a, "distinct": b, "wall_s": round(dt, 1)})

    # 2. drive the real code
    nparts = conf.get("parts", NCPU)

    def drive(k):
        p = subprocess.run([PY, "-W", "ignore", "-m", "drivers." + conf["driver"], str(traces), tier, str(seed),
                            str(k), str(nparts)], cwd=str(work / "scratch"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=conf.get("drv_timeout", 700) if tier == "quick" else 7200)
        return k, p.returncode, p.stdout, p.stderr

    drv_fail = []
    events_expected = 0
    for k, rc, out, err in pool.map(drive, range(nparts)):
        m = re.search(r"EVENTS (\d+)", out)
        if rc != 0 or not m:
            drv_fail.append((k, rc, err[-2000:]))
        else:
            events_expected += int(m.group(1))
    t_drive = time.time() - t_start

    # 3. validate every trace against the specification
    files = sorted(traces.glob("*.ndjson"))
    jobs = []
    # group small files so that one TLC run judges several behaviours
    for f in files:
        jobs.append(f)

    def validate(f):
        outp = work / ("verdict-%s.json" % f.stem)
        rc, out, dt = run_tlc("Trace_%s" % conf.get("trace", prop), "Trace_%s.cfg" % conf.get("trace", prop), work,
                              {"TRACE": str(f), "VERDICT": str(outp)}, 1,
                              850 if tier == "quick" else 7200, conf.get("heap", "2g"))
        n = sum(1 for _ in open(f))
        if rc != 0 or not outp.exists():
            return f, n, None, out[-1500:], dt, tlc_counts(out)
        v = json.loads(outp.read_text())
        return f, n, v, "", dt, tlc_counts(out)

    fails = []          # (event id, clause, file)
    validated = ntraces = 0
    uninterp = []
    samples = []
    ops = {}
    for f, n, v, err, dt, (a, b) in pool.map(validate, jobs):
        states += b
        trans += a
        if v is None or v["n"] != n:
            uninterp.append((f, err))
            continue
        ntraces += 1
        validated += n
        for rec in v["fails"]:
            for cl in rec["c"]:
                fails.append((rec["id"], cl, f))
        if len(samples) < 3:
            with open(f) as fh:
                samples.append(json.loads(fh.readline()))
        with open(f) as fh:
            for line in fh:
                o = re.search(r'"op": "([^"]*)"', line).group(1)
                ops[o] = ops.get(o, 0) + 1
    for mc, cfg, fut in mcs:
        rc, out, dt = fut.result()
        a, b = tlc_counts(out)
        if rc != 0:
            tool_error("model checking %s failed rc=%d\n%s" % (cfg, rc, out[-1500:]))
        states += b
        trans += a
        mc_info.append({"config": cfg, "generated": a, "distinct": b, "wall_s": round(dt, 1)})
    pool.shutdown()

    # 4. verdict
    known = load_known(prop)
    hit = set()
    bad = []
    for id_, cl, f in fails:
        for k in known:
            if k[0] == id_ and (k[1] == "*" or k[1] == cl):
                hit.add(k)
                break
        else:
            bad.append((id_, cl, f))
    for k in known:
        if k in hit:
            print("KNOWN-FINDING: property=%s event=%s clause=%s %s" % (prop, k[0], k[1], k[2]))
    for k, rc, err in drv_fail:
        bad.append(("driver-part-%d" % k, "driver-died rc=%d" % rc, None))
    for f, err in uninterp:
        if "semantic analysis failed" in err or "Parse Error" in err or not err:
            tool_error("specification does not load\n" + err)
    for f, err in uninterp:
        bad.append((f.name, "trace-not-interpretable", f))

    replay = None
    outdir = VERIF / "out"
    if bad:
        outdir.mkdir(exist_ok=True)
        replay = outdir / ("replay-%s-%s-seed%d.json" % (prop, tier, seed))
        want = {b[0] for b in bad}
        evs = []
        for f in files:
            for line in open(f):
                ev = json.loads(line)
                if ev["id"] in want and len(evs) < 20:
                    evs.append(ev)
        json.dump({"property": prop, "tier": tier, "seed": seed,
                   "rerun": "VERIF_SEED=%d python3 /verif/harness/check.py %s %s" % (seed, prop, tier),
                   "failing": [[b[0], b[1]] for b in bad][:200],
                   "driver_failures": [d[2] for d in drv_fail],
                   "tlc_errors": [u[1] for u in uninterp][:5], "events": evs}, open(replay, "w"), indent=1)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "model_checking"),
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ntraces,
                       "events_validated": validated, "events_by_operation": ops, "model_checking_runs": mc_info,
                       "samples": [json.dumps(s)[:1500] for s in samples]},
          "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.time() - t_start, 2), "violations": len(bad)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1))
    print("%s %s: %d events in %d traces judged, %d failing clauses (%d known); spec states %d; drive %.1fs total %.1fs"
          % (prop, tier, validated, ntraces, len(fails), len(fails) - sum(1 for b in bad if b[2] is not None and b[1] != "trace-not-interpretable"), states, t_drive,
             time.time() - t_start), flush=True)
    if bad:
        for b in bad[:15]:
            print("  failing: event=%s clause=%s" % (b[0], b[1]))
        for d in drv_fail[:2]:
            print(d[2])
        for u in uninterp[:1]:
            print(u[1])
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        return 1
    if validated == 0 or validated != events_expected:
        tool_error("validated %d of %d events" % (validated, events_expected))
    return 0


if __name__ == "__main__":
    main()
