#!/opt/venv/bin/python
"""Decide one property:   check.py C02            (VERIF_TIER, VERIF_SEED)
   Re-run one recorded case: check.py --replay FILE

Three layers (see DESIGN.md):
  1. design:    TLC checks the specification's state machine exhaustively;
  2. scenarios: TLC enumerates configurations / histories from a specification,
                which are replayed into the real library;
  3. traces:    what the real library did is recorded, decoded to integers and
                validated by TLC against the specification, observation by
                observation.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s)."""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SPEC = os.path.join(HERE, "spec")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
NPROC = 8


class CheckError(Exception):
    pass


def tlc(module, cfg, scratch, env=None, workers=1, extra=(), timeout=800, heap="2g"):
    meta = tempfile.mkdtemp(prefix="meta-", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss16m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
           "-nowarning"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=rc, out=out, generated=gen, distinct=dis)


BAD = re.compile(r'<<\s*"BAD",\s*"([^"]*)",\s*(-?\d+),\s*\{(.*?)\}\s*>>', re.S)
DONE = re.compile(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>')


def run_cases(prop, cases, scratch, tag, limit, timeout):
    fin = os.path.join(scratch, "in-%s.ndjson" % tag)
    fout = os.path.join(scratch, "out-%s.ndjson" % tag)
    with open(fin, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    mpl = os.path.join(scratch, "mpl-%s" % tag)
    os.makedirs(mpl, exist_ok=True)
    env = dict(os.environ)
    env.update(MPLBACKEND="Agg", MPLCONFIGDIR=mpl, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "harness", "runner.py"), prop, fin, fout,
                          str(limit)], env=env, cwd=scratch, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        log, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        log, _ = p.communicate()
        log += "\n[killed after %ss]" % timeout
    recs = []
    if os.path.exists(fout):
        with open(fout) as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
    got = {r["id"] for r in recs}
    lost = [c for c in cases if c["id"] not in got]
    return recs, lost, log


def validate(module, recs, scratch, tag, timeout):
    """TLC verdict on recorded behaviours: (bad {id: {(step, clauses)}}, stats)"""
    f = os.path.join(scratch, "trace-%s.ndjson" % tag)
    with open(f, "w") as g:
        for r in recs:
            r = {k: v for k, v in r.items() if k != "error"}
            g.write(json.dumps(r, separators=(",", ":")) + "\n")
    res = tlc(module, module + ".cfg", scratch, env={"VERIF_CASES": f}, timeout=timeout)
    os.unlink(f)
    if "Parsing or semantic analysis failed" in res["out"]:
        raise CheckError(res["out"][-1500:])
    bad = {}
    flat = res["out"].replace("\n", " ")
    for m in BAD.finditer(flat):
        bad.setdefault(m.group(1), []).append((int(m.group(2)), m.group(3).replace('"', '').strip()))
    d = DONE.search(flat)
    res["done"] = d is not None and int(d.group(1)) == len(recs)
    return bad, res


def chunks(cases, n, weight):
    """n shards of about equal weight, keeping heavy cases apart"""
    order = sorted(cases, key=weight, reverse=True)
    bins = [[0.0, []] for _ in range(max(1, n))]
    for c in order:
        b = min(bins, key=lambda b: b[0])
        b[0] += weight(c)
        b[1].append(c)
    return [b[1] for b in bins if b[1]]


def load_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main(argv):
    t0 = time.time()
    replay = None
    if argv and argv[0] == "--replay":
        replay = json.load(open(argv[1]))
        prop = replay["property"]
    else:
        prop = argv[0]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return decide(prop, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, replay, scratch, t0):
    import numpy as np
    mod = importlib.import_module("harness." + prop.lower())
    violations = []           # (key, message, case)
    stats = dict(states=0, transitions=0, traces=0, observations=0)
    design = []
    pool = ThreadPoolExecutor(NPROC)
    futs = []

    # 1. exhaustive design checks
    if replay is None:
        for d in getattr(mod, "DESIGN", []):
            module, cfg = d[0], d[1]
            if len(d) > 2 and d[2] == "thorough" and TIER != "thorough":
                continue
            futs.append((module, cfg, pool.submit(tlc, module, cfg, scratch, None, 2, (), 800, "3g")))

    # 2. scenarios enumerated by TLC
    scen = []
    if replay is None and getattr(mod, "SCENARIOS", None):
        for module, cfg, extra in mod.SCENARIOS(TIER, SEED):
            res = tlc(module, cfg, scratch, workers=1, extra=extra, timeout=600)
            got = [json.loads(m.group(1).replace('\\"', '"'))
                   for m in re.finditer(r'<<"SCEN",\s*"((?:[^"\\]|\\.)*)"\s*>>', res["out"].replace("\n", " "))]
            if not got:
                raise CheckError("no scenario from %s/%s:\n%s" % (module, cfg, res["out"][-2000:]))
            stats["states"] += res["distinct"]
            stats["transitions"] += res["generated"]
            design.append({"spec": module, "cfg": cfg, "role": "scenario generator", "scenarios": len(got),
                           "distinct_states": res["distinct"]})
            scen.extend(sorted(got, key=lambda s: json.dumps(s, sort_keys=True)))   # TLC's own order varies

    # 3. cases -> real code -> traces -> TLC
    rng = np.random.default_rng([SEED, int(prop[1:]), 1 if TIER == "quick" else 2])
    if replay is None:
        cases = list(mod.cases(TIER, rng, scen))
    else:
        cases = [replay["case"]]
    for j, c in enumerate(cases):
        if replay is None:
            c["id"] = "%s-%d" % (c.get("label", "case"), j)
    assert len({c["id"] for c in cases}) == len(cases)
    weight = getattr(mod, "weight", lambda c: 1.0)
    nsh = min(max(1, getattr(mod, "SHARDS", 6)), max(1, len(cases)))
    if TIER == "thorough":
        nsh = min(len(cases), max(nsh, NPROC) * max(1, len(cases) // 20000 + 1))
    tmod = lambda c: c.get("trace", mod.TRACE)
    groups = {}
    for c in cases:
        groups.setdefault(tmod(c), []).append(c)
    total = sum(weight(c) for c in cases) or 1.0
    shards = []
    for name, cs in groups.items():
        share = max(1, round(nsh * sum(weight(c) for c in cs) / total))
        shards += [(name, sh) for sh in chunks(cs, min(share, len(cs)), weight)]
    limit = getattr(mod, "CASE_LIMIT", 60)
    tmo = 840 if TIER == "quick" else 6 * 3600

    def work(j, nsh_):
        trace, sh = nsh_
        recs, lost, log = run_cases(prop, sh, scratch, "%d" % j, limit, tmo)
        out = dict(recs=len(recs), bad={}, lost=lost, log=log, gen=0, obs=0, sample=None)
        if recs:
            bad, res = validate(trace, recs, scratch, "%d" % j, tmo)
            if not res["done"]:
                # some observation cannot be interpreted by the specification
                # at all: find out which, by halves
                todo, bad = [recs], {}
                while todo:
                    part = todo.pop()
                    b, r = validate(trace, part, scratch, "%d" % j, tmo)
                    if r["done"]:
                        bad.update(b)
                        res["generated"] += r["generated"]
                        res["distinct"] += r["distinct"]
                    elif len(part) == 1:
                        bad.setdefault(part[0]["id"], []).append((0, "uninterpretable"))
                        out["tlcout"] = r["out"][-1500:]
                    else:
                        todo += [part[:len(part) // 2], part[len(part) // 2:]]
            out["bad"], out["gen"], out["dis"] = bad, res["generated"], res["distinct"]
            out["sample"] = recs[len(recs) // 2]
            out["errs"] = {r["id"]: r.get("error", r["status"]) for r in recs if r.get("status") != "ok"}
        return out

    parts = list(pool.map(lambda a: work(*a), list(enumerate(shards))))
    byid = {c["id"]: c for c in cases}
    samples = []
    for p in parts:
        stats["traces"] += p["recs"]
        stats["states"] += p.get("dis", 0)
        stats["transitions"] += p["gen"]
        for cid, fails in p["bad"].items():
            err = p.get("errs", {}).get(cid, "")
            clauses = sorted({x for _, f in fails for x in re.split(r",\s*", f)})
            msg = "case %s: clause(s) %s at observation(s) %s%s" % (
                cid, ",".join(clauses), [s for s, _ in fails][:6], " (%s)" % err if err else "")
            if "tlcout" in p and "uninterpretable" in clauses:
                msg += "\n" + p["tlcout"]
            violations.append((cid, msg, byid[cid]))
        for c in p["lost"]:
            violations.append((c["id"], "case %s: the library never returned (%s)" % (c["id"], p["log"][-300:]), c))
        if p["sample"] is not None and len(samples) < 3:
            s = dict(p["sample"])
            txt = json.dumps(s)
            samples.append(s if len(txt) < 1500 else {"id": s["id"], "truncated": txt[:1400]})
    for module, cfg, f in futs:
        r = f.result()
        ok = r["rc"] == 0 and "No error has been found" in r["out"]
        design.append({"spec": module, "cfg": cfg, "role": "design", "distinct_states": r["distinct"],
                       "states_generated": r["generated"], "ok": ok})
        stats["states"] += r["distinct"]
        stats["transitions"] += r["generated"]
        if not ok:
            # the specification itself is inconsistent: an error of the check,
            # independent of the tree under test
            raise CheckError("design %s/%s failed:\n%s" % (module, cfg, r["out"][-3000:]))
    pool.shutdown()

    findings = [f for f in load_findings() if f[0] == prop]
    keyof = getattr(mod, "finding_key", lambda case: None)
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    known = set()
    for cid, msg, case in violations:
        fk = keyof(case)
        hit = [f for f in findings if fk is not None and f[1] == fk]
        if hit:
            known.add(hit[0])
            continue
        nviol += 1
        path = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", cid)))
        if nviol <= 20:
            with open(path, "w") as f:
                json.dump({"property": prop, "case": case, "why": msg}, f)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   " + msg)
    for f in findings:
        if f in known or replay is None:
            print("KNOWN-FINDING: property=%s %s" % (prop, f[2]))
    if nviol > 20:
        print("   ... and %d more" % (nviol - 20))
    wall = time.time() - t0
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": stats["states"], "transitions": stats["transitions"],
                       "traces_validated_against_impl": stats["traces"],
                       "samples": samples, "specifications": design,
                       "trace_specs": sorted(groups), "scenarios_replayed": len(scen),
                       "labels": _count(c.get("label", "case") for c in cases),
                       "what": getattr(mod, "WHAT", "")},
          "assumptions": getattr(mod, "ASSUMES", []),
          "wall_s": round(wall, 2), "violations": nviol}
    if replay is None:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d behaviours, %d states, %.1fs, %d violation(s)" % (
        prop, TIER, stats["traces"], stats["states"], wall, nviol))
    return 1 if nviol else 0


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
