"""C01: shapes, time instants and frequency axes of the fixed-grid distributions."""
import numpy as np
from harness import sig, lag, dec
from harness.lag import lengths, bins

TRACE = "TraceAxes"
WHAT = ("shape, returned instants and frequency axis of every fixed-grid distribution, and the same three read "
        "from the object, compared with the specification's axes")
ASSUMES = ["axes decoded as integers over 2n"]
DESIGN = [("AxesDesign", "AxesDesign.cfg")]
SHARDS = 7
KINDS = ["stft", "spec", "wv", "pwv", "mh", "pmh", "page", "ppage"]
TS = 8    # instants are recorded at this scale


def SCENARIOS(tier, seed):
    return [("AxesDesign", "AxesGen.cfg", ())]


def base(case):
    ts = case.get("ts")
    return {"kind": case["kind"], "N": len(case["x"]["v"]), "n": case["n"] if case["n"] is not None else 0,
            "defn": case["n"] is None, "defts": ts is None, "tscale": TS,
            "ts": [] if ts is None else [int(round(v * TS)) for v in ts["v"]],
            "shape": [], "tsout": [], "freqs": [], "attrts": [], "attrfreqs": [], "attrshape": [], "flat": True,
            "after": 0}


def execute(case):
    obj = lag.build(case)
    tfr, ts, freqs = obj.run()
    for _ in range(case.get("reruns", 0)):
        tfr, ts, freqs = obj.run()
    n = case["n"] if case["n"] is not None else len(case["x"]["v"])
    rec = {"shape": list(np.shape(tfr)), "tsout": dec.ints(np.ravel(ts), TS), "freqs": dec.ints(np.ravel(freqs), 2 * n, 1e-9),
           "attrts": dec.ints(np.ravel(obj.ts), TS), "attrfreqs": dec.ints(np.ravel(obj.freqs), 2 * n, 1e-9),
           "attrshape": list(np.shape(obj.tfr))}
    rec["flat"] = np.ndim(ts) == 1 and np.ndim(freqs) == 1
    if case["x"].get("layout") in ("row", "col"):
        plain = dict(case, x=dict(case["x"], layout="c"))
        rec["flat"] &= dec.same(lag.build(plain).run()[0], tfr)
    return rec


def weight(case):
    n = case["n"] if case["n"] is not None else len(case["x"]["v"])
    return 20 + n + len(case["x"]["v"])


def win_for(rng, kind, nn):
    if kind in ("wv", "mh", "page") or rng.random() < 0.4:
        return None
    if kind == "spec":
        h = max(0, nn // 2 - 1 if nn % 2 == 0 else (nn - 3) // 2)
        return sig.window(rng, 2 * int(rng.integers(0, h + 1)) + 1, single=False)
    return sig.window(rng, int(rng.integers(1, nn + 1)))


def stamps(rng, kind, N):
    r = rng.random()
    if r < 0.4:
        return None
    if kind in lag.INSTANTS:
        return {"v": [int(v) for v in rng.integers(0, N, int(rng.integers(1, N + 1)))], "dtype": "int64"}
    if r < 0.55:
        return {"v": list(range(N)), "dtype": "int32"}
    if r < 0.7:
        return {"v": [t + 5 for t in range(N)], "dtype": "int64"}
    if r < 0.85:
        return {"v": [t * 0.125 - 1 for t in range(N)], "dtype": "float64"}
    return {"v": [3 * t + 1 for t in range(N)][::-1], "dtype": "int64"}


def cases(tier, rng, scen):
    for s in scen:
        kind, N, n = s["kind"], s["N"], s["n"]
        nn = n or N
        if kind == "spec" and nn < 2:
            continue
        for withw in (0, 1):
            yield {"label": "enumerated", "kind": kind, "x": sig.signal(rng, N, "rand"), "n": n or None,
                   "w": win_for(rng, kind, nn) if withw else None, "ts": None if withw else stamps(rng, kind, N)}
    R = 500 if tier == "quick" else 15000
    for j in range(R):
        kind = KINDS[j % 8]
        N = lengths(rng, tier)
        n = bins(rng, N)
        if (n or N) < 2:
            n = 2
        nn = n or N
        c = {"label": "random", "kind": kind, "x": sig.signal(rng, N), "n": n, "w": win_for(rng, kind, nn),
             "ts": stamps(rng, kind, N), "positional": bool(rng.random() < 0.3) and kind not in ("wv", "mh", "page"),
             "reruns": int(rng.random() < 0.1)}
        if rng.random() < 0.25:
            c["x"]["layout"] = sig.pick(rng, ["row", "col"])
        yield c
    for kind in KINDS:
        for N, n in [(512, 511), (257, None), (64, 1024), (1001, 9), (3, 4097)]:
            yield {"label": "large", "kind": kind, "x": sig.signal(rng, N, "rand", dtype="complex128"), "n": n,
                   "w": None, "ts": None}
