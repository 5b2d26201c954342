"""C13: ideal TFR, Hough transform, ridges, Friedman density."""
import numpy as np
from harness import sig, dec

TRACE = "TraceMap"
WHAT = ("ideal representations of rational laws, Hough transforms of integer images (cell by cell, angles dividing 720), "
        "ridges and instantaneous-frequency densities of integer matrices with arbitrary fields")
ASSUMES = ["Hough cells within 0.003 of a boundary may fall on either side; finite fields for the density"]
DESIGN = [("ScatterDesign", "ScatterDesign.cfg")]
SHARDS = 7
ONED = ("rpwv", "rpmh")
FULL = ("rsp", "type1")


def SCENARIOS(tier, seed):
    return [("ScatterDesign", "ScatterGen.cfg", ())]


def base(case):
    c = {k: v for k, v in case.items() if k in ("kind", "a", "fr", "fc", "n", "m", "q", "lw", "ts")}
    for k, v in dict(a=[], fr=[], fc=[], n=0, m=0, q=1, lw=[], ts=[]).items():
        c.setdefault(k, v)
    c["dyadic"] = c["q"] & (c["q"] - 1) == 0
    c["oneD"] = case.get("method", "").lower() in ONED
    c.update(obs=[], tout=[], fout=[])
    return c


def execute(case):
    from tftb.processing.postprocessing import ideal_tfr, hough_transform, ridges, friedman_density
    c = base(case)
    kind = case["kind"]
    if kind == "ideal":
        lw = np.array(case["lw"], dtype=float) / case["q"]
        kw = {}
        if not case["deft"]:
            kw["timestamps"] = np.array(case["ts"], dtype=int)
        if not case["defn"]:
            kw["n_fbins"] = case["n"]
        lw.flags.writeable = False
        tfr, t, f = ideal_tfr(lw, **kw)
        tfr = np.asarray(tfr)
        return {"obs": dec.ints(tfr.T), "tout": dec.ints(t), "fout": dec.ints(np.asarray(f) * 2 * case["n"])}
    a = np.array(case["a"], dtype=case.get("dtype", "float64"))
    if case.get("k"):
        a = a * 2.0 ** case["k"]
    a.flags.writeable = False
    if kind == "hough":
        args = [] if case["defmn"] else [case["m"], case["n"]]
        ht, rho, theta = hough_transform(a, *args)
        ht = np.asarray(ht) / (2.0 ** case["k"] if case.get("k") else 1)
        return {"obs": dec.ints(ht.T), "tout": dec.ints((2 * (case["m"] - 1) * np.asarray(rho)) ** 2),
                "fout": dec.ints(np.asarray(theta) * case["n"] / (2 * np.pi))}
    fr = np.array(case["fr"], dtype=float)
    fr[fr < 0] = np.inf
    field = fr
    if not c["oneD"] or case.get("cplx"):
        fc = np.array(case["fc"], dtype=float)
        fc[np.isinf(fr)] = 0
        if c["oneD"]:
            fc = fc * 0
        field = fr + 1j * fc
    field.flags.writeable = False
    ts = {} if case["deft"] else {"timestamps": np.array(case["ts"])}
    if kind == "fried":
        d = np.asarray(friedman_density(a, field, **ts))
        return {"obs": [[dec.rat(v, 1000) for v in col] for col in d.T]}
    method = {} if case.get("defm") else {"method": case["method"]}
    t, f = ridges(a, field, **dict(ts, **method))
    unit = a.shape[0] * (1 if case["method"].lower() in FULL else 2)
    return {"tout": dec.ints(np.asarray(t)), "fout": dec.ints(np.asarray(f) * unit)}


def weight(case):
    if case["kind"] == "hough":
        return 3 + len(case["a"]) * len(case["a"][0]) * case["n"] * case["m"] / 20
    return 3


def cases(tier, rng, scen):
    methods = ["rsp", "rspwv", "rpwv", "rpmh", "type1", "RSP"]
    for j, s in enumerate(scen):
        fr = [[v - 1 for v in r] for r in s["fr"]]
        C = len(fr[0])
        fc = [[(t if (j + q) % 3 else (t + 1) % C) for t in range(C)] for q in range(len(fr))]
        yield {"label": "enumerated-ridge", "kind": "ridge", "a": s["a"], "fr": fr, "fc": fc, "method": methods[j % 6],
               "deft": True, "ts": list(range(C))}
        if any(v for r in s["a"] for v in r):
            yield {"label": "enumerated-density", "kind": "fried", "a": s["a"], "fr": fr, "fc": fc, "method": "rsp",
                   "deft": True, "ts": list(range(C))}
    big = 1 if tier == "quick" else 15
    for j in range(200 * big):
        N = int(rng.integers(1, 30))
        n = int(rng.integers(2, 40))
        if j % 12 == 11:
            N = int(sig.pick(rng, [64, 127, 128, 129, 256, 257]))
        if j % 12 == 10:
            n = int(sig.pick(rng, [127, 128, 129, 255, 256, 257]))
        q = int(sig.pick(rng, [2, 4, 8, 16, 64, 10, 7, 100, 3]))
        deft, defn = bool(rng.random() < 0.4), bool(rng.random() < 0.3)
        if defn:
            n = N
        if n < 1:
            continue
        ts = list(range(N)) if deft else [int(v) for v in rng.integers(0, N, int(rng.integers(1, 8)))]
        yield {"label": "ideal", "kind": "ideal", "n": n, "q": q, "deft": deft, "defn": defn, "ts": ts,
               "lw": [[int(v) for v in rng.integers(0, q // 2 + 1, N)] for _ in range(int(rng.integers(1, 4)))]}
    for j in range(110 * big):
        X, Y = int(rng.integers(2, 10)), int(rng.integers(2, 10))
        m = int(rng.integers(2, 10))
        n = int(sig.pick(rng, [1, 2, 3, 4, 5, 6, 8, 9, 10, 12]))
        kind = sig.pick(rng, ["rand", "point", "line", "faint", "signed", "dips"])
        a = np.zeros((X, Y), int)
        if kind == "rand":
            a = rng.integers(0, 6, (X, Y))
        elif kind == "point":
            a[rng.integers(0, X), rng.integers(0, Y)] = 7
        elif kind == "line":
            a[rng.integers(0, X), :] = 3
        elif kind == "signed":
            a = rng.integers(-6, 7, (X, Y))
        elif kind == "dips":                   # pixels below zero, at and around the twentieth of the maximum
            a = rng.integers(-3, 3, (X, Y))
            a[rng.integers(0, X), rng.integers(0, Y)] = int(sig.pick(rng, [19, 20, 21, 39, 40, 41]))
        else:
            a = rng.integers(0, 3, (X, Y))
            a[rng.integers(0, X), rng.integers(0, Y)] = int(sig.pick(rng, [19, 20, 21, 39, 40, 41]))
        if not (a > 0).any():
            a[0, 0] = 1
        defmn = bool(rng.random() < 0.3) and 720 % Y == 0 and X > 1
        if defmn:
            m, n = X, Y
        yield {"label": "hough", "kind": "hough", "a": a.tolist(), "m": m, "n": n, "defmn": defmn, "k": int(sig.pick(rng, [0, 0, -3, 5]))}
    for j in range(250 * big):
        R, C = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        if j % 16 == 15:
            R, C = [(2, 130), (130, 2), (1, 257), (257, 1), (3, 64), (64, 3), (20, 12)][int(rng.integers(0, 7))]
        a = rng.integers(0 if rng.random() < 0.7 else -2, 5, (R, C))
        fr = np.where(rng.random((R, C)) < 0.5, np.arange(R)[:, None], rng.integers(0, R, (R, C)))
        fc = np.where(rng.random((R, C)) < 0.7, np.arange(C)[None, :], rng.integers(0, C, (R, C)))
        kind = sig.pick(rng, ["ridge", "ridge", "fried"])
        if kind == "ridge":
            fr = np.where(rng.random((R, C)) < 0.1, -1, fr)
        else:
            a = np.abs(a)
            a[0, 0] = 4
        meth = sig.pick(rng, methods)
        deft = bool(rng.random() < 0.5)
        yield {"label": kind, "kind": kind, "a": a.tolist(), "fr": fr.tolist(), "fc": fc.tolist(), "method": meth,
               "defm": meth == "rsp" and bool(rng.random() < 0.4), "cplx": bool(rng.random() < 0.4), "deft": deft,
               "ts": list(range(C)) if deft else [int(v) for v in rng.permutation(max(50, C))[:C]], "k": int(sig.pick(rng, [0, 0, -10, 8]))}
