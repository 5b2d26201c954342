"""C14: amplitude modulations."""
import math
import numpy as np
from harness import sig, dec

TRACE = "TraceAM"
WHAT = ("every sample of every envelope mapped through the inverse of its shape to an integer distance from the "
        "centre and compared with the specification's sample grid, defaults included")
ASSUMES = ["math.log / exp accurate to 1e-9", "squared spreads and four times the centres are integers"]
DESIGN = [("EnvDesign", "EnvDesign.cfg")]
SHARDS = 4
SHAPES = ["gauss", "bilat", "unilat", "rect", "triang"]


def SCENARIOS(tier, seed):
    return [("EnvDesign", "EnvGen.cfg", ())]


def base(case):
    n = case["n"]
    return {"shape": case["shape"], "n": n, "deft0": case["t0"] is None, "defT": case["T2"] is None,
            "p": 0 if case["t0"] is None else case["t0"][0], "q": 1 if case["t0"] is None else case["t0"][1],
            "T2": case["T2"] or 0, "usedT2": 4 * n if case["T2"] is None else case["T2"], "obs": [], "flat": True,
            "deep": False}


def execute(case):
    import tftb.generators as G
    b = base(case)
    n, q = b["n"], b["q"]
    T2 = b["usedT2"]
    T = math.sqrt(T2)
    f = {"gauss": G.amgauss, "bilat": G.amexpos, "unilat": G.amexpos, "rect": G.amrect, "triang": G.amtriang}[case["shape"]]
    kw = {}
    if case["t0"] is not None:
        p = case["t0"][0] / case["t0"][1]
        kw["t0"] = int(p) if case["t0"][1] == 1 and not case.get("float") else p
    if case["T2"] is not None:
        kw["spread"] = T
    if case["shape"] == "unilat":
        kw["kind"] = "unilateral"
    elif case["shape"] == "bilat" and case.get("float"):
        kw["kind"] = "bilateral"
    if case.get("positional") and len(kw) == 2 and "kind" not in kw:
        y = f(n, kw["t0"], kw["spread"])
    else:
        y = f(n, **kw)
    y = np.asarray(y)
    rec = {"flat": y.ndim == 1 and not np.iscomplexobj(y), "obs": []}
    if not rec["flat"]:
        return rec
    y = y.astype(float)
    out = []
    for v in y:
        if case["shape"] == "rect":
            out.append(dec.one(v))
        elif not math.isfinite(v) or v < 0 or v > 1 + 1e-12:
            out.append(dec.NOTINT)
        elif v < 1e-300:
            out.append(-1)
        elif case["shape"] == "gauss":
            out.append(dec.one(-math.log(v) * T2 * q * q / math.pi))
        elif case["shape"] == "bilat":
            out.append(dec.one(-math.log(v) * T * q / math.sqrt(2 * math.pi)))
        elif case["shape"] == "unilat":
            out.append(dec.one(-math.log(v) * T * q / math.sqrt(math.pi)))
        else:
            L = T * math.sqrt(10 / math.pi) / 2
            out.append(-1 if v < 1e-12 else dec.one((1 - v) * L * q))
    rec["obs"] = out
    rec["deep"] = True
    return rec


def weight(case):
    return 5 + case["n"]


def cases(tier, rng, scen):
    for s in scen:
        yield {"label": "enumerated", "shape": s["shape"], "n": s["n"], "t0": None if s["deft0"] else [s["p"], 2],
               "T2": None if s["defT"] else s["T2"]}
    for j in range(700 if tier == "quick" else 20000):
        n = int(rng.integers(1, 60)) if rng.random() < 0.6 else int(sig.pick(rng, [64, 65, 100, 127, 128, 160, 255, 256, 290]))
        q = int(sig.pick(rng, [1, 1, 1, 2, 4]))
        t0 = None if rng.random() < 0.3 else [int(rng.integers(-q * 3, q * (n + 4))), q]
        if t0 is not None and rng.random() < 0.3:
            t0 = [int(sig.pick(rng, [0, q, q * n, q * (n - 1)])), q]
        T2 = None if rng.random() < 0.3 else int(sig.pick(rng, [1, 2, 4, 9, 10, 25, 64, 100, 400, 900, 1600, int(rng.integers(1, 400))]))
        yield {"label": "random", "shape": SHAPES[j % 5], "n": n, "t0": t0, "T2": T2, "float": bool(rng.random() < 0.5),
               "positional": bool(rng.random() < 0.3)}
