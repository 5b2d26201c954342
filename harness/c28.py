"""C28: plots of instantaneous frequency laws."""
import numpy as np
from harness import sig, dec

TRACE = "TraceIfl"
WHAT = ("every pair of short laws over negative, zero, positive and undefined values enumerated by TLC plus random laws, "
        "instants and signals, in histories of one to three calls, the figure read back at the moment it is displayed and "
        "judged by the specification")
ASSUMES = ["at least two different instants and one defined value", "matplotlib draws the lines it reports"]
DESIGN = [("IflDesign", "IflDesign.cfg")]
SHARDS = 2
UND = 10 ** 9


def SCENARIOS(tier, seed):
    return [("IflDesign", "IflGen.cfg", ())]


def setup():
    import matplotlib
    matplotlib.use("Agg")


def base(case):
    return {"calls": [{"laws": o["laws"], "ts": o["ts"], "sig": [a for a, _ in o["sig"]], "grid": bool(o["grid"])}
                      for o in case["calls"]], "obs": []}


def codes(y):
    y = np.ma.filled(np.ma.asarray(y).astype(float), np.nan)
    return [UND if np.isnan(v) else int(v) for v in np.where(np.isnan(y), np.nan, np.rint(y * 1000))]


def picture(fig):
    out = []
    for ax in fig.axes:
        p = ax.get_position()
        out.append({"lines": [{"x": dec.ints(np.asarray(l.get_xdata(), float) * 4), "y": codes(l.get_ydata())} for l in ax.lines],
                    "xlim": dec.ints(np.array(ax.get_xlim()) * 4), "ylim": dec.fix(np.array(ax.get_ylim()), 1000),
                    "lab": [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()],
                    "grid": any(g.get_visible() for g in ax.xaxis.get_gridlines() + ax.yaxis.get_gridlines()),
                    "span": (p.y0, p.y1)})
    return sorted(out, key=lambda q: -q["span"][0])


def execute(case):
    import matplotlib.pyplot as plt
    from tftb.processing.plotifl import plotifl
    rec = base(case)
    seen = []
    plt.show = lambda *a, **k: seen.append(picture(plt.gcf()))
    plt.close("all")
    other = plt.figure()
    other.add_subplot(111).plot([0, 1], [2, 3])
    before = picture(other)
    for o, q in zip(case["calls"], rec["calls"]):
        L = np.array([[np.nan if v == UND else v / 1000.0 for v in law] for law in o["laws"]])
        if o["whole"] and all(v != UND and v % 1000 == 0 for law in o["laws"] for v in law):
            L = L.astype(int)
        L = L[0] if len(o["laws"]) == 1 and o["flat"] else np.ascontiguousarray(L.T)
        t = np.array(o["ts"]) / 4.0
        if all(v % 4 == 0 for v in o["ts"]):
            t = t.astype(int)
        s = np.array([complex(*p) for p in o["sig"]]) / 1000.0 if o["sig"] else None
        if s is not None and not s.imag.any() and o["whole"]:
            s = s.real
        keep = [None if a is None else a.copy() for a in (L, t, s)]
        kw = {} if o["grid"] and not o["saygrid"] else {"grid": o["grid"]}
        known, n0, err = set(plt.get_fignums()), len(seen), ""
        try:
            plotifl(t, L, **dict(kw, **({} if s is None else {"signal": s})))
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
        pan = seen[-1] if len(seen) > n0 else []
        apart = len(pan) < 2 or pan[0]["span"][0] >= pan[1]["span"][1]
        same = all(a is b or (a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)) for a, b in zip(keep, (L, t, s)))
        rec["obs"].append({"err": err[:120], "figs": len(set(plt.get_fignums()) - known), "shows": len(seen) - n0, "same": int(same),
                           "others": int(picture(other) == before), "apart": bool(apart),
                           "panels": [{k: v for k, v in p.items() if k != "span"} for p in pan]})
    plt.close("all")
    return rec


def weight(case):
    return 10 * len(case["calls"])


def call(rng, laws=None, signal=None):
    n = len(laws[0]) if laws else int(rng.integers(2, 30))
    if laws is None:
        lo = int(sig.pick(rng, [0, 0, 0, 1, -1, -500, -40]))
        laws = [[int(v) for v in rng.integers(lo, 501, n)] for _ in range(int(rng.integers(1, 4)))]
        if rng.random() < 0.5:
            laws = [[UND if rng.random() < 0.2 else v for v in law] for law in laws]
        if rng.random() < 0.15:
            laws = [[0] * n for _ in laws]
        if all(v == UND for law in laws for v in law):
            laws[0][0] = 100
    step = int(sig.pick(rng, [4, 4, 1, 6]))
    ts = [int(rng.integers(-8, 20)) + step * j for j in [0]][0]
    ts = [ts + step * j for j in range(n)]
    if rng.random() < 0.2:
        ts = sorted({ts[0] + int(v) for v in rng.integers(0, 400, 3 * n)})[:n] if n < 25 else ts
        while len(ts) < n:
            ts.append(ts[-1] + 1)
    if rng.random() < 0.15:
        ts = [ts[int(j)] for j in rng.permutation(n)]
    s = []
    if signal or (signal is None and rng.random() < 0.5):
        s = [[int(a), int(b)] for a, b in rng.integers(-2000, 2001, (n, 2))]
        if rng.random() < 0.4:
            s = [[a, 0] for a, _ in s]
    return {"laws": laws, "ts": ts, "sig": s, "grid": bool(rng.random() < 0.7), "saygrid": bool(rng.random() < 0.5),
            "flat": bool(rng.random() < 0.7), "whole": bool(rng.random() < 0.5)}


def cases(tier, rng, scen):
    conv = {-1: -100, 0: 0, 2: 200, 9: UND}
    sc = [([[conv[v] for v in law] for law in s["laws"]], s["sig"]) for s in scen]
    for j in range(0, len(sc), 3):
        yield {"label": "enumerated", "calls": [call(rng, l, g) for l, g in sc[j:j + 3]]}
    for j in range(120 if tier == "quick" else 3000):
        yield {"label": "laws", "calls": [call(rng) for _ in range(int(rng.integers(1, 4)))]}
