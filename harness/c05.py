"""C05: pseudo and smoothed pseudo Wigner-Ville."""
import numpy as np
from harness import sig, lag, win, dec
from harness.lag import lengths, bins, labels
from harness.c03 import instants

TRACE = "TraceLag"
WHAT = ("pseudo Wigner-Ville columns decoded to windowed lag products; smoothed ones decoded to rationals and "
        "compared with the per-lag renormalised time average")
ASSUMES = ["NumPy's FFT and arithmetic are trusted to 1e-9"]
DESIGN = [("Sweep", "Sweep_pwv.cfg"), ("Sweep", "Sweep_pwv_deep.cfg", "thorough"), ("SmoothDesign", "SmoothDesign.cfg")]
SHARDS = 7


def SCENARIOS(tier, seed):
    return [("Sweep", "SweepGen_pwv.cfg", ()), ("SmoothDesign", "SmoothGen.cfg", ())]


def base(case):
    if case.get("trace") == "TraceWin":
        return win.base(case)
    b = lag.base(case)
    if case["kind"] == "spwv":
        ts = case.get("ts")
        b["inst"] = ts["v"] if ts is not None else list(range(b["N"]))
        b["g"] = [v[0] for v in case["g"]["v"]]
        b.update(neg=0, real=True, obs=[], shape=[0, 0])
    return b


def execute(case):
    if case.get("trace") == "TraceWin":
        return win.execute(case)
    if case["kind"] != "spwv":
        return lag.execute(case)
    from tftb.processing.cohen import smoothed_pseudo_wigner_ville as f
    b = base(case)
    kw = {"twindow": sig.arr(case["g"]), "fwindow": sig.arr(case["w"])}
    if case["n"] is not None:
        kw["freq_bins"] = case["n"]
    if case["ts"] is not None:
        kw["timestamps"] = np.array(case["ts"]["v"], dtype=case["ts"]["dtype"])
    tfr = np.asarray(f(sig.arr(case["x"]), **kw))
    rec = {"shape": list(tfr.shape), "real": not np.iscomplexobj(tfr), "neg": 0, "obs": []}
    if tfr.ndim != 2 or tfr.shape != (b["n"], len(b["inst"])):
        return rec
    m = np.fft.ifft(tfr, axis=0) / 2.0 ** (2 * case["x"].get("k", 0))
    rec["obs"] = [dec.crat(m[:, j], 4 * sum(abs(v) for v in b["g"]) + 4, 1e-11) for j in range(m.shape[1])]
    return rec


def weight(case):
    if case.get("trace") == "TraceWin":
        return 40 + case["N"] * case["n"]
    w = lag.weight(case)
    if case["kind"] == "spwv":
        w *= 2 + len(case["g"]["v"])
    return w


def cases(tier, rng, scen):
    for s in scen:
        if s["kind"] == "pwv":
            yield {"label": "enumerated", "kind": "pwv", "x": sig.signal(rng, s["N"], "rand"), "n": s["n"],
                   "w": sig.window(rng, s["wl"], sig.pick(rng, ["rand", "complex"])), "ts": None}
        else:
            yield {"label": "enumerated-smoothed", "trace": "TraceSpec", "kind": "spwv",
                   "x": sig.signal(rng, s["N"], "rand"), "n": s["n"],
                   "w": sig.window(rng, s["wl"], sig.pick(rng, ["rand", "complex"]), single=False),
                   "g": sig.posreal_window(rng, s["gl"]), "ts": None}
    R = 300 if tier == "quick" else 9000
    for j in range(R):
        N = lengths(rng, tier)
        n = bins(rng, N)
        nn = n or N
        wl = int(sig.pick(rng, [1, 2, 3, nn, nn + 1, nn + 4, 2 * nn + 1, max(1, nn // 2), int(rng.integers(1, nn + 1))]))
        c = {"label": "random", "kind": "pwv", "x": sig.signal(rng, N), "n": n, "w": sig.window(rng, wl),
             "ts": labels(rng, N), "positional": bool(rng.random() < 0.3), "reruns": int(rng.random() < 0.1)}
        if rng.random() < 0.1:
            c["x"]["layout"] = sig.pick(rng, ["row", "col"])
        yield c
    R = 160 if tier == "quick" else 5000
    for j in range(R):
        N = int(rng.integers(1, 17)) if rng.random() < 0.8 else int(sig.pick(rng, [20, 21, 24, 32]))
        n = bins(rng, N)
        nn = n or N
        if nn > 40:
            n = nn = 40 + int(rng.integers(0, 2))
        wl = int(sig.pick(rng, [1, 3, nn | 1, (nn | 1) + 2, (nn // 2) | 1, int(rng.integers(0, nn + 1)) | 1]))
        gl = int(sig.pick(rng, [1, 3, 5, 7, 9]))
        yield {"label": "smoothed", "trace": "TraceSpec", "kind": "spwv", "x": sig.signal(rng, N), "n": n,
               "w": sig.window(rng, wl, single=False), "g": sig.posreal_window(rng, gl), "ts": instants(rng, N)}
    for j in range(R // 4):                  # time windows with coefficients of both signs, no zero partial sum
        N = int(rng.integers(2, 17))
        n = bins(rng, N)
        n = min(n, 40) if n else n
        g = sig.posreal_window(rng, 3)
        g["v"] = [[v, 0] for v in sig.pick(rng, [[-1, 5, -1], [-1, 5, 2], [1, 5, -3], [-1, 2, 6, 2, -1], [-2, -1, 7, 1, -2], [-3, 5, -3],
                                                 [1, -2, 5, -2, 1]])]
        yield {"label": "smoothed-signed", "trace": "TraceSpec", "kind": "spwv", "x": sig.signal(rng, N), "n": n,
               "w": sig.window(rng, 2 * int(rng.integers(0, (n or N) // 2 + 1)) + 1, single=False), "g": g, "ts": instants(rng, N)}
    for N, n in [(256, 64), (300, 301), (512, 32), (1000, 16), (1025, 33), (2048, 8), (3, 2049), (257, None)]:
        cols = sorted({0, 1, N - 1, N // 2} | {int(v) for v in rng.integers(0, N, 6)})
        yield {"label": "large", "kind": "pwv", "x": sig.signal(rng, N, "rand", dtype="complex128"), "n": n,
               "w": sig.window(rng, 41), "ts": None, "cols": [t for t in cols if t < N]}
    for j in range(8 if tier == "quick" else 80):          # smoothing over long signals, at a few instants
        N = int(sig.pick(rng, [100, 128, 129, 256, 257, 300, 1000, 1025]))
        n = int(sig.pick(rng, [8, 9, 16, 17, 24]))
        ts = sorted({0, N - 1, N // 2} | {int(v) for v in rng.integers(0, N, 4)})
        yield {"label": "smoothed-long", "trace": "TraceSpec", "kind": "spwv", "x": sig.signal(rng, N, "rand"), "n": n,
               "w": sig.window(rng, int(sig.pick(rng, [1, n | 1, (n | 1) + 2])), single=False),
               "g": sig.posreal_window(rng, int(sig.pick(rng, [1, 5, 9, 15]))),
               "ts": {"v": ts, "dtype": "int64"}}
    yield from win.cases_for(["pwv"], rng, 25 if tier == "quick" else 200)
    for j in range(20 if tier == "quick" else 200):
        n = int(rng.integers(2, 49))
        N = int(rng.integers(max(2, n // 3), 50))
        yield {"label": "default-smoothed", "trace": "TraceWin", "kind": "full", "how": "smoothed", "N": N, "n": n}
        yield {"label": "default-smoothed-time", "trace": "TraceWin", "kind": "full", "how": "smoothed-time",
               "N": N, "n": n, "div": 10}
