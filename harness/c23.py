"""C23: window derivative and default windows."""
import numpy as np
from harness import sig, dec, win

TRACE = "TraceDer"
WHAT = ("derivatives of integer windows decoded to exact integers; default windows of every distribution read off the "
        "distribution of a constant or an impulse and decoded to Hamming-window indices")
ASSUMES = ["windows of at least two samples"]
DESIGN = [("DerDesign", "DerDesign.cfg")]
SHARDS = 6
REAS = {"re:pseudo_wigner_ville": "pwv", "re:pseudo_margenau_hill": "pmh", "re:pseudo_page": "ppage"}


def SCENARIOS(tier, seed):
    return [("DerDesign", "DerGen.cfg", ())]


def base(case):
    if case.get("trace") == "TraceWin":
        return win.base(case)
    return {"w": case["w"]["v"], "obs": []}


def execute(case):
    if case.get("trace") == "TraceWin":
        return win.execute(case)
    from tftb.processing.utils import derive_window
    w = sig.arr(case["w"])
    L = len(case["w"]["v"])
    d = np.asarray(derive_window(w)) * 2.0 ** (-case["w"]["k"])
    if d.ndim != 1:
        return {}
    return {"obs": dec.cints(d * 2 * (L - 1), 1, 1e-5 if case["w"]["dtype"] == "float32" else 1e-8)}


def weight(case):
    return 40 + case["N"] * case["n"] if case.get("trace") == "TraceWin" else 3 + len(case["w"]["v"])


def cases(tier, rng, scen):
    for s in scen:
        yield {"label": "enumerated", "w": {"v": [[a, 0] for a in s["w"]], "dtype": "float64", "layout": "c", "k": 0}}
    for j in range(300 if tier == "quick" else 6000):
        L = int(rng.integers(2, 40)) if rng.random() < 0.9 else int(rng.integers(40, 300))
        w = sig.window(rng, L, None, 5)
        if w["dtype"] == "float64" and rng.random() < 0.2:
            w["k"] = int(sig.pick(rng, [-30, 7, 30]))
        yield {"label": "derivative", "w": w}
    R = 6 if tier == "quick" else 60
    yield from win.cases_for(["stft", "pwv", "pmh", "ppage"], rng, R)
    sizes = [4, 5, 7, 8, 9, 11, 12, 13, 16, 20, 23, 24, 28, 31, 32, 40, 64]
    for j in range(R):
        n = int(sig.pick(rng, sizes))
        N = int(rng.integers(max(8, n // 2), 2 * n + 9))
        yield {"label": "default-spwv-lag", "trace": "TraceWin", "kind": "full", "how": "smoothed", "N": N, "n": n}
        yield {"label": "default-spwv-time", "trace": "TraceWin", "kind": "full", "how": "smoothed-time", "N": N, "n": n, "div": 10}
        for how, kind in REAS.items():
            m = int(sig.pick(rng, [v for v in sizes if v >= 12]))
            yield {"label": "default-" + how, "trace": "TraceWin", "kind": kind, "how": how, "N": N, "n": m}
        m = int(sig.pick(rng, [v for v in sizes if v >= 12]))
        yield {"label": "default-re-spwv-time", "trace": "TraceWin", "kind": "full", "how": "re-smoothed-time",
               "N": int(rng.integers(m, 2 * m)), "n": m, "div": 4}
        m = int(sig.pick(rng, [v for v in sizes if v >= 12]))
        yield {"label": "default-re-spwv-lag", "trace": "TraceWin", "kind": "full", "how": "re-smoothed",
               "N": int(rng.integers(m, 2 * m)), "n": m}
        m = int(sig.pick(rng, [v for v in sizes if v >= 8]))
        yield {"label": "default-re-spectrogram", "trace": "TraceWin", "kind": "stft", "how": "re-spec", "N": m, "n": m}
    large = [100, 101, 128, 129, 200, 255, 256, 257]
    for j in range(1 if tier == "quick" else 10):          # long default windows
        for kind in ("stft", "pwv", "pmh", "ppage"):
            n = int(sig.pick(rng, large))
            yield {"label": "long-default-" + kind, "trace": "TraceWin", "kind": kind, "how": "object", "N": int(rng.integers(70, 140)), "n": n,
                   "default_n": False}
        n = int(sig.pick(rng, large))
        yield {"label": "long-default-spwv-lag", "trace": "TraceWin", "kind": "full", "how": "smoothed", "N": int(rng.integers(70, 140)), "n": n}
        n = int(sig.pick(rng, large))
        yield {"label": "long-default-spwv-time", "trace": "TraceWin", "kind": "full", "how": "smoothed-time", "N": int(rng.integers(70, 140)),
               "n": n, "div": 10}
        for how, kind in REAS.items():
            n = int(sig.pick(rng, large))
            yield {"label": "long-default-" + how, "trace": "TraceWin", "kind": kind, "how": how, "N": int(rng.integers(70, 140)), "n": n}
        n = int(sig.pick(rng, large[:4]))
        yield {"label": "long-default-re-spectrogram", "trace": "TraceWin", "kind": "stft", "how": "re-spec", "N": n, "n": n}
