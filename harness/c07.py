"""C07: the narrow-band ambiguity function."""
import numpy as np
from harness import sig, dec, rel
from harness.lag import lengths

TRACE = "TraceAmb"
WHAT = ("ambiguity columns decoded over Doppler to the lag product and compared entry by entry; lag and Doppler "
        "axes compared exactly")
ASSUMES = ["NumPy's FFT is trusted to 1e-7", "at least as many Doppler bins as samples"]
DESIGN = [("AmbDesign", "AmbDesign.cfg")]
SHARDS = 7


def SCENARIOS(tier, seed):
    return [("AmbDesign", "AmbGen.cfg", ())]


def base(case):
    N = len(case["x"]["v"])
    return {"N": N, "n": case["n"] or N, "x": case["x"]["v"], "deflag": case["lags"] is None,
            "lags": case["lags"] or [], "shape": [], "lagout": [], "xi": [], "obs": [],
            "keep": case.get("cols", [])}


def execute(case):
    from tftb.processing.ambiguity import narrow_band
    b = base(case)
    x = sig.arr(case["x"])
    kw = {}
    if case["lags"] is not None:
        kw["lag"] = np.array(case["lags"], dtype=case.get("ldt", "int64"))
    if case["n"] is not None:
        kw["n_fbins"] = case["n"]
    naf, lag, xi = narrow_band(x, **kw)
    naf = np.asarray(naf)
    rec = {"shape": list(naf.shape), "lagout": dec.ints(np.ravel(lag)), "xi": dec.ints(np.ravel(xi), b["n"], 1e-9)}
    if naf.ndim == 2 and naf.shape[0] == b["n"]:
        m = np.fft.ifft(np.fft.ifftshift(naf, axes=0), axis=0) / 4.0 ** case["x"].get("k", 0)
        rec["obs"] = [dec.cints(m[:, j]) for j in range(m.shape[1])]
    return rec


def weight(case):
    N = len(case["x"]["v"])
    return 20 + (case["n"] or N) * (N if case["lags"] is None else len(case["lags"]))


def cases(tier, rng, scen):
    for s in scen:
        yield {"label": "enumerated", "x": sig.signal(rng, s["N"], "rand"), "n": s["n"],
               "lags": None if s["lag"] == 99 else [s["lag"]]}
    for j in range(300 if tier == "quick" else 8000):
        N = lengths(rng, tier)
        if N > 66:
            N = int(rng.integers(2, 67))
        n = sig.pick(rng, [None, N, N + 1, N + 2, 2 * N, 2 * N + 1, N + int(rng.integers(0, 9))])
        lags = None
        if rng.random() < 0.5:
            lags = [int(v) for v in rng.integers(-N - 1, N + 2, int(rng.integers(1, 7)))]
        yield {"label": "random", "x": sig.signal(rng, N), "n": None if n is None else int(n), "lags": lags,
               "ldt": str(sig.pick(rng, ["int64", "float64", "int32"]))}
    for N, n in [(256, 256), (300, 301), (513, 1024), (1000, None)]:
        yield {"label": "large", "x": sig.signal(rng, N, "rand", dtype="complex128"), "n": n,
               "lags": [0, 1, -1, N // 2 - 1, -(N // 2), int(rng.integers(1, N // 2))]}
