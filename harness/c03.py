"""C03: the spectrogram."""
import numpy as np
from harness import sig, lag, dec
from harness.lag import lengths, bins

TRACE = "TraceSpec"
WHAT = ("spectrogram columns decoded by inverse DFT to rational circular autocorrelations and compared with the "
        "specification's normalised autocorrelation, at every requested instant")
ASSUMES = ["NumPy's FFT and arithmetic are trusted to 1e-9", "half length below n/2 - 1/2, n >= 2"]
DESIGN = [("Sweep", "Sweep_stft.cfg"), ("SpecDesign", "SpecDesign.cfg")]
SHARDS = 7


def SCENARIOS(tier, seed):
    return [("SpecDesign", "SpecGen.cfg", ())]


def base(case):
    b = lag.base(case)
    N = b["N"]
    ts = case.get("ts")
    b["inst"] = ts["v"] if ts is not None else list(range(N))
    if case.get("cols") is not None:
        b["inst"] = case["cols"]
    b.update(g=[1], neg=0, real=True, obs=[], shape=[0, 0])
    return b


def execute(case):
    b = base(case)
    obj = lag.build(case)
    tfr, ts, freqs = obj.run()
    tfr = np.asarray(tfr)
    k = case["x"].get("k", 0)
    rec = {"shape": list(tfr.shape), "real": not np.iscomplexobj(tfr), "neg": int(np.sum(~(tfr >= 0))), "obs": []}
    want = len(b["inst"]) if case.get("cols") is None else b["N"]
    if tfr.ndim != 2 or tfr.shape != (b["n"], want):
        return rec
    m = np.fft.ifft(tfr, axis=0) / 2.0 ** (2 * k)
    md = 1200
    if case.get("cols") is not None:
        rec["shape"] = [b["n"], len(case["cols"])]
        m = m[:, case["cols"]]
    rec["obs"] = [dec.crat(m[:, j], md, 1e-11) for j in range(m.shape[1])]
    return rec


def weight(case):
    b = base(case)
    return 20 + b["n"] * min(b["n"], len(b["w"])) * len(b["inst"])


def instants(rng, N):
    r = rng.random()
    if r < 0.4:
        return None
    if r < 0.55:
        v = list(range(0, N, int(rng.integers(1, 4))))
    elif r < 0.7:
        v = [int(t) for t in rng.permutation(N)]
    elif r < 0.85:
        v = [int(t) for t in rng.integers(0, N, int(rng.integers(1, N + 1)))]
    else:
        a = int(rng.integers(0, N))
        v = list(range(a, N))
    return {"v": v, "dtype": str(sig.pick(rng, ["int64", "int64", "int32"]))}


def cases(tier, rng, scen):
    for s in scen:
        yield {"label": "enumerated", "kind": "spec", "x": sig.signal(rng, s["N"], "rand"), "n": s["n"],
               "w": sig.window(rng, s["wl"], sig.pick(rng, ["rand", "complex"]), amp=2, single=False), "ts": None}
    R = 350 if tier == "quick" else 8000
    for j in range(R):
        N = int(rng.integers(2, 21)) if rng.random() < 0.75 else int(sig.pick(rng, [24, 25, 31, 32, 33, 40, 41]))
        n = bins(rng, N)
        nn = n or N
        if nn < 2:
            n = nn = 2
        if nn > 48:
            n = nn = int(sig.pick(rng, [47, 48]))
        hmax = nn // 2 - 1 if nn % 2 == 0 else (nn - 3) // 2
        hmax = max(0, hmax)
        h = int(sig.pick(rng, [0, hmax, hmax, int(rng.integers(0, hmax + 1))]))
        wl = 2 * h + 1 + int(rng.random() < 0.3)
        c = {"label": "random", "kind": "spec", "x": sig.signal(rng, N), "n": n, "w": sig.window(rng, wl, amp=2, single=False),
             "ts": instants(rng, N), "positional": bool(rng.random() < 0.3)}
        if rng.random() < 0.1:
            c["x"]["layout"] = sig.pick(rng, ["row", "col"])
        yield c
    for N, n in [(256, 24), (300, 35), (1000, 16), (1025, 33), (2048, 8), (7, 260), (128, 128), (65, None)]:
        cols = sorted({0, 1, N - 1, N // 2} | {int(v) for v in rng.integers(0, N, 4)})
        hm = max(0, (n or N) // 2 - 1)
        yield {"label": "large", "kind": "spec", "x": sig.signal(rng, N, "rand", dtype="complex128"), "n": n,
               "w": sig.window(rng, 2 * min(hm, 12) + 1, amp=2, single=False), "ts": None, "cols": [t for t in cols if t < N]}
