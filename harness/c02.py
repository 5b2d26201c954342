"""C02: the short-time Fourier transform."""
from harness import sig, lag, win
from harness.lag import lengths, bins, labels

TRACE = "TraceLag"
WHAT = ("STFT columns decoded by inverse DFT to Gaussian-integer kernels and compared, entry by entry, with "
        "the specification's x[t+tau] conj(w[c+tau])")
ASSUMES = ["NumPy's FFT and arithmetic are trusted to 1e-7", "window not longer than the number of bins"]
DESIGN = [("Sweep", "Sweep_stft.cfg"), ("Sweep", "Sweep_stft_deep.cfg", "thorough")]
SHARDS = 7


def SCENARIOS(tier, seed):
    return [("Sweep", "SweepGen_stft.cfg", ())]


def execute(case):
    return win.execute(case) if case.get("trace") == "TraceWin" else lag.execute(case)


def base(case):
    return win.base(case) if case.get("trace") == "TraceWin" else lag.base(case)


def weight(case):
    return 40 + case["N"] * case["n"] if case.get("trace") == "TraceWin" else lag.weight(case)


def cases(tier, rng, scen):
    for s in scen:
        yield {"label": "enumerated", "kind": "stft", "x": sig.signal(rng, s["N"], "rand"), "n": s["n"],
               "w": sig.window(rng, s["wl"], sig.pick(rng, ["rand", "complex"])), "ts": None}
    R = 420 if tier == "quick" else 12000
    for j in range(R):
        N = lengths(rng, tier)
        n = bins(rng, N)
        nn = n or N
        wl = int(sig.pick(rng, [1, 2, 3, nn, nn, max(1, nn - 1), max(1, nn // 2), int(rng.integers(1, nn + 1))]))
        c = {"label": "random", "kind": "stft", "x": sig.signal(rng, N), "n": n, "w": sig.window(rng, min(wl, nn)),
             "ts": labels(rng, N), "positional": bool(rng.random() < 0.3), "reruns": int(rng.random() < 0.1)}
        if rng.random() < 0.15:
            c["x"]["layout"] = sig.pick(rng, ["row", "col"])
        yield c
    for N, n in [(256, 64), (300, 301), (512, 32), (40, 1024), (1000, 16), (1025, 33), (2048, 8), (3, 2049),
                 (257, None), (512, 512)]:
        cols = sorted({0, 1, N - 1, N // 2} | {int(v) for v in rng.integers(0, N, 6)})
        yield {"label": "large", "kind": "stft", "x": sig.signal(rng, N, "rand", dtype="complex128"), "n": n,
               "w": sig.window(rng, min(n or N, 61)), "ts": None, "cols": [t for t in cols if t < N]}
    yield from win.cases_for(["stft"], rng, 25 if tier == "quick" else 200)
