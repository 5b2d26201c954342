"""C04: the Wigner-Ville distribution."""
from harness import sig
from harness.lag import lengths, bins, labels, base, execute, weight  # NOQA

TRACE = "TraceLag"
WHAT = "Wigner-Ville columns decoded by inverse DFT and compared with the centred lag products, Nyquist lag included"
ASSUMES = ["NumPy's FFT and arithmetic are trusted to 1e-7"]
DESIGN = [("Sweep", "Sweep_wv.cfg"), ("Sweep", "Sweep_wv_deep.cfg", "thorough")]
SHARDS = 7


def SCENARIOS(tier, seed):
    return [("Sweep", "SweepGen_wv.cfg", ())]


def cases(tier, rng, scen):
    for s in scen:
        yield {"label": "enumerated", "kind": "wv", "x": sig.signal(rng, s["N"], "rand"), "n": s["n"], "w": None,
               "ts": None}
    R = 450 if tier == "quick" else 12000
    for j in range(R):
        N = lengths(rng, tier)
        n = bins(rng, N)
        c = {"label": "random", "kind": "wv", "x": sig.signal(rng, N), "n": n, "w": None,
             "ts": labels(rng, N), "positional": bool(rng.random() < 0.3), "reruns": int(rng.random() < 0.1)}
        if rng.random() < 0.15:
            c["x"]["layout"] = sig.pick(rng, ["row", "col"])
        yield c
    for N, n in [(256, 64), (300, 301), (512, 32), (40, 1024), (1000, 16), (1025, 33), (2048, 8), (3, 2049),
                 (257, None), (512, 512), (600, 1200)]:
        cols = sorted({0, 1, N - 1, N // 2} | {int(v) for v in rng.integers(0, N, 6)})
        yield {"label": "large", "kind": "wv", "x": sig.signal(rng, N, "rand", dtype="complex128"), "n": n,
               "w": None, "ts": None, "cols": [t for t in cols if t < N]}
