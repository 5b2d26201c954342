"""C27: the wide-band ambiguity function."""
import numpy as np
from harness import sig, dec

TRACE = "TraceWB"
WHAT = ("wide-band ambiguity matrices of integer signals over rational geometric bands recomputed in fixed point; axes, "
        "origin, peak, symmetry and default band over arbitrary signals and bands")
ASSUMES = ["at least two scales", "bands inside (0, 0.5] in which the signal has energy"]
DESIGN = [("WideDesign", "WideDesign.cfg")]
SHARDS = 6
# geometric frequencies F / fq
GRIDS = [([1, 2, 4, 8], 16), ([1, 2, 4, 8], 18), ([1, 3, 9], 18), ([1, 3, 9], 20), ([1, 4], 8), ([4, 6, 9], 18), ([4, 6, 9], 20),
         ([8, 12, 18, 27], 60), ([9, 12, 16], 40), ([27, 36, 48, 64], 144), ([16, 20, 25], 60), ([1, 2, 4, 8, 16], 40),
         ([1, 2, 4, 8, 16, 32], 72), ([2, 3], 8), ([1, 2], 5), ([1, 2, 4], 9), ([2, 6, 18], 40), ([16, 24, 36, 54, 81], 180)]


def SCENARIOS(tier, seed):
    return [("WideDesign", "WideGen.cfg", ())]


def base(case):
    v = case["x"]["v"]
    F = case.get("F") or [1, 1]
    return {"N": len(v), "x": [a for a, _ in v], "exact": bool(case.get("F")), "F": F, "fq": case.get("fq", 1),
            "f1": case.get("f1", F[0]), "f2": case.get("f2", F[-1]), "n": case.get("n") or 0, "haslo": case.get("side") == "lo",
            "hashi": case.get("side") == "hi", "defband": bool(case.get("defband")), "defn": case.get("n") is None,
            "shape": [], "tau": [], "sg": [], "lt": [], "even": False, "obs": [], "e0": 0, "oi": 0, "peak": 0, "herm": False, "fr": 0}


def execute(case):
    from tftb.processing.ambiguity import wide_band
    x = sig.arr(case["x"])
    if case.get("imag"):
        x = x + 1j * np.array(case["imag"])
    if case.get("col"):
        x = x.reshape(-1, 1) if case["col"] == 1 else x.reshape(1, -1)
    kw = {}
    if case.get("F"):
        kw = {"fmin": case["F"][0] / case["fq"], "fmax": case["F"][-1] / case["fq"]}
    elif case.get("band"):
        kw = {"fmin": case["band"][0], "fmax": case["band"][1]}
    elif case.get("side") == "lo":
        kw = {"fmin": case["f1"] / case["fq"]}
    elif case.get("side") == "hi":
        kw = {"fmax": case["f2"] / case["fq"]}
    if case.get("n"):
        kw["N"] = case["n"]
    w, tau, th = [np.asarray(a) for a in wide_band(x, **kw)]
    rec = {"shape": [int(v) for v in w.shape], "tau": dec.ints(tau)}
    if w.ndim != 2 or th.shape != (w.shape[0],):
        return rec
    n = w.shape[0]
    if not case.get("n"):
        rec["n"] = int(n)
    th = th.astype(float)
    rec["sg"] = [int(np.sign(v)) if abs(v) > 1e-12 else 0 for v in th]
    rec["lt"] = dec.fix(np.exp(np.abs(th) / 2), 1e4)
    rec["even"] = bool(np.max(np.abs(np.diff(th) - (th[-1] - th[0]) / (n - 1))) <= 1e-9)
    rec["fr"] = dec.fix(np.exp((th[-1] - th[0]) / 2), 1e4)
    r0, c0 = n // 2, int(np.round(x.size / 2.0))
    o = complex(w[r0, c0]) * 4.0 ** (-case["x"].get("k", 0))
    rec["e0"], rec["oi"] = dec.fix(o.real * n, 100.0), dec.fix(o.imag * n, 100.0)
    with np.errstate(all="ignore"):
        u = w / w[r0, c0]
    rec["peak"] = dec.fix(np.max(np.abs(u)), 1e6)
    m = (n - 1) // 2
    up, dn = u[r0:r0 + m + 1, c0], u[r0 - m:r0 + 1, c0][::-1]
    rec["herm"] = bool(np.max(np.abs(up - np.conj(dn))) <= 1e-9)
    if case.get("F"):
        v = np.empty((n, 2 * w.shape[1]))
        v[:, 0::2], v[:, 1::2] = u.real, u.imag
        rec["obs"] = dec.fix(v, 1000.0)
    return rec


def weight(case):
    N = len(case["x"]["v"])
    return 10 + (N * N * 0.5 + N * len(case["F"]) ** 2 if case.get("F") else N)


def tie(f, q, N):
    return (2 * f * (N - 2)) % q == 0 and (f * (N - 2)) % q != 0


def desc(rng, v, k=0):
    return {"v": v, "dtype": str(sig.pick(rng, ["float64", "float64", "complex128", "int64"])) if k == 0 else "float64",
            "layout": str(sig.pick(rng, sig.LAYOUTS)), "k": k}


def exact(rng, v=None):
    while True:
        F, fq = GRIDS[int(rng.integers(0, len(GRIDS)))]
        N = len(v) if v else int(sig.pick(rng, [8, 9, 10, 12, 15, 16, 18, 20, 24]))
        if not tie(F[0], fq, N) and not tie(F[-1], fq, N):
            break
    if v is None:
        v = [[a, 0] for a, _ in sig.shape_signal(rng, N, str(sig.pick(rng, ["real", "real", "real", "impulse", "nonneg", "sparse"])), 4)]
        if all(a == 0 for a, _ in v) or len({a for a, _ in v}) == 1:
            v[N // 2] = [v[N // 2][0] + 2, 0]
    c = {"label": "definition", "F": F, "fq": fq, "n": len(F), "x": desc(rng, v, int(sig.pick(rng, [0, 0, 0, 0, -9, 11])))}
    if c["x"]["k"] == 0 and rng.random() < 0.2:
        c["imag"] = [int(a) for a in rng.integers(-3, 4, N)]
        c["x"]["dtype"] = "float64"
    if rng.random() < 0.15:
        c["col"], c["x"]["layout"] = int(rng.integers(1, 3)), "c"
    return c


def cases(tier, rng, scen):
    q = tier == "quick"
    for s in scen:
        N = int(sig.pick(rng, [8, 9, 10, 12]))
        at = int(rng.integers(0, N - len(s["x"]) + 1))
        v = [[0, 0]] * at + [[a, 0] for a in s["x"]]
        c = exact(rng, v + [[0, 0]] * (N - len(v)))
        c["label"] = "enumerated"
        yield c
    for j in range(90 if q else 3000):
        yield exact(rng)
    for j in range(60 if q else 2000):       # any band and number of scales
        N = int(rng.integers(8, 60))
        v = [[a, 0] for a, _ in sig.shape_signal(rng, N, "real", 5)]
        v[N // 2] = [v[N // 2][0] + 3, 0]
        a = float(rng.uniform(0.02, 0.3))
        b = float(rng.uniform(a * 1.1 + 0.02, 0.5))
        yield {"label": "any-band", "x": desc(rng, v), "band": [a, b], "n": int(rng.integers(2, 40))}
    for j in range(40 if q else 800):        # default band and number of scales
        N = int(sig.pick(rng, [16, 18, 20, 24, 30, 36, 40, 45, 48, 60, 72]))
        t = np.arange(N)
        f = rng.uniform(0.12, 0.33)
        y = 30 * np.exp(-((t - N / 2) / (N / rng.uniform(6, 14))) ** 2 / 2) * np.cos(2 * np.pi * f * t + rng.uniform(0, 6))
        c = {"label": "default-band", "x": desc(rng, [[int(v), 0] for v in np.rint(y)]), "defband": True}
        if j % 3 == 1:
            c.update(side="lo", f1=5, fq=100, n=int(rng.integers(2, 30)))
        elif j % 3 == 2:
            c.update(side="hi", f2=49, fq=100, n=int(rng.integers(2, 30)))
        elif rng.random() < 0.5:
            c["n"] = int(rng.integers(2, 30))
        yield c
