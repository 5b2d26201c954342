"""C25: Gabor coefficients and the dual window."""
import numpy as np
from harness import sig, dec

TRACE = "TraceGab"
WHAT = ("every lattice (N, n, q) with N up to 48 enumerated by TLC plus random integer windows and signals: coefficients "
        "against inner products with the returned dual window, the dual window against the frame operator of the "
        "synthesis window, squared moduli, independence of the signal, default factorisations")
ASSUMES = ["dual window compared after rounding to one part in 4096 of its largest sample"]
DESIGN = [("GaborDesign", "GaborDesign.cfg"), ("GaborDesign", "GaborDesign_deep.cfg", "thorough")]
SHARDS = 7


def SCENARIOS(tier, seed):
    return [("GaborDesign", "GaborGen.cfg", ()), ("GaborDesign", "GaborGenLong.cfg", ())]


def base(case):
    return {"x": case["x"]["v"], "w": case["w"]["v"] if case["w"] else [], "n": case["n"], "q": case["q"],
            "defn": case["defn"], "defq": case["defq"], "obs": [], "g": [], "scale": 0, "shapes": [], "gsame": True}


def execute(case):
    from tftb.processing.linear import gabor
    x = sig.arr(case["x"])
    kw = {}
    if not case["defn"]:
        kw["n_coeff"] = case["n"]
    if not case["defq"]:
        kw["q_oversample"] = case["q"]
    if case["w"]:
        w = np.array(case["w"]["v"], dtype=case["w"]["dtype"])
        if case["w"].get("sh"):
            w = w * 2.0 ** -case["w"]["sh"]      # the dual of a scaled window is the dual scaled the other way
        w.flags.writeable = False
        kw["window"] = w
    tfr, d, g = gabor(x, **kw)
    g2 = gabor(np.arange(len(case["x"]["v"])) + 1.0, **kw)[2]
    tfr, d, g = np.asarray(tfr), np.asarray(d), np.asarray(g)
    if case["w"] and case["w"].get("sh"):
        un = 2.0 ** -case["w"]["sh"]
        tfr, d, g, g2 = tfr * un * un, d * un, g * un, g2 * un
    gm = float(np.max(np.abs(g)))
    e = int(np.floor(np.log2(4095.0 / gm))) if np.isfinite(gm) and gm > 0 else 0
    sc = 2.0 ** max(e, 0)
    n, q = case["n"], case["q"]
    if case["defn"]:
        n = d.shape[1]
    if case["defq"]:
        q = d.shape[0] * n // len(case["x"]["v"])
    top = float(np.max(np.abs(d))) or 1.0
    obs = []
    for j in range(d.shape[1]):
        u = d[:, j] / top * 1e4
        obs.append({"d": dec.fix(np.ravel(np.column_stack((d[:, j].real, d[:, j].imag))), 1000 * sc),
                    "u": dec.fix(np.ravel(np.column_stack((u.real, u.imag))), 1),
                    "s": dec.fix(tfr[:, j] / top / top * 1e8, 1) if j < tfr.shape[1] else []})
    return {"obs": obs, "g": dec.fix(g, sc), "scale": int(sc), "gsame": dec.same(g, g2), "n": int(n), "q": int(q),
            "shapes": [int(v) for v in tfr.shape + d.shape]}


def cost(N, n, q):
    return q * N * N + N * (n // q) * (1 + n // 4)


def weight(case):
    return 1 + cost(len(case["x"]["v"]), case["n"], case["q"]) / 3000.0


def make(rng, N, n, q, L=None):
    mb = N // n
    if L is None:
        L = int(sig.pick(rng, [1, mb | 1, (mb + 2) | 1, (2 * mb + 1) | 1, int(rng.integers(1, N + 1)) | 1]))
    if L > N:
        L = N if N % 2 else N - 1
    x = sig.signal(rng, N, None if rng.random() < 0.3 else "rand", scale=0)
    x["v"] = [[max(-3, min(3, a)), max(-3, min(3, b))] for a, b in x["v"]]
    if all(v == [0, 0] for v in x["v"]):
        x["v"][0] = [1, 0]
    if rng.random() < 0.5:
        w = [int(a) for a in rng.integers(-3, 6, L)]
    else:
        w = [1 + min(j, L - 1 - j, 4) for j in range(L)]
        if rng.random() < 0.5:
            w[int(rng.integers(0, L))] += int(rng.integers(1, 4))
    if not any(w):
        w[0] = 1
    return {"label": "gabor", "x": x, "w": {"v": w, "dtype": str(sig.pick(rng, ["float64", "float64", "int64"])),
                                            "sh": int(sig.pick(rng, [0, 0, 0, 30, -20]))},
            "n": n, "q": q, "defn": False, "defq": False}


def cases(tier, rng, scen):
    cap = 40000 if tier == "quick" else 200000
    lat = [(s["N"], s["n"], s["q"]) for s in scen if cost(s["N"], s["n"], s["q"]) <= cap and s["N"] <= 48]
    lng = sorted((s["N"], s["n"], s["q"]) for s in scen if cost(s["N"], s["n"], s["q"]) <= cap and s["N"] > 48)
    for _ in range(10 if tier == "quick" else 100):          # long signals
        N, n, q = lng[int(rng.integers(0, len(lng)))]
        yield dict(make(rng, N, n, q), label="long")
    for N, n, q in sorted(lat):
        yield make(rng, N, n, q)
    for _ in range(120 if tier == "quick" else 4000):
        N, n, q = lat[int(rng.integers(0, len(lat)))]
        yield make(rng, N, n, q)
    for N in (4, 6, 8, 9, 12, 16, 18, 20, 24, 30, 36, 40, 48):
        c = make(rng, N, 1, 1)
        c.update(label="default", w=None, defn=True, defq=True, n=1, q=1)
        yield c
        c = make(rng, N, 1, 1, L=3 if N > 4 else 1)
        c.update(label="default-lattice", defn=True, defq=True, n=1, q=1)
        yield c
        n = max(d for d in range(1, N) if N % d == 0)
        c = make(rng, N, n, 1)
        c.update(label="default-q", defq=True, w=None)
        yield c
