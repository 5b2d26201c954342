"""C18: composite signals."""
import math
import numpy as np
from harness import sig, dec

TRACE = "TraceSyn"
WHAT = ("atoms (envelope and tone of every sample decoded to integers), superposition, mixing ratios as exact "
        "rationals, wavelets' length, energy and spectra, power-law group delays (law and spectral phase), passing "
        "emitters and dilations, each judged by the specification")
ASSUMES = ["fixed-point tables resolve phases to about 1e-5 turn; dilations are judged on Gaussian pulses inside the band"]
DESIGN = [("SynDesign", "SynDesign.cfg")]
SHARDS = 6
BIG = 10 ** 8


def SCENARIOS(tier, seed):
    return [("SynDesign", "SynGen.cfg", ())]


def base(case):
    c = {k: v for k, v in case.items() if k not in ("label", "s1", "s2", "rows")}
    for key, v in dict(n=1, p=0, q=1, a=0, M=2, T2=1, neg=False, x=[], y=[], e=0, root=1, g=0, deg2=0, r=8, h=1, tc=0,
                       deft0=False, D2=1, floor=0, gen="").items():
        c.setdefault(key, v)
    if case["kind"] == "atom":
        c["neg"] = case["A"] < 0
    c.pop("A", None)
    if case["kind"] == "merge":
        c["x"], c["y"] = case["s1"]["v"], case["s2"]["v"]
    if case["kind"] == "gd":
        r = abs(c["r"])
        lnu = -(-c["n"] // 2)
        c["ltol"] = 4 + r * 2 + (r * lnu // 2 if c["deg2"] in (0, -2) else 0) + (r * c["n"] // 8 + 2 if c["deg2"] == 1 else 0) \
            + (2 * r * 4 if c["deg2"] == 6 else 0) + (r * c["n"] // 100 + 2 if c["deg2"] == -1 else 0) + (r if c["deg2"] == 5 else 0)
        c["ptol"] = 6 + 3 * r + (2 * r if c["deg2"] == 1 else 0) + (8 * r if c["deg2"] in (4, 6, 3, 5) else 0)
    c.update(len=-1, energy=0, d=[], ph=[], res=0, off=0, hp=[0, 1], lnx=[], sym=0, peak=0, mean=0, mom2=0, law=[], nu=[],
             sph=[], mod6=[], am4=[], mod=[], corr=0, band=10 ** 6, dc=0)
    for key in ("ltol", "ptol"):
        c.setdefault(key, 0)
    return c


def length(y):
    return int(y.shape[0]) if y.ndim == 1 else -1


def turns(z):
    z = np.where(np.isfinite(z), z, 1)
    return [int(v) for v in np.rint(np.angle(z) / (2 * np.pi) * 1e6)]


def execute(case):
    import tftb.generators as G
    c = base(case)
    kind, n = c["kind"], c["n"]
    if kind == "atom":
        A = case["A"]
        row = np.array([c["p"] / float(c["q"]), c["a"] / float(c["M"]), math.sqrt(c["T2"]), float(A)])
        co = row if case.get("flat") else row.reshape(1, -1)
        co.flags.writeable = False
        y = np.asarray(G.atoms(n, co))
        with np.errstate(all="ignore"):
            u = -np.log(np.abs(y) / abs(A)) * c["T2"] / np.pi
        z = np.abs(y) < 1e-200
        d = np.array(dec.ints(np.where(z, 0, u), 1, 1e-6), dtype=int)
        ph = np.array(dec.phase(np.where(z, 1, y / np.where(z, 1, np.abs(y))), 2 * c["M"], 1e-6))
        return {"len": length(y), "d": np.where(z, -1, d).tolist(), "ph": ph.tolist()}
    if kind == "atoms":
        co = np.array(case["rows"], dtype=float)
        co.flags.writeable = False
        y = np.asarray(G.atoms(n, co))
        s = sum(np.asarray(G.atoms(n, r.reshape(1, -1))) for r in co)
        return {"len": length(y), "res": dec.fix(np.max(np.abs(y - s)) / (1 + np.max(np.abs(s))), 1e9)}
    if kind == "merge":
        x1, x2 = sig.arr(case["s1"]), sig.arr(case["s2"])
        r = c["e"] * 10.0 / c["root"]
        if case.get("intratio") and r == int(r):
            r = int(r)
        y = np.asarray(G.sigmerge(x1, x2) if case.get("defr") else G.sigmerge(x1, x2, r))
        diff = y.astype(complex) - x1
        h = np.vdot(x2.astype(complex), diff) / np.vdot(x2, x2).real
        off = np.max(np.abs(diff - h.real * x2)) / (1 + np.max(np.abs(diff)))
        single = np.result_type(x1, x2) in (np.float32, np.complex64)
        hp = dec.rat(h.real ** (2 * c["root"]) if h.real > 0 else -1, 4000, 1e-10)
        return {"len": length(y), "off": dec.fix(off, 1e6), "hp": hp}
    if kind == "wave":
        if case["gen"] == "altes":
            fmin, fmax = c["p"] / 100.0, c["q"] / 100.0
            y = np.asarray(G.altes(n, fmin, fmax, float(case["alpha"])) if not case.get("deff") else G.altes(n))
            F = np.abs(np.fft.rfft(y)) ** 2
            f = np.arange(F.size) / float(n)
            band = F[(f >= fmin - 1.5 / n) & (f <= fmax + 1.5 / n)].sum() / F.sum() if n >= 32 else 1
            return {"len": length(y), "energy": dec.fix(np.sum(np.abs(y) ** 2), 1e6), "band": dec.fix(band, 1e6)}
        y = np.asarray(G.klauder(n, c["g"] / (2 * math.pi), c["p"] / float(c["q"])))
        X = np.fft.fft(np.fft.ifftshift(y))
        m = n // 2
        # relative to the mirror-symmetric spectrum: its value at zero, its imaginary parts
        dc = float(np.max(np.abs(np.hstack(([X[0]], X.imag)))) / np.max(np.abs(X)))
        with np.errstate(all="ignore"):
            ln = np.log(X[1:m + 1].real / X[1].real)
        top = np.max(np.abs(X))
        ok = np.abs(X[1:m + 1]) > 1e-7 * top
        lnx = np.where(ok, np.clip(np.where(np.isfinite(ln), ln, 90) * 1e6, -9e7, 9e7), BIG)
        if not (np.abs(X[1]) > 1e-7 * top):
            lnx = []
        return {"len": length(y), "energy": dec.fix(np.sum(np.abs(y) ** 2), 1e6), "lnx": [int(round(v)) for v in lnx],
                "dc": dec.fix(dc, 1e6)}
    if kind == "mexhat":
        nu = c["p"] / float(c["q"])
        y = np.asarray(G.mexhat(nu)) if not case.get("defnu") else np.asarray(G.mexhat())
        L = y.shape[0]
        t = np.arange(L) - (L - 1) / 2.0
        return {"len": length(y), "sym": dec.fix(np.max(np.abs(y - y[::-1])) / np.max(np.abs(y)), 1e9),
                "peak": dec.fix(y[L // 2] / (nu * math.sqrt(math.pi) / 2), 1e6),
                "mean": dec.fix(np.sum(y), 1e6), "mom2": dec.fix(-np.sum(y * t * t) * 2 * math.pi ** 2 * nu ** 2, 1e6)}
    if kind == "gd":
        y, law, nu = G.gdpower(n, c["deg2"] / 2.0, c["r"] / 8.0)
        y, law, nu = np.asarray(y), np.asarray(law), np.asarray(nu)
        lnu = -(-n // 2)
        X = np.fft.fft(y)[:lnu]
        rec = {"len": length(y), "energy": dec.fix(np.sum(np.abs(y) ** 2), 1e6), "mean": dec.fix(np.abs(np.mean(y)), 1e6),
               "law": dec.fix(law, 1e4), "nu": dec.ints(nu * 2 * lnu), "sph": turns(X)}
        with np.errstate(all="ignore"):
            m6 = (np.abs(X) / np.abs(X[min(1, lnu - 1)])) ** (6 if c["deg2"] % 2 == 0 else 12)
        rec["mod6"] = [dec.rat(v, 40000, 1e-11) if np.isfinite(v) else [-1, 1] for v in m6]
        if c["deg2"] == 2:                       # the pulse: no power law
            rec["mod6"] = [[-1, 1]] * lnu
        return rec
    if kind == "dop":
        fs = case["fs"]
        kw = {} if c["deft0"] else {"t0": c["tc"] / float(c["h"])}
        if not case.get("defw"):
            kw["v_wave"] = fs * c["q"] / float(c["p"])
        else:
            fs = 340.0 * c["p"] / c["q"]
        fm, am, law = G.doppler(n, fs, fs * (c["a"] / 1000.0 if c["a"] else 1e-9), math.sqrt(c["D2"]), fs, **kw)
        fm, am, law = np.asarray(fm), np.asarray(am), np.asarray(law)
        ok = fm.shape == am.shape == law.shape == (n,)
        if not ok:
            return {}
        return {"len": n, "am4": dec.ints(1 / am ** 4 * c["h"] ** 2), "mod": dec.ints(np.abs(fm), 1, 1e-9), "ph": turns(fm),
                "law": dec.fix(law, 1e6)}
    # dilation of a Gaussian pulse
    from tftb.generators.utils import scale
    a = c["p"] / float(c["q"])
    T, f0, ctr = n / 4.0, case["f"] / 100.0, n // 2 + case["ctr"]
    t = np.arange(n)
    x = np.exp(-np.pi * ((t - ctr) / T) ** 2) * np.cos(2 * np.pi * f0 * (t - ctr) + case["ph"])
    y = np.asarray(scale(x, a if not case.get("inta") else int(a), 0.03, 0.48, 2 * n))
    m = int(math.ceil(n / 2.0 * a))
    tt = (np.arange(len(y)) - m) / a + (n + n % 2) // 2 - ctr
    e = np.exp(-np.pi * (tt / T) ** 2) * np.exp(1j * (2 * np.pi * f0 * tt + case["ph"]))
    corr = np.vdot(e, y).real / np.linalg.norm(e) / np.linalg.norm(y) if len(y) == 2 * m else 0
    return {"len": length(y), "energy": dec.fix(np.sum(np.abs(y) ** 2) / np.sum(x ** 2), 1e6), "corr": dec.fix(corr, 1e6)}


def weight(case):
    return 5 + case.get("n", 1)


def cases(tier, rng, scen):
    for s in scen:
        yield {"label": "enumerated-atom", "kind": "atom", "n": s["n"], "p": s["p"], "q": 2, "a": s["a"], "M": 4,
               "T2": int(sig.pick(rng, [1, 2, 4, 9, 30])), "A": float(sig.pick(rng, [1, -1, 2.5])), "neg": False}
    big = tier != "quick"
    for j in range(150 * (12 if big else 1)):
        n = int(rng.integers(1, 40)) if rng.random() < 0.8 else int(sig.pick(rng, [64, 100, 128]))
        M = int(sig.pick(rng, [4, 8, 10, 100, 64, 6]))
        q = int(sig.pick(rng, [1, 2, 4, 10]))
        yield {"label": "atom", "kind": "atom", "n": n, "p": int(rng.integers(-2 * q, q * (n + 3))), "q": q,
               "a": int(rng.integers(-1, M // 2 + 2)), "M": M, "T2": int(sig.pick(rng, [1, 2, 9, 16, 50, 400, 1024])),
               "A": float(sig.pick(rng, [1, -1, 0.5, -3, 1.22])), "flat": bool(rng.random() < 0.3)}
    for j in range(60 * (10 if big else 1)):
        n = int(rng.integers(1, 70))
        rows = [[float(rng.integers(-4, 4 * n + 8)) / 4, float(rng.integers(-10, 60)) / 100, float(rng.integers(1, 40)),
                 float(rng.integers(-5, 6))] for _ in range(int(rng.integers(1, 6)))]
        yield {"label": "atoms", "kind": "atoms", "n": n, "rows": rows}
    for j in range(120 * (10 if big else 1)):
        n = int(rng.integers(1, 5))
        root = int(sig.pick(rng, [1, 1, 2]))
        e = int(rng.integers(-2, 3)) if root == 1 else int(sig.pick(rng, [-1, 1]))
        s1 = sig.signal(rng, n, "rand", 2, scale=0, dtype="complex128")
        s2 = sig.signal(rng, n, "rand", 2, scale=0, dtype="complex128")
        if not any(a or b for a, b in s2["v"]):
            s2["v"][0] = [1, 0]
        if not any(a or b for a, b in s1["v"]):
            s1["v"][0] = [1, 1]
        if root == 2 and n > 2:
            continue
        c = {"label": "merge", "kind": "merge", "s1": s1, "s2": s2, "root": root, "e": e, "intratio": bool(rng.random() < 0.5),
             "defr": root == 1 and e == 0 and bool(rng.random() < 0.5)}
        yield c
    for j in range(30 * (10 if big else 1)):
        # long signals: most samples zero, so that the energies stay small integers
        n = int(sig.pick(rng, [16, 50, 64, 100, 127, 128, 129, 255, 256, 257, 300]))
        v = [[[0, 0] for _ in range(n)] for _ in range(2)]
        for u in v:
            for t in rng.choice(n, int(rng.integers(1, 4)), replace=False):
                u[t] = [int(sig.pick(rng, [-2, -1, 1, 2])), int(rng.integers(-1, 2))]
        e = int(rng.integers(-2, 3))
        yield {"label": "merge-long", "kind": "merge", "s1": {"v": v[0], "dtype": "complex128", "layout": "c", "k": 0},
               "s2": {"v": v[1], "dtype": "complex128", "layout": "c", "k": 0}, "root": 1, "e": e,
               "intratio": bool(rng.random() < 0.5), "defr": e == 0 and bool(rng.random() < 0.5)}
    for n in list(range(4, 40)) + [63, 64, 65, 100, 127, 128, 255, 256]:
        yield {"label": "altes", "kind": "wave", "gen": "altes", "n": n, "p": int(rng.integers(5, 20)),
               "q": int(rng.integers(30, 51)), "alpha": int(sig.pick(rng, [100, 300, 1000, 10000]))}
        yield {"label": "altes-default", "kind": "wave", "gen": "altes", "n": n, "p": 5, "q": 50, "alpha": 300, "deff": True}
        p, q = [(1, 5), (1, 4), (1, 8), (3, 10), (2, 5)][int(rng.integers(0, 5))]
        yield {"label": "klauder", "kind": "wave", "gen": "klauder", "n": n, "g": int(rng.integers(10, 60)), "p": p, "q": q}
        p, q = [(1, 5), (1, 20), (1, 3), (9, 20), (1, 50)][int(rng.integers(0, 5))]
        yield {"label": "klauder-faint", "kind": "wave", "gen": "klauder", "n": n, "g": int(sig.pick(rng, [1, 2, 3, 5, 8])), "p": p, "q": q}
    for p, q in [(1, 2), (1, 4), (1, 8), (1, 16), (1, 32), (1, 64), (3, 8), (3, 16), (3, 32), (5, 16), (5, 32), (7, 16), (7, 64),
                 (5, 64), (3, 64), (11, 64), (1, 128), (1, 256)]:
        yield {"label": "mexhat", "kind": "mexhat", "p": p, "q": q, "n": 1}
    yield {"label": "mexhat-default", "kind": "mexhat", "p": 1, "q": 20, "n": 1, "defnu": True}
    for n in list(range(4, 25)) + [30, 31, 32, 40, 63, 64]:
        for deg2 in (4, 6, 0, -2, 1, 2, -1, 3, 5):
            for r in ([8, int(sig.pick(rng, [4, 12, -8, -4, 16]))]):
                if (n > 24 and deg2 == 6) or (n % 2 and deg2 % 2) or (n > 16 and deg2 in (3, 5)):
                    continue
                yield {"label": "gd%d" % deg2, "kind": "gd", "n": n, "deg2": deg2, "r": r}
    for j in range(100 * (10 if big else 1)):
        n = int(rng.integers(2, 15))
        h = 1
        deft0 = bool(rng.random() < 0.3)
        if deft0 and n % 2:
            h, n = 2, min(n, 13)
        if deft0:
            tc = 0
            reach = h * n - (h * n) // 2
        else:
            tc = int(rng.integers(1, n + 1))
            reach = max(tc - 1, n - tc)
        D2 = int(rng.integers(1, max(2, (300 - reach * reach) // (h * h))))
        c = {"label": "doppler", "kind": "dop", "n": n, "deft0": deft0, "h": h, "tc": tc, "D2": D2, "a": int(rng.integers(1, 501)) if rng.random() < 0.9 else 0,
             "p": int(rng.integers(1, 9)), "q": int(rng.integers(9, 30)), "fs": float(sig.pick(rng, [1.0, 8.0, 200.0])),
             "defw": bool(rng.random() < 0.2)}
        yield c
    for j in range(14 * (8 if big else 1)):
        n = int(sig.pick(rng, [64, 65, 66, 67, 70, 81, 96, 100, 128]))
        p, q = [(1, 1), (1, 1), (3, 2), (2, 1), (3, 1), (5, 4)][int(rng.integers(0, 6))]
        yield {"label": "dilation", "kind": "scale", "n": n, "p": p, "q": q, "inta": q == 1 and bool(rng.random() < 0.5),
               "f": int(rng.integers(17, 27)), "ctr": int(rng.integers(-3, 4)), "ph": float(rng.integers(0, 6)), "floor": 999000}
