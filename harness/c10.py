"""C10: time and frequency localisation."""
import numpy as np
from harness import sig, dec

TRACE = "TraceMom"
WHAT = ("moments returned for integer signals and integer spectra, decoded to the exact integers E*mean and E^2*variance "
        "and compared with the specification's accumulator walking the density")
ASSUMES = ["rational moments; signals up to 64 samples"]
DESIGN = [("MomDesign", "MomDesign.cfg")]
SHARDS = 4


def SCENARIOS(tier, seed):
    return [("MomDesign", "MomGen.cfg", ())]


def base(case):
    return {"how": case["how"], "v": case["s"]["v"], "E": sum(a * a + b * b for a, b in case["s"]["v"])
            * (len(case["s"]["v"]) if case["how"] == "freq-signal" else 1), "mean": 0, "var": 0}


def execute(case):
    from tftb.processing.freq_domain import locfreq
    from tftb.processing.time_domain import loctime
    b = base(case)
    s = case["s"]
    n = len(s["v"])
    if case["how"] == "freq-spectrum":
        x = np.fft.ifft(np.array([complex(p, q) for p, q in s["v"]]))
        if s.get("k"):
            x = x * 2.0 ** s["k"]
        if s["layout"] == "row":
            x = x.reshape(1, -1)
        elif s["layout"] == "col":
            x = x.reshape(-1, 1)
        elif s["layout"] == "readonly":
            x.flags.writeable = False
    else:
        x = sig.arr(s)
    mean, spread = (loctime if case["how"] == "time" else locfreq)(x)
    tol = 3e-5 if s["dtype"] in ("complex64", "float32") else 1e-9
    u = 1.0 if case["how"] == "time" else float(n)
    E = b["E"]
    return {"mean": dec.one(mean * u * E, 1, tol), "var": dec.one(spread ** 2 / (4 * np.pi) * u * u * E * E, 1, tol)}


def weight(case):
    return 2 + len(case["s"]["v"])


def cases(tier, rng, scen):
    plain = {"dtype": "complex128", "layout": "c", "k": 0}
    for j, s in enumerate(scen):
        lay = ["c", "row", "col", "readonly"][j % 4]
        for how in ("time", "freq-signal"):
            yield {"label": "enumerated-" + how, "how": how, "s": dict(plain, v=s["v"], layout=lay)}
    for j in range(500 if tier == "quick" else 12000):
        how = ["time", "freq-spectrum"][j % 2]
        n = int(rng.integers(1, 12)) if rng.random() < 0.6 else int(rng.integers(12, 40))
        amp = 3 if n < 12 else 1
        s = sig.signal(rng, n, None, amp, dtype="complex128" if how != "time" else None)
        if s["dtype"] in ("complex64", "float32"):
            s["v"] = s["v"][:6]
        if how == "time":
            if s["layout"] == "c":
                s["layout"] = sig.pick(rng, ["c", "row", "col"])
        else:
            s["layout"] = sig.pick(rng, ["c", "row", "col", "readonly"])
        if not any(a or b for a, b in s["v"]):
            s["v"][-1] = [1, 0]
        E = sum(a * a + b * b for a, b in s["v"])
        if E * E * len(s["v"]) ** 2 > 2 ** 29:
            s["v"] = [[0, 0] if (t % 5) else p for t, p in enumerate(s["v"])]
            s["v"][-1] = [1, -1]
        E = sum(a * a + b * b for a, b in s["v"])
        if E * E * len(s["v"]) ** 2 > 2 ** 29:
            continue
        yield {"label": how, "how": how, "s": s}
    for j in range(40 if tier == "quick" else 800):
        # long signals: a few samples far apart, or a constant stretch
        how = ["time", "freq-spectrum"][j % 2]
        n = int(sig.pick(rng, [64, 100, 127, 128, 129, 150, 255, 256, 257, 300, 511, 512, 1000, 1025]))
        v = [[0, 0] for _ in range(n)]
        if n <= 150 and rng.random() < 0.3:
            v = [[1, 0] for _ in range(n)] if rng.random() < 0.5 else [[0, (-1) ** t] for t in range(n)]
        else:
            for t in rng.choice(n, int(rng.integers(1, 5)), replace=False):
                v[t] = [int(rng.integers(-2, 3)), int(rng.integers(-1, 2))]
        if rng.random() < 0.5:
            v[-1] = [1, 0]
        E = sum(a * a + b * b for a, b in v)
        if not E or E * E * n * n > 2 ** 29:
            continue
        yield {"label": "long-" + how, "how": how, "s": dict(plain, v=v, layout=sig.pick(rng, ["c", "row", "col", "readonly"]))}
