"""C11: instantaneous frequency and group delay."""
import numpy as np
from harness import sig, dec

TRACE = "TraceIF"
WHAT = ("instantaneous frequencies of signals with rational phases and arbitrary amplitudes, decoded to whole phase steps "
        "and compared with the specification's oscillator; group delays of integer signals at quarter frequencies as "
        "exact rationals, of impulses and impulse pairs at every frequency")
ASSUMES = ["a group delay exactly on the limits 1 or N+3 may round either way unless the arithmetic is exact"]
DESIGN = [("OscDesign", "OscDesign.cfg")]
SHARDS = 5


def SCENARIOS(tier, seed):
    return [("OscDesign", "OscGen.cfg", ())]


def base(case):
    c = {"kind": case["kind"], "v": [], "ph": [], "M": 1, "t": [], "n": case["n"], "at": [], "s2": [], "exact": False, "deft": False,
         "want": 0, "obs": [], "tt": [], "len": -1, "lenwant": case["n"]}
    for k in ("v", "ph", "M", "t", "at", "exact", "deft", "want", "lenwant"):
        if k in case:
            c[k] = case[k]
    return c


def shape(x, lay):
    if lay == "row":
        return x.reshape(1, -1)
    if lay == "col":
        return x.reshape(-1, 1)
    if lay == "readonly":
        x.flags.writeable = False
    return x


def execute(case):
    from tftb.processing.freq_domain import inst_freq, group_delay
    kind = case["kind"]
    if kind == "if":
        x = np.array(case["amp"]) * np.exp(2j * np.pi * np.array(case["ph"]) / case["M"])
        if case["M"] == 4:
            x = np.array(case["amp"]) * np.array([1, 1j, -1, -1j])[np.array(case["ph"])]
        x = shape(x.astype(case["dtype"]), case["lay"])
        if case["deft"]:
            f, t = inst_freq(x)
        else:
            f, t = inst_freq(x, shape(np.array(case["t"], dtype=int), case["tlay"]))
        f, t = np.asarray(f), np.asarray(t)
        if f.ndim != 1 or t.ndim != 1:
            return {}
        tol = 1e-3 if case["dtype"] == "complex64" else 1e-8
        return {"obs": dec.ints(f * 2 * case["M"], 1, tol), "tt": dec.ints(t)}
    x = np.array([complex(a, b) for a, b in case["v"]])
    if all(b == 0 for _, b in case["v"]) and case.get("real"):
        x = x.real
    x = shape(x, case["lay"])
    n = case["n"]
    if kind == "gd":
        if case["grid"] == "default":
            g = np.asarray(group_delay(x))
            ln = len(g) if g.ndim == 1 else -1
            # ascending frequencies -n//2 .. : frequency q/4 sits at index q n/4 + n//2 (mod n)
            g = np.array([g[((q * n) // 4 + n // 2) % n] for q in case["at"]])
        else:
            f = np.array([q / 4.0 for q in case["at"]])
            g = np.asarray(group_delay(x, f))
            ln = len(g) if g.ndim == 1 else -1
        d = np.array([np.sum(np.array([complex(*p) for p in case["v"]]) * np.array([1, -1j, -1, 1j])[(q * np.arange(n)) % 4])
                      for q in case["at"]])
        s2 = np.rint(np.abs(d) ** 2)
        return {"obs": [dec.one(a * b, 1, 1e-8) if b else 0 for a, b in zip(g, s2)], "s2": [int(b) for b in s2], "len": ln}
    if case["grid"] == "default":
        g = np.asarray(group_delay(x))
        f = np.fft.fftshift(np.fft.fftfreq(n))
    else:
        f = np.array(case["f"])
        g = np.asarray(group_delay(x, f))
    ln = len(g) if g.ndim == 1 else -1
    if kind == "twin":
        a, b = [j for j in range(n) if x.ravel()[j] != 0]
        keep = np.abs(1 + np.exp(-2j * np.pi * f * (b - a))) > 1e-3
        g = g[keep]
    return {"obs": dec.ints(2 * g, 1, 1e-7), "len": ln}


def weight(case):
    return 3 + case["n"]


def cases(tier, rng, scen):
    lays = ["c", "row", "col", "readonly"]
    for j, s in enumerate(scen):
        n = len(s["ph"])
        yield {"label": "enumerated", "kind": "if", "M": 4, "ph": s["ph"], "n": n, "amp": [1.0 + (j + t) % 3 for t in range(n)],
               "deft": True, "t": list(range(2, n)), "lay": lays[j % 4], "dtype": "complex128"}
    for j in range(350 if tier == "quick" else 8000):
        n = int(rng.integers(2, 60)) if rng.random() < 0.85 else int(sig.pick(rng, [64, 127, 128, 129, 255, 256, 257, 300]))
        M = int(sig.pick(rng, [4, 4, 3, 5, 7, 8, 16, 100, 360]))
        deft = bool(rng.random() < 0.4)
        t = list(range(2, n)) if deft else [int(v) for v in rng.integers(2, max(3, n), int(rng.integers(1, 8)))]
        if n < 3 and not deft:
            continue
        ramp = rng.random()
        if ramp < 0.4:
            f = int(rng.integers(0, M))
            ph = [(f * k + 1) % M for k in range(n)]
        elif ramp < 0.6:
            ph = [(k * k) % M for k in range(n)]
        else:
            ph = [int(v) for v in rng.integers(0, M, n)]
        yield {"label": "if", "kind": "if", "M": M, "ph": ph, "n": n, "deft": deft, "t": t,
               "amp": [float(v) for v in rng.integers(1, 9, n) * 2.0 ** float(sig.pick(rng, [0, 0, -20, 20]))],
               "lay": lays[int(rng.integers(0, 4))], "tlay": lays[int(rng.integers(0, 4))],
               "dtype": "complex64" if M <= 16 and rng.random() < 0.15 else "complex128"}
    for j in range(350 if tier == "quick" else 8000):
        n = int(rng.integers(1, 13)) if rng.random() < 0.7 else int(4 * rng.integers(1, 9))
        if rng.random() < 0.08:
            n = int(sig.pick(rng, [64, 100, 128, 129, 256, 257, 300]))
        v = sig.shape_signal(rng, n, sig.pick(rng, ["rand", "real", "nonneg", "sparse", "const", "quad"]), 3)
        grid = sig.pick(rng, ["default", "given"])
        if grid == "default":
            at = [0, 1, 2, 3] if n % 4 == 0 else [0, 2] if n % 2 == 0 else [0]
        else:
            at = [int(q) for q in rng.integers(-2, 4, int(rng.integers(1, 6)))]
        yield {"label": "gd-" + grid, "kind": "gd", "v": v, "n": n, "at": at, "grid": grid, "real": bool(rng.random() < 0.5),
               "lay": lays[int(rng.integers(0, 4))], "lenwant": n if grid == "default" else len(at)}
    for j in range(150 if tier == "quick" else 3000):
        n = int(rng.integers(1, 40)) if rng.random() < 0.8 else int(sig.pick(rng, [64, 100, 127, 128, 255, 256, 257, 300]))
        v = [[0, 0]] * n
        kind = "pulse" if n < 2 or rng.random() < 0.6 else "twin"
        a = [int(u) for u in rng.choice(n, 1 if kind == "pulse" else 2, replace=False)]
        amp = [1, 0] if kind == "twin" else [int(rng.integers(1, 4)), int(rng.integers(-3, 4))]
        if a == [0]:          # exactly on the lower limit: only where any arithmetic is exact
            amp = [int(sig.pick(rng, [1, 2, -1])), 0]
        for u in a:
            v[u] = amp
        grid = sig.pick(rng, ["default", "given"])
        f = [float(u) / 1000 for u in rng.integers(-500, 501, 7)]
        yield {"label": kind, "kind": kind, "v": v, "n": n, "grid": grid, "f": f, "want": 2 * (sum(a) + len(a)) // len(a),
               "lay": lays[int(rng.integers(0, 4))], "lenwant": n if grid == "default" else 7}
