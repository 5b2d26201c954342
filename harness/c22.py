"""C22: integer utilities."""
import numpy as np
from harness import sig, dec

TRACE = "TraceUtil"
WHAT = ("every integer up to 400 enumerated by TLC plus powers of two and their neighbours up to 2^46, factor pairs up to "
        "2^31, quarter-integer arrays, Zak transforms with Gaussian-integer DFTs and round trips, differences around the "
        "rounding quantum")
ASSUMES = ["integers below 2^46; differences never exactly half way between two rounded values"]
DESIGN = [("UtilDesign", "UtilDesign.cfg")]
SHARDS = 4


def SCENARIOS(tier, seed):
    return [("UtilDesign", "UtilGen.cfg", ())]


def base(case):
    c = {"kind": case["kind"], "v": case.get("v", []), "n": case.get("n", 1), "x": case.get("x", []), "obs": []}
    return c


def whole(v):
    return dec.one(v)


def execute(case):
    import tftb.utils as U
    kind, v = case["kind"], case.get("v", [])
    if kind == "nextpow":
        if case["how"] == "array":
            return {"obs": dec.ints(np.asarray(U.nextpow2(np.array(v, dtype=case["dtype"]))))}
        conv = {"int": int, "float": float, "np": np.int64}[case["how"]]
        return {"obs": [whole(U.nextpow2(conv(a))) for a in v]}
    if kind == "nextpow-big":
        v = [2 ** e + d for e, d in v]
        if case["how"] == "array":
            return {"obs": dec.ints(np.asarray(U.nextpow2(np.array(v, dtype=case["dtype"]))))}
        conv = {"int": int, "float": float, "np": np.int64}[case["how"]]
        return {"obs": [whole(U.nextpow2(conv(a))) for a in v]}
    if kind == "divider":
        out = []
        for a in v:
            r = U.divider(a)
            out.append([whole(b) for b in r])
        return {"obs": out}
    if kind == "odd":
        if case["how"] == "scalar":
            return {"obs": [whole(U.nearest_odd(a // 4 if a % 4 == 0 else a / 4.0)) for a in v]}
        a = np.array(v) / 4.0
        if case["how"] == "int":
            a = np.array(v) // 4
        a.flags.writeable = False
        r = U.nearest_odd(a.tolist() if case["how"] == "list" else a)
        return {"obs": dec.ints(np.asarray(r))}
    if kind == "modulo":
        a = np.array(v) if case["how"] != "list" else list(v)
        if case["how"] == "float":
            a = a.astype(float)
        return {"obs": dec.ints(np.asarray(U.modulo(a, case["n"])))}
    if kind == "cmodulo":
        x = np.array([complex(*p) for p in case["x"]])
        x.flags.writeable = False
        o = dec.cints(np.asarray(U.modulo(x, case["n"])).astype(complex))
        return {"obs": [[o[2 * j], o[2 * j + 1]] for j in range(len(o) // 2)]}
    if kind == "linear":
        d = np.array(v) / 4.0 * 10.0 ** (-case["decimals"])
        x = np.hstack(([case["start"]], case["start"] + np.cumsum(d)))
        if case["whole"]:
            x = np.rint(x * 10.0 ** case["decimals"]).astype(int)
            r = U.is_linear(x)
        else:
            r = U.is_linear(x) if case["decimals"] == 5 and case["defd"] else U.is_linear(x, case["decimals"])
        return {"obs": [1 if bool(r) else 0]}
    if kind == "izak":
        x = np.array([[complex(*p) for p in row] for row in case["x"]])
        n = x.shape[0]
        if case.get("flat"):
            x = x.ravel()
        x.flags.writeable = False
        y = np.asarray(U.izak(x)) * np.sqrt(n)
        o = dec.cints(y)
        return {"obs": [[o[2 * j], o[2 * j + 1]] for j in range(len(o) // 2)]} if y.ndim == 1 else {}
    if kind == "izak-back":
        w = np.array([complex(*p) for p in case["w"]]).reshape(case["rows"], case["cols"])   # sample im + r cols
        x = np.fft.fft(w, axis=0) / np.sqrt(case["rows"])
        o = dec.cints(np.asarray(U.izak(x)))
        return {"obs": o}
    from tftb.processing.utils import get_spectrum
    x = np.array([complex(*p) for p in v])
    return {"obs": dec.ints(np.asarray(get_spectrum(x)))}


def weight(case):
    return 2 + len(case.get("v", [])) / 10.0


def cases(tier, rng, scen):
    ns = sorted(s["n"] for s in scen)
    pows = sorted({v for e in range(1, 31) for v in (2 ** e - 1, 2 ** e, 2 ** e + 1) if v <= 2 ** 30})
    for how in ("int", "float", "np", "array"):
        for dt in (["int64", "float64", "int32"] if how == "array" else [""]):
            yield {"label": "nextpow-" + how, "kind": "nextpow", "v": ns, "how": how, "dtype": dt}
            yield {"label": "nextpow-edges-" + how, "kind": "nextpow", "v": pows, "how": how, "dtype": dt}
    big = [[e, d] for e in range(31, 47) for d in (-2, -1, 0, 1, 2)]
    big += [[int(rng.integers(31, 47)), int(rng.integers(-2 ** 30 + 1, 2 ** 30))] for _ in range(40)]
    for how in ("int", "float", "np", "array"):
        for dt in (["int64", "float64"] if how == "array" else [""]):
            yield {"label": "nextpow-big-" + how, "kind": "nextpow-big", "v": big, "how": how, "dtype": dt}
    for j in range(0, len(ns), 50):
        yield {"label": "divider", "kind": "divider", "v": ns[j:j + 50]}
    for j in range(10 if tier == "quick" else 200):
        v = [int(a) for a in rng.integers(401, 39000, 20)]
        s = int(rng.integers(2, 190))
        yield {"label": "divider", "kind": "divider", "v": v + [s * s, s * (s + 1), s * (s + 2), s * s - 1, s * s + 1]}
    for j in range(12 if tier == "quick" else 300):
        k = int(np.exp(rng.uniform(np.log(200), np.log(46000))))
        yield {"label": "divider-large", "kind": "divider",
               "v": [k * k, k * k + 1, k * k - 1, k * (k + 1), int(rng.integers(40000, 2 ** 31 - 1)), 2 * int(rng.integers(2, 1 << 29))]}
    for how in ("scalar", "int", "list", "array"):
        yield {"label": "odd-" + how, "kind": "odd", "how": how,
               "v": [a for a in range(-40, 60) if how not in ("int",) or a % 4 == 0]}
        v = [int(a) for a in rng.integers(-4000, 4000, 40)]
        yield {"label": "odd-" + how, "kind": "odd", "how": how, "v": [4 * (a // 4) for a in v] if how == "int" else v}
    for n in list(range(1, 20)) + [64, 100, 1000]:
        yield {"label": "modulo", "kind": "modulo", "n": n, "v": [int(a) for a in range(-2 * n, 2 * n + 1)][:400],
               "how": ["array", "list", "float"][n % 3]}
    for j in range(60 if tier == "quick" else 1000):
        x = sig.gauss(rng, int(rng.integers(1, 12)), 30)
        if j % 3 == 0:                               # some entries, or all of them, without imaginary part
            x = [[a, b if rng.random() < 0.5 and j % 2 else 0] for a, b in x]
        yield {"label": "modulo-complex", "kind": "cmodulo", "n": int(rng.integers(1, 20)), "x": x}
    for j in range(150 if tier == "quick" else 3000):
        L = int(rng.integers(1, 12))
        b = 4 * int(rng.integers(-20, 21))
        whole_ = bool(rng.random() < 0.3)
        if whole_:
            v = [b + 4 * (int(rng.integers(-1, 2)) if rng.random() < 0.1 else 0) for _ in range(L)]
        else:
            v = [b + int(sig.pick(rng, [0, 0, 0, 1, -1]) if rng.random() < 0.9 else sig.pick(rng, [3, -3, 4])) for _ in range(L)]
        yield {"label": "linear", "kind": "linear", "v": v, "decimals": int(sig.pick(rng, [5, 5, 2, 3, 0, 7])), "defd": bool(rng.random() < 0.5),
               "whole": whole_, "start": float(rng.integers(-2, 3))}
    for j in range(100 if tier == "quick" else 2000):
        n, m = int(sig.pick(rng, [1, 2, 4])), int(rng.integers(1, 7))
        x = [sig.gauss(rng, m, 4) for _ in range(n)]
        yield {"label": "izak", "kind": "izak", "x": x, "flat": m == 1 and bool(rng.random() < 0.5)}
        n, m = int(rng.integers(1, 13)), int(rng.integers(1, 9))
        w = sig.gauss(rng, n * m, 5)
        yield {"label": "izak-back", "kind": "izak-back", "v": [c for p in w for c in p], "w": w, "rows": n, "cols": m}
        yield {"label": "spectrum", "kind": "spectrum", "v": sig.gauss(rng, int(sig.pick(rng, [1, 2, 4])), 5)}
