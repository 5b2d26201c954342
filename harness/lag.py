"""Recording of the fixed-grid distributions: shared by C02, C04, C05, C06."""
import numpy as np
from harness import dec, sig

CLASS = {"stft": ("tftb.processing.linear", "ShortTimeFourierTransform"),
         "spec": ("tftb.processing.cohen", "Spectrogram"),
         "wv": ("tftb.processing.cohen", "WignerVilleDistribution"),
         "pwv": ("tftb.processing.cohen", "PseudoWignerVilleDistribution"),
         "mh": ("tftb.processing.cohen", "MargenauHillDistribution"),
         "pmh": ("tftb.processing.cohen", "PseudoMargenauHillDistribution"),
         "page": ("tftb.processing.cohen", "PageRepresentation"),
         "ppage": ("tftb.processing.cohen", "PseudoPageRepresentation")}

INSTANTS = ("spec", "mh", "page")


def cls(kind):
    import importlib
    m, n = CLASS[kind]
    return getattr(importlib.import_module(m), n)


def build(case):
    x = sig.arr(case["x"])
    kw = {}
    if case.get("n") is not None:
        kw["n_fbins"] = case["n"]
    if case.get("w") is not None:
        kw["fwindow"] = sig.arr(case["w"])
    ts = case.get("ts")
    if ts is not None:
        kw["timestamps"] = np.array(ts["v"], dtype=ts.get("dtype", "int64"))
    if case.get("positional"):
        args = [x, kw.get("timestamps"), kw.get("n_fbins"), kw.get("fwindow")]
        return cls(case["kind"])(*args)
    return cls(case["kind"])(x, **kw)


def base(case):
    """what the specification needs to know about the configuration"""
    N = len(case["x"]["v"])
    n = case["n"] if case.get("n") is not None else N
    w = case["w"]["v"] if case.get("w") is not None else [[1, 0]]
    inst = list(range(N))
    if case["kind"] in INSTANTS and case.get("ts") is not None:
        inst = case["ts"]["v"]          # these read their instants as sample numbers
    if case.get("cols") is not None:
        inst = [inst[j] for j in case["cols"]]
    return {"kind": case["kind"], "N": N, "n": n, "x": case["x"]["v"], "w": w, "inst": inst}


def execute(case):
    b = base(case)
    n = b["n"]
    obj = build(case)
    tfr, ts, freqs = obj.run()
    for _ in range(case.get("reruns", 0)):
        tfr, ts, freqs = obj.run()
    tfr = np.asarray(tfr)
    k = case["x"].get("k", 0)
    shape = list(tfr.shape)
    rec = {"shape": shape, "real": not np.iscomplexobj(tfr), "agree": True, "obs": []}
    ncol = b["N"] if case.get("ts") is None else len(case["ts"]["v"])
    if tfr.ndim != 2 or tfr.shape != (n, ncol):
        return rec
    cols = list(range(ncol))
    if case.get("cols") is not None:
        cols = case["cols"]
        rec["shape"] = [n, len(cols)]
    if case["kind"] == "stft":
        m = np.fft.ifft(tfr, axis=0) / 2.0 ** k
        rec["obs"] = [dec.cints(m[:, t]) for t in cols]
    else:
        m = np.fft.ifft(tfr, axis=0) / 2.0 ** (2 * k)
        rec["obs"] = [dec.cints(m[:, t], 4) for t in cols]
    return rec


def weight(case):
    b_n = case["n"] if case.get("n") is not None else len(case["x"]["v"])
    cols = len(case["cols"]) if case.get("cols") is not None else len(case["x"]["v"])
    return 20 + b_n * cols


NS_SMALL = list(range(1, 21))
NS_MED = [23, 24, 25, 31, 32, 33, 36, 37, 40, 41, 47, 48, 49, 63, 64, 65]
NS_BIG = [96, 100, 101, 127, 128, 129, 160]


def lengths(rng, tier):
    r = rng.random()
    if r < 0.6:
        return int(sig.pick(rng, NS_SMALL))
    if r < 0.92:
        return int(sig.pick(rng, NS_MED))
    return int(sig.pick(rng, NS_BIG))


def bins(rng, N):
    r = rng.random()
    if r < 0.3:
        return N
    if r < 0.4:
        return None
    if r < 0.55:
        return max(1, N // 2)
    if r < 0.7:
        return int(rng.integers(1, N + 1))
    if r < 0.85:
        return N + int(rng.integers(1, 6))
    if r < 0.95:
        return 2 * N + int(rng.integers(-1, 2))
    return 4 * N


def labels(rng, N):
    """time labels, one per sample, that are not sample numbers"""
    r = rng.random()
    if r < 0.5:
        return None
    if r < 0.6:
        return {"v": list(range(N)), "dtype": "int64"}
    if r < 0.7:
        return {"v": [t + 5 for t in range(N)], "dtype": "int64"}
    if r < 0.8:
        return {"v": [t * 0.125 for t in range(N)], "dtype": "float64"}
    if r < 0.9:
        return {"v": [-1.0 + 2.0 * t / max(1, N) for t in range(N)], "dtype": "float64"}
    return {"v": [3 * t + 1 for t in range(N)][::-1], "dtype": "int64"}
