"""Covariance relations between runs (TraceRel): C26, and parts of C06, C08, C09."""
import numpy as np
from harness import sig, lag, dec

OBJ = ("stft", "spec", "wv", "pwv", "mh", "pmh", "page", "ppage")
REASS = {"rspec": "spectrogram", "rpwv": "pseudo_wigner_ville", "rspwv": "smoothed_pseudo_wigner_ville",
         "rpmh": "pseudo_margenau_hill", "rppage": "pseudo_page"}


def compute(case, x):
    """one run of the case's distribution on the array x"""
    kind = case["kind"]
    n = case["n"]
    w = sig.arr(case["w"]) if case.get("w") is not None else None
    if kind == "astft":
        return np.abs(lag.cls("stft")(x, n_fbins=n, **({} if w is None else {"fwindow": w})).run()[0])
    if kind in OBJ:
        kw = {"n_fbins": n}
        if w is not None:
            kw["fwindow"] = w
        return lag.cls(kind)(x, **kw).run()[0]
    if kind == "spwv":
        from tftb.processing.cohen import smoothed_pseudo_wigner_ville as f
        kw = {}
        if w is not None:
            kw["fwindow"] = w
        if case.get("g") is not None:
            kw["twindow"] = sig.arr(case["g"])
        return f(x, freq_bins=n, **kw)
    if kind == "amb":
        from tftb.processing.ambiguity import narrow_band
        return narrow_band(x, n_fbins=n)[0]
    import tftb.processing.reassigned as R
    which = 1 if case.get("moved") else 0
    return getattr(R, REASS[kind])(x, n_fbins=n)[which]


def signals(case):
    x = sig.arr(case["x"])
    op = case["op"]
    if op == "scale":
        a = complex(*case["a"])
        if a.imag == 0 and x.dtype.kind != "c":
            a = a.real
        return [x, (x * a) * 2.0 ** case.get("ka", 0)]
    if op == "shift":
        t = np.arange(len(x))
        return [x, x * np.exp(2j * np.pi * ((case["s"] * t) % case["n"]) / case["n"])]
    if op == "sum":
        y = sig.arr(case["y"])
        return [x, y, x + y]
    if op == "para":
        y = sig.arr(case["y"])
        return [x, y, x + y, x - y]
    if op == "same":
        return [x, sig.arr(case["y"])]
    if op == "delay":
        y = np.zeros_like(x)
        y[case["s"]:] = x[:len(x) - case["s"]]
        return [x, y]
    raise ValueError(op)


def base(case):
    return {"kind": case["kind"], "op": case["op"], "a": case.get("a", [1, 0]), "s": case.get("s", 0),
            "lo": case.get("lo", 0), "hi": case.get("hi", 0), "rows": 0, "cols": 0, "cplx": False, "tol": 3,
            "obs": []}


def execute(case):
    mats = [np.asarray(compute(case, s)) for s in signals(case)]
    if case.get("ka"):                       # undo the power of two, exactly
        mats[1] = mats[1] * 2.0 ** (-case["ka"] * (1 if case["kind"] in ("stft", "astft") else 2))
    cplx = any(np.iscomplexobj(m) for m in mats) and case["kind"] not in REASS
    rec = {"rows": int(mats[0].shape[0]), "cols": int(mats[0].shape[1]) if mats[0].ndim == 2 else -1, "cplx": cplx}
    if any(m.shape != mats[0].shape for m in mats):
        return rec
    top = max([float(np.max(np.abs(m[np.isfinite(m)]))) if m.size else 0 for m in mats] + [1e-300])
    f = 2.0 ** 20 / top if top > 1e-200 else 1.0
    if case["op"] == "same" and case["y"]["dtype"] in ("float32", "complex64"):
        f /= 8                               # single precision arithmetic is allowed its own rounding
    for m in mats:
        m = m * f
        if cplx:
            v = np.empty((m.shape[0], m.shape[1] * 2))
            v[:, 0::2] = m.real
            v[:, 1::2] = m.imag
        else:
            v = m
        rec["obs"] = rec.get("obs", []) + [dec.fix(v.ravel(), 1.0)]
    return rec


def weight(case):
    k = {"sum": 3, "para": 4}.get(case["op"], 2)
    return 10 + 0.5 * k * len(case["x"]["v"]) * case["n"]
