"""C09: affine distributions."""
import math
import numpy as np
from harness import sig, dec, rel

TRACE = "TraceAff"
WHAT = ("affine runs on integer signals: axes, reality, in-band energy of the integral, frequency marginal, brightest "
        "instants, and the scalogram's wavelet transform recomputed in fixed point by the specification; amplitude "
        "scaling, sign, layout and imaginary part by relations between runs")
ASSUMES = ["at least 32 samples and bands of moderate ratio for the Bertrand, D-Flandrin and Unterberger distributions",
           "frequency marginals only for smooth in-band pulses and tones"]
DESIGN = [("AffDesign", "AffDesign.cfg")]
SHARDS = 8
CLS = {"scalogram": "Scalogram", "bertrand": "BertrandDistribution", "dflandrin": "DFlandrinDistribution",
       "unterberger": "UnterbergerDistribution"}
BIL = ("bertrand", "dflandrin", "unterberger")


def SCENARIOS(tier, seed):
    return [("AffDesign", "AffGen.cfg", ())]


def build(case, x, whole=False):
    import tftb.processing.affine as A
    kw = {}
    if case.get("f1") is not None:
        kw = {"fmin": case["f1"] / case["fq"], "fmax": case["f2"] / case["fq"]}
        if case.get("side"):
            kw.pop("fmax" if case["side"] == "lo" else "fmin")
    if case.get("nv"):
        kw["n_voices"] = case["nv"]
    if case["kind"] == "scalogram" and case.get("wp") is not None:
        kw["waveparams"] = case["wp"]
    if case["kind"] == "unterberger" and case.get("form"):
        kw["form"] = case["form"]
    if case.get("inst") and not whole:
        kw["timestamps"] = np.array(case["inst"])
    return getattr(A, CLS[case["kind"]])(x, **kw)


def base(case):
    if case.get("trace") == "TraceRel":
        return rel.base(case)
    N = len(case["x"]["v"])
    return {"kind": case["kind"], "N": N, "x": [a for a, _ in case["x"]["v"]], "inst": case.get("inst") or list(range(N)), "nv": case.get("nv") or 0, "f1": case.get("f1") or 0,
            "f2": case.get("f2") or 0, "fq": case.get("fq") or 1, "hasband": case.get("f1") is not None and not case.get("side"),
            "haslo": case.get("f1") is not None and case.get("side") != "hi", "hashi": case.get("f1") is not None and case.get("side") != "lo",
            "mid": (N + N % 2) // 2, "marg": bool(case.get("marg")), "mtol": case.get("marg") or 0,
            "ridge": case.get("t0") is not None, "t0": case.get("t0") or 0, "c0": case.get("c0") or 0,
            "late": case.get("late", 2), "early": case.get("early", 3),
            "def": bool(case.get("vf")), "vf": case.get("vf") or [], "vq": case.get("vq") or 1, "nha": case.get("nha") or [], "nk": case.get("nk") or [],
            "sa": case.get("sa") or [], "mh": [], "vs": case.get("vs") or [], "dtol": case.get("dtol", 80), "form": case.get("form") or "A",
            "shape": [], "real": False, "neg": 0, "ts": [], "fs": [], "rows": [], "e2": 0, "wt": [], "wn": [], "pn": []}


def inter(w):
    v = np.empty((w.shape[0], 2 * w.shape[1]))
    v[:, 0::2], v[:, 1::2] = w.real, w.imag
    return v


def execute(case):
    if case.get("trace") == "TraceRel":
        return relation(case)
    x = sig.arr(case["x"])
    if case.get("imag"):
        x = x + 1j * np.array(case["imag"]).reshape(x.shape)
    o = build(case, x)
    out = o.run()
    tfr, t, f = [np.asarray(a) for a in out[:3]]
    rec = {"shape": [int(v) for v in tfr.shape], "real": bool(tfr.dtype.kind == "f" and np.all(np.isfinite(tfr))),
           "ts": dec.ints(t), "fs": dec.fix(np.asarray(f, float), 80000.0)}
    if not case.get("nv"):
        rec["nv"] = int(tfr.shape[0])
    tfr = np.real(tfr).astype(float)
    rec["neg"] = int(np.sum(tfr < 0))
    top = float(np.max(np.sum(np.abs(tfr), axis=1)))
    e2 = min(14, int(math.floor(math.log2(20000 / top)))) if np.isfinite(top) and top > 1e-200 else 0
    rec["rows"], rec["e2"] = dec.fix(tfr, 2.0 ** e2), e2
    if case["kind"] == "scalogram":
        wt = np.asarray(out[3])
        if wt.shape != tfr.shape:
            rec["shape"] = [-1, -1]
            return rec
        rec["wt"] = dec.fix(inter(wt), 1000.0)
        if case.get("wp") == 0 and case.get("vf"):
            from tftb.generators import mexhat
            hats = [np.asarray(mexhat(a / case["vq"]), float) for a in case["vf"]]
            rec["mh"] = [dec.fix(h, 10000.0) for h in hats]
            rec["nha"] = [(len(h) - 1) // 2 for h in hats]
        rec["wn"] = dec.fix(inter(wt), 1000.0 / max(float(np.max(np.abs(wt))), 1e-300))
        rec["pn"] = dec.fix(tfr, 1000.0 / max(float(np.max(np.abs(tfr))), 1e-300))
    return rec


def relation(case):
    x = sig.arr(case["x"])
    if case.get("inst") or case.get("defaults"):
        y = None
    elif case["op"] == "scale":
        y = x * case["a"][0]
    elif "imag" in case:
        y = x + 1j * np.array(case["imag"])
    else:
        y = sig.arr(case["y"])
    if case.get("defaults"):             # what is left out, against the same given in full
        import tftb.processing.affine as A
        kw = {"fmin": case["f1"] / case["fq"], "fmax": case["f2"] / case["fq"]}
        n = x.size
        full = dict(kw, n_voices=case.get("nv") or n, timestamps=np.array(case["ts"] or range(n)))
        if case["ts"]:
            kw["timestamps"] = np.array(case["ts"])
        if case.get("nv"):
            kw["n_voices"] = case["nv"]
        if case["kind"] == "scalogram":
            full["waveparams"] = math.sqrt(n)
        elif case["kind"] == "unterberger":
            full["form"] = "A"
        ms = [np.asarray(getattr(A, CLS[case["kind"]])(x, **k).run()[0]) for k in (kw, full)]
    elif case.get("inst"):                     # the columns of the full distribution, up to normalisation
        ms = [np.asarray(build(case, x, True).run()[0])[:, case["inst"]], np.asarray(build(case, x).run()[0])]
        if ms[0].shape == ms[1].shape:
            j = np.unravel_index(np.argmax(np.abs(ms[0])), ms[0].shape)
            ms = [m / m[j] for m in ms]
    else:
        ms = [np.asarray(build(case, s).run()[0]) for s in (x, y)]
    rec = {"rows": int(ms[0].shape[0]), "cols": int(ms[0].shape[1]) if ms[0].ndim == 2 else -1, "cplx": bool(np.iscomplexobj(ms[0]))}
    if ms[0].shape != ms[1].shape:
        return rec
    top = max([float(np.max(np.abs(m))) for m in ms] + [1e-300])
    f = 2.0 ** 20 / top / (8 if case.get("y", {}).get("dtype") == "float32" else 1)
    rec["obs"] = [dec.fix(m.ravel(), f) for m in ms]
    return rec


def weight(case):
    N = len(case["x"]["v"])
    nv = case.get("nv") or N
    if case.get("trace") == "TraceRel":
        return 10 + 2 * N * nv
    return 10 + N * nv * 0.4 + (N * nv if case.get("marg") else 0) + (N * sum(case["nha"]) * 3 + N * N if case.get("vf") else 0) + N * N


NS = [36, 40, 45, 48, 60]
BANDS = [(2, 8, 20), (1, 4, 10), (1, 5, 16), (3, 9, 20), (2, 7, 16), (1, 3, 8), (3, 7, 20)]
TIE = 2e-9


def band_ok(f, q, N):
    return (2 * f * (N - 2)) % q != 0 or (f * (N - 2)) % q == 0


def pulse(rng, N, f1, f2, fq, p=None):
    """Gaussian pulse well inside the band, integer valued"""
    t = np.arange(N)
    p = N // 2 if p is None else p
    a, b = f1 / fq, f2 / fq
    fc = a + (b - a) * rng.uniform(0.45, 0.6)
    s = max(N / 12, 0.5 / (b - a) * 1.2)
    ph = rng.uniform(0, 2 * np.pi)
    return [[int(v), 0] for v in np.rint(40 * np.exp(-((t - p) / s) ** 2 / 2) * np.cos(2 * np.pi * fc * (t - p) + ph))]


def pulses(rng, N, f1, f2, fq, n, w=1.0):
    """sum of Gaussian pulses inside the band, anywhere in the middle half; their frequencies"""
    t = np.arange(N)
    a, b = f1 / fq, f2 / fq
    x, fs = np.zeros(N), []
    for j in range(n):
        p, fc = int(rng.integers(N // 4, N - N // 4 + 1)), a + (b - a) * rng.uniform(0.35, 0.55)
        s = w * rng.uniform(0.8, 1.2) / (b - a) if w == 1.0 else w / (b - a)
        x = x + 40 * np.exp(-((t - p) / s) ** 2 / 2) * np.cos(2 * np.pi * fc * (t - p) + rng.uniform(0, 2 * np.pi))
        fs.append(fc)
    return [[int(v), 0] for v in np.rint(x)], fs


def tone(rng, N, f1, f2, fq):
    a, b = f1 / fq, f2 / fq
    fc = a + (b - a) * rng.uniform(0.35, 0.65)
    ph = rng.uniform(0, 2 * np.pi)
    return [[int(v), 0] for v in np.rint(20 * np.cos(2 * np.pi * fc * np.arange(N) + ph))]


def desc(v, dtype="float64", layout="c", k=0):
    return {"v": v, "dtype": dtype, "layout": layout, "k": k}


VOICES = [  # fmin, fmax over q; voices; frequencies over vq; scales
    (1, 4, 10, 3, [1, 2, 4], 10, [4, 2, 1]),
    (1, 2, 6, 2, [1, 2], 6, [2, 1]),
    (1, 4, 12, 3, [1, 2, 4], 12, [4, 2, 1]),
    (1, 4, 9, 3, [1, 2, 4], 9, [4, 2, 1]),
    (1, 3, 8, 2, [1, 3], 8, [3, 1]),
    (1, 8, 18, 4, [1, 2, 4, 8], 18, [8, 4, 2, 1]),
    (1, 9, 20, 3, [1, 3, 9], 20, [9, 3, 1]),
    (1, 16, 40, 5, [1, 2, 4, 8, 16], 40, [16, 8, 4, 2, 1])]


def instants(rng, N):
    """increasing instants, at least two of them; None: all"""
    how = int(rng.integers(0, 6))
    if how < 3:
        return None
    if how == 3:
        a = int(rng.integers(0, N // 2))
        return list(range(a, int(rng.integers(a + 2, N + 1))))
    if how == 4:
        return list(range(int(rng.integers(0, 3)), N, int(rng.integers(2, 5))))
    return sorted(int(v) for v in rng.permutation(N)[:int(rng.integers(2, N))])


def scalodef(rng, N=None, x=None):
    while True:
        f1, f2, fq, nv, vf, vq, sa = VOICES[int(rng.integers(0, len(VOICES)))]
        K = 48 // int(sig.pick(rng, [1, 2, 3, 4, 6, 12])) if rng.random() < 0.6 else int(rng.integers(3, 61))
        if all(K % a == 0 and K // a not in (32, 96) for a in sa) and (x is None or (band_ok(f1, fq, N) and band_ok(f2, fq, N))):
            break
    wp = 48 // K if 48 % K == 0 else 48.0 / K
    nk = [K // a for a in sa]
    N = N or int(sig.pick(rng, [12, 15, 16, 18, 20, 24, 30, 36]))
    if not (band_ok(f1, fq, N) and band_ok(f2, fq, N)):
        N = 36 if band_ok(f1, fq, 36) and band_ok(f2, fq, 36) else 16
    x = x or sig.shape_signal(rng, N, str(sig.pick(rng, ["real", "real", "impulse", "nonneg", "sparse"])), 4)
    x = [[a, 0] for a, _ in x]
    while len(set(a for a, _ in x)) < 2:
        x[int(rng.integers(0, len(x)))] = [3, 0]
    c = {"kind": "scalogram", "inst": instants(rng, N), "x": desc(x, str(sig.pick(rng, ["float64", "float64", "int64"])), str(sig.pick(rng, sig.LAYOUTS + ["row", "col"]))),
         "f1": f1, "f2": f2, "fq": fq, "nv": nv, "wp": wp, "vf": vf, "vq": vq, "nha": [int(round(48.0 / k)) for k in nk], "nk": nk, "sa": sa,
         "label": "wavelet-transform"}
    if rng.random() < 0.2:                   # Mexican hat
        c["wp"] = 0
    if rng.random() < 0.25:
        c["imag"] = [int(v) for v in rng.integers(-3, 4, len(x))]
    return c


def cases(tier, rng, scen):
    q = tier == "quick"
    for s in scen:
        N = 12
        yield scalodef(rng, N, [[a, 0] for a in s["x"]] + [[0, 0]] * (N - len(s["x"])))
    for j in range(30 if q else 700):
        yield scalodef(rng)
    for j in range(10 if q else 300):
        # default width and Mexican hat: axes, positivity, proportionality, energy
        N = int(sig.pick(rng, [16, 24, 30, 36, 40]))
        b = sig.pick(rng, [v for v in BANDS if band_ok(v[0], v[2], N) and band_ok(v[1], v[2], N)])
        yield {"label": "scalogram", "kind": "scalogram", "x": desc(sig.shape_signal(rng, N, "real", 4)[:-1] + [[3, 0]]),
               "f1": int(b[0]), "f2": int(b[1]), "fq": int(b[2]), "nv": int(sig.pick(rng, [4, 8, 13])),
               "wp": sig.pick(rng, [None, 0, 5]), "inst": instants(rng, N)}
    for kind in CLS:
        for j in range(3 if q else 60):      # very wide bands: axes, reality, energy
            N = int(sig.pick(rng, NS))
            b = [(1, 100, 250), (1, 120, 250), (2, 180, 400), (1, 60, 140), (1, 200, 400)]
            b = [v for v in b if band_ok(v[0], v[2], N) and band_ok(v[1], v[2], N)]
            b = [int(v) for v in b[int(rng.integers(0, len(b)))]]
            c = {"kind": kind, "f1": b[0], "f2": b[1], "fq": b[2], "nv": int(sig.pick(rng, [16, 24])), "label": "wide-" + kind,
                 "x": desc(sig.shape_signal(rng, N, "real", 4)[:-1] + [[3, 0]]), "inst": instants(rng, N)}
            yield c
        for j in range(10 if q else 250):
            N = int(sig.pick(rng, NS))
            ok = [v for v in BANDS if band_ok(v[0], v[2], N) and band_ok(v[1], v[2], N)]
            b = ok[int(rng.integers(0, len(ok)))]
            c = {"kind": kind, "f1": int(b[0]), "f2": int(b[1]), "fq": int(b[2]),
                 "nv": int(sig.pick(rng, [8, 16, 16, 24, 32])), "label": kind}
            if kind == "unterberger":
                c["form"] = str(sig.pick(rng, ["A", "P"]))
            how = j % 5
            if how == 0:
                c["inst"] = instants(rng, N)
                c["x"] = desc(sig.shape_signal(rng, N, "real", 4)[:-1] + [[3, 0]])
            elif how in (1, 2, 3):
                p = N // 2 + (0 if how == 1 else int(rng.integers(-(N // 4), N // 4 + 1)))
                c["x"] = desc(pulse(rng, N, *b, p=p))
                if kind in BIL:
                    c["nv"] = int(sig.pick(rng, [24, 32]))
                c["t0"], c["late"], c["early"] = p, 1, 1
                if kind in BIL and how == 1:
                    c["marg"] = 8
            else:
                c["x"] = desc(tone(rng, N, *b))
                if kind in BIL and c["nv"] >= 24:
                    c["marg"] = 10
            yield c
        for j in range(((15 if kind == "unterberger" else 9) if q else 240) if kind in BIL else 0):     # the distribution's definition
            N = int(sig.pick(rng, NS))
            ok = [v for v in BANDS if band_ok(v[0], v[2], N) and band_ok(v[1], v[2], N)]
            b = [int(v) for v in ok[int(rng.integers(0, len(ok)))]]
            nv = 32 if N < 48 else 48
            c = {"kind": kind, "f1": b[0], "f2": b[1], "fq": b[2], "nv": nv, "label": "definition-" + kind,
                 "form": str(sig.pick(rng, ["A", "P"])), "inst": list(range(int(rng.integers(0, 3)), N, int(sig.pick(rng, [1, 2])))) if j % 3 == 0 else None}
            c["dtol"] = 60
            if j % 3 == 2:                   # wide band, one pulse: the weights are seen
                N, nv = int(sig.pick(rng, [40, 45, 48])), 48
                b = [v for v in ([1, 9, 20], [1, 16, 40], [1, 8, 18]) if band_ok(v[0], v[2], N) and band_ok(v[1], v[2], N)]
                if kind == "unterberger" or not b:
                    N, b = 45, [[1, 16, 40]]
                b = b[int(rng.integers(0, len(b)))]
                if j % 2:
                    c["inst"] = None
                c.update(f1=b[0], f2=b[1], fq=b[2], nv=nv, dtol=24, form="AP"[j % 2])
            v, fc = pulses(rng, N, *b, 1 + j % 2 * (j % 3 < 2), (0.7 if kind == "unterberger" else 0.8) if j % 3 == 2 else 1.0)
            c["x"] = desc(v, "float64", str(sig.pick(rng, ["c", "c", "row", "col"])))
            c["vs"] = sorted({min(nv, max(1, 1 + int(round((nv - 1) * math.log(max(g, b[0] / b[2]) * b[2] / b[0]) / math.log(b[1] / b[0])))))
                              for f in fc for d in ((-0.12, 0, 0.12) if c["dtol"] > 30 else (-0.25, -0.12, 0, 0.12, 0.25))
                              for g in [f + d * (b[1] - b[0]) / b[2]]})
            yield c
        for j in range(6 if q else 80):      # default band and number of voices
            N = int(sig.pick(rng, [36, 40, 48]))
            b = BANDS[int(rng.integers(0, len(BANDS)))]
            c = {"kind": kind, "label": "default-" + kind, "x": desc(pulse(rng, N, *b), "float64", str(sig.pick(rng, ["c", "row", "col"])))}
            if rng.random() < 0.5:
                c["nv"] = 8
            if j % 2:                        # one end of the band given, the other not
                c["f1"], c["f2"], c["fq"] = b
                c["side"] = str(sig.pick(rng, ["lo", "hi"]))
                c["label"] = "half-default-" + kind
            yield c
        for j in range(6 if q else 100):
            N = int(sig.pick(rng, [32, 33, 40]))
            c = {"trace": "TraceRel", "kind": kind, "f1": 1, "f2": 4, "fq": 10, "nv": 8, "n": 8, "label": "relation-" + kind,
                 "x": desc(sig.shape_signal(rng, N, "real", 4)[:-1] + [[3, 0]])}
            if j % 3 == 0:
                c["op"], c["a"] = "scale", [int(sig.pick(rng, [-1, -1, 2, -3, 5])), 0]
            elif j % 3 == 1:
                c["op"], c["imag"] = "same", [int(v) for v in rng.integers(-3, 4, N)]
            else:
                c["op"] = "same"
                c["y"] = dict(c["x"], dtype=str(sig.pick(rng, ["int64", "float32", "complex128", "int32"])),
                              layout=str(sig.pick(rng, sig.LAYOUTS + ["row", "col"])))
            yield c
        for j in range(3 if q else 40):
            N = int(sig.pick(rng, [32, 33, 40, 45]))
            nv = 8 if kind in BIL else [0, 8, 0][j % 3]
            yield {"trace": "TraceRel", "kind": kind, "f1": 1, "f2": 4, "fq": 10, "nv": nv, "n": nv or N,
                   "label": "defaults-" + kind, "op": "same", "defaults": True, "ts": instants(rng, N) if j else None,
                   "x": desc(sig.shape_signal(rng, N, "real", 4)[:-1] + [[3, 0]])}
        for j in range(4 if q else 60):
            N = int(sig.pick(rng, [32, 33, 40]))
            inst = None
            while not inst:
                inst = instants(rng, N)
            yield {"trace": "TraceRel", "kind": kind, "f1": 1, "f2": 4, "fq": 10, "nv": 8, "n": 8, "label": "instants-" + kind,
                   "op": "same", "inst": inst, "x": desc(sig.shape_signal(rng, N, "real", 4)[:-1] + [[3, 0]])}
