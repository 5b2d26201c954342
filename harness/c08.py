"""C08: reassigned distributions move energy along the field, and lose none."""
import numpy as np
from harness import sig, dec

TRACE = "TraceRea"
WHAT = ("reassigned runs on integer signals and windows; plain values and displacements recomputed in fixed point by "
        "the specification, and the reassigned matrix by replaying the scatter loop along the returned field")
ASSUMES = ["displacements whose fixed-point error bound reaches half a cell are left open",
           "reassigned spectrogram windows have a half length below half the number of bins"]
DESIGN = [("ReassignDesign", "ReassignDesign.cfg"), ("ReassignDesign", "ReassignDesign2.cfg"),
          ("ReassignDesign", "ReassignDesign_deep.cfg", "thorough")]
SHARDS = 8
NAMES = {"pwv": "pseudo_wigner_ville", "pmh": "pseudo_margenau_hill", "ppage": "pseudo_page", "spec": "spectrogram",
         "spwv": "smoothed_pseudo_wigner_ville", "morlet": "morlet_scalogram"}
ONED = ("pwv", "pmh", "ppage")


def SCENARIOS(tier, seed):
    return [("ReassignDesign", "ReassignGen.cfg", ())]


def base(case):
    return {"kind": case["kind"], "N": len(case["x"]["v"]), "n": case["n"], "x": case["x"]["v"],
            "w": case["w"]["v"] if case.get("w") else [[1, 0]] * 3, "g": [a[0] for a in case["g"]["v"]] if case.get("g") else [1],
            "inst": case["inst"], "sg": case.get("sg", 2), "disp": case["disp"], "thrN": 1 if case.get("thr") else 100,
            "thrD": 1000 if case.get("thr") else 1, "shape": [], "real": False, "tq": [], "lv": [], "fr": [], "fc": [],
            "ts": [], "rs": []}


def execute(case):
    import tftb.processing.reassigned as R
    x = sig.arr(case["x"])
    kind, n = case["kind"], case["n"]
    if case.get("default") and case["inst"] == list(range(len(case["x"]["v"]))):
        ts = None
    else:
        ts = np.array(case["inst"])
    kw = {}
    if kind == "spec":
        kw = {"window": sig.arr(case["w"])}
    elif kind == "morlet":
        kw = {"tbp": case["sg"] / n}
    elif kind == "spwv":
        kw = {"fwindow": sig.arr(case["w"]), "twindow": sig.arr(case["g"])}
    else:
        kw = {"fwindow": sig.arr(case["w"])}
    if case.get("deft") and 4 * case["sg"] == n:          # the default time-bandwidth product
        kw.pop("tbp", None)
    if case.get("deft") and n == len(case["x"]["v"]):      # as many bins as samples by default
        n = None
    tfr, rtfr, fld = getattr(R, NAMES[kind])(x, ts, n, **kw)
    tfr, rtfr, fld = np.asarray(tfr), np.asarray(rtfr), np.asarray(fld)
    rec = {"shape": [int(v) for a in (tfr, rtfr, fld) for v in a.shape]}
    if not (tfr.shape == rtfr.shape == fld.shape and tfr.ndim == 2):
        return rec
    top = max(float(np.max(np.abs(tfr))), 1e-300)
    rec["real"] = bool(np.max(np.abs(np.imag(tfr))) <= 1e-9 * top and np.max(np.abs(np.imag(rtfr))) <= 1e-9 * top)
    re, ir = np.real(tfr).astype(float), np.real(rtfr).astype(float)
    inf = ~np.isfinite(np.real(fld).astype(float))
    fz = np.where(inf, 0, fld)
    fr = np.array(dec.ints(np.real(fz).astype(float), 1))
    fc = np.array(dec.ints(np.imag(fz).astype(float), 1)) if kind not in ONED else np.zeros(fr.shape, int)
    fr = np.where(inf, -1, fr)
    fc = np.where(inf, -1, fc)
    lv = np.clip(np.rint(np.abs(re) * (1e3 if case.get("thr") else 1e8)), 0, 30000 if case.get("thr") else 100000)
    s = 2e5 / top if top > 1e-200 else 1.0
    rec["tq"] = dec.fix(re.T, 100.0)
    rec["lv"] = lv.T.astype(int).tolist()
    rec["fr"], rec["fc"] = fr.T.tolist(), fc.T.tolist()
    rec["ts"], rec["rs"] = dec.fix(re.T, s), dec.fix(ir.T, s)
    return rec


def weight(case):
    n, c = case["n"], len(case["inst"])
    if not case["disp"]:
        return 5 + 0.3 * n * c
    return 5 + n * c * (2 + 0.25 * (n if case["kind"] != "morlet" else 2 * len(case["x"]["v"])))


def instants(rng, N, kind):
    how = int(rng.integers(0, 4))
    if how == 0 or N < 4:
        return list(range(N))
    if kind in ONED and how == 1:
        m = 1 if rng.random() < 0.3 else int(rng.integers(1, N + 1))
        return [int(v) for v in rng.permutation(N)[:m]]
    if rng.random() < 0.12:
        return [int(rng.integers(0, N))]
    step = int(rng.integers(1, 4))
    lo = int(rng.integers(0, N - step))
    v = list(range(lo, N, step))
    if len(v) < 2:
        return list(range(N))
    if rng.random() < 0.2:
        v = v[::-1]
    return v


def make(rng, kind, N=None, n=None, xk=None):
    n = n or int(sig.pick(rng, [4, 5, 6, 8, 9, 10, 12, 15, 16]))
    N = N or int(sig.pick(rng, [n, n, n + 1, int(rng.integers(4, 18))]))
    sg = 2
    if kind == "morlet":
        n, sg = [int(v) for v in sig.pick(rng, [(8, 2), (8, 4), (6, 3), (5, 2), (9, 2), (10, 3), (12, 3), (15, 3), (16, 4), (9, 4),
                                                (4, 2)])]
    x = sig.signal(rng, N, xk, amp=2, dtype="complex128", layout="c" if rng.random() < 0.7 else None, scale=0)
    x["dtype"] = "complex128" if rng.random() < 0.7 or any(b for _, b in x["v"]) else "float64"
    x["v"] = [[max(-2, min(2, a)), max(-2, min(2, b))] for a, b in x["v"]]
    if kind == "spwv":
        x["v"] = [[max(-1, min(1, a)), max(-1, min(1, b))] for a, b in x["v"]]
    if all(v == [0, 0] for v in x["v"]):
        x["v"] = [[1, 0]] + x["v"][1:]
    c = {"kind": kind, "n": n, "x": x, "sg": sg, "inst": instants(rng, N, kind), "disp": True,
         "deft": bool(rng.random() < 0.5)}
    if kind in ONED or kind in ("spec", "spwv"):
        if kind == "spec":
            h = int(rng.integers(1, max(1, n // 2 - 1) + 1))
        elif kind == "spwv":
            h = int(rng.integers(1, 4))
        else:
            h = int(rng.integers(1, min(7, n) + 1))
        c["w"] = sig.window(rng, 2 * h + 1, str(sig.pick(rng, ["rand", "ones", "sym", "sym"])), amp=2 if kind == "spwv" else 3,
                            single=False)
    if kind == "spwv":
        g = [[int(v), 0] for v in rng.integers(1, 3, int(sig.pick(rng, [1, 3, 3])))]
        if rng.random() < 0.2:
            g = [[1, 0]] * 5
        c["g"] = {"v": g, "dtype": "float64", "layout": "c", "k": 0}
    return c


def cases(tier, rng, scen):
    for s in scen:
        N = len(s["x"])
        for kind in NAMES:
            if kind == "morlet":
                c = make(rng, kind, N, None)
            else:
                c = make(rng, kind, N, int(sig.pick(rng, [4, 5, 6, 8])))
            c["x"] = {"v": [[a, 0] for a in s["x"]], "dtype": "complex128", "layout": "c", "k": 0}
            c["inst"] = list(range(N))
            c["default"] = True
            c["label"] = "enumerated-" + kind
            yield c
    R = 40 if tier == "quick" else 900
    for kind in NAMES:
        for j in range(R):
            xk = str(sig.pick(rng, ["rand", "rand", "quad", "const", "impulse", "sparse", "alt", "real", "first", "last"]))
            c = make(rng, kind, xk=xk)
            c["label"] = kind
            yield c
        for j in range(R // 4):          # energy only at the ends of the requested instants
            c = make(rng, kind)
            v = [[0, 0]] * len(c["x"]["v"])
            for t in {0: [max(c["inst"])], 1: [min(c["inst"])], 2: [min(c["inst"]), max(c["inst"])]}[int(rng.integers(0, 3))]:
                v[t] = [int(sig.pick(rng, [1, -1])), 0]
            c["x"]["v"] = v
            c["x"]["dtype"] = "complex128"
            c["label"] = "ends-" + kind
            yield c
        for j in range(R // 2 if kind in ONED else R // 4):          # dense signals over few bins: lags past the last bin
            n = int(sig.pick(rng, [4, 4, 6, 8, 5]))
            c = make(rng, kind, n + int(rng.integers(2, 8)), n, xk="rand")
            c["inst"] = list(range(len(c["x"]["v"])))
            if kind in ONED:
                h = n // 2 + int(rng.integers(0, 3))
                c["w"] = sig.window(rng, 2 * h + 1, str(sig.pick(rng, ["rand", "sym"])), amp=3, single=False)
            c["label"] = "dense-" + kind
            yield c
        for j in range(R // 4):          # larger matrices: threshold, conservation, destination
            n = int(rng.integers(4, 25))
            N = int(rng.integers(6, 21))
            c = make(rng, kind, N, n, xk="rand")
            if kind == "morlet":
                c["n"] = int(sig.pick(rng, [8, 9, 12, 15, 16, 20, 21]))
            c["disp"] = False
            c["label"] = "large-" + kind
            yield c
        for j in range(R // 2 if kind in ("spec", "pwv") else R // 4):          # values around the threshold
            c = make(rng, kind, int(rng.integers(6, 17)))
            v = [[0, 0]] * len(c["x"]["v"])
            for q in range(len(v)):
                if rng.random() < 0.3:
                    v[q] = [int(rng.integers(-2, 3)), 0]
            v[int(rng.integers(0, len(v)))] = [int(sig.pick(rng, [300, 700, 1000, 1200, 2500, 4000])), 0]
            c["x"] = {"v": v, "dtype": "complex128", "layout": "c", "k": 0}
            step, lo = int(rng.integers(2, 4)), int(rng.integers(0, 3))
            if j % 3 == 0 and len(v) >= lo + 2 * step + 1:          # the spike between two of the instants
                c["inst"] = list(range(lo, len(v), step))
                v = [[int(rng.integers(-2, 3)), 0] for _ in v]
                v[lo + 1 + step * int(rng.integers(0, len(c["inst"]) - 1))] = [int(sig.pick(rng, [2500, 4000])), 0]
                if "w" in c:
                    c["w"] = sig.window(rng, 3, "sym", amp=2, single=False)
                c["x"]["v"] = v
            c["disp"], c["thr"] = False, True
            c["label"] = "threshold-" + kind
            yield c
    for kind in NAMES:                   # long signals, few instants far apart or at the end
        for j in range(4 if tier == "quick" else 40):
            N = int(sig.pick(rng, [100, 127, 128, 129, 200, 256, 257]))
            c = make(rng, kind, N, None if kind == "morlet" else int(sig.pick(rng, [6, 8, 10])), xk=str(sig.pick(rng, ["rand", "sparse", "real"])))
            how = int(rng.integers(0, 3))
            step = [1, int(rng.integers(2, 30)), N // 5][how]
            hi = N - 1 - int(rng.integers(0, 3))
            c["inst"] = [t for t in range(hi - 4 * step, hi + 1, step) if t >= 0]
            for t in c["inst"]:
                if rng.random() < 0.5:
                    c["x"]["v"][t] = [int(sig.pick(rng, [1, -1])), 0]
            c["disp"] = kind != "morlet"
            c["label"] = "long-" + kind
            yield c
