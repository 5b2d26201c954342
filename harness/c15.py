"""C15: frequency-modulated generators."""
import math
import warnings
import numpy as np
from harness import sig, dec

TRACE = "TraceFM"
WHAT = ("modulus, phase and returned law of every sample, decoded to integers and followed by the specification's "
        "phase accumulator (constant, linear, arbitrary, parabolic laws) or compared with fixed-point closed forms "
        "(hyperbolic, power, sinusoidal laws)")
ASSUMES = ["rational laws; phases resolved to 1e-5 turn for the tabulated kinds, exactly for the others"]
DESIGN = [("PhaseDesign", "PhaseDesign.cfg")]
SHARDS = 6
DIV720 = [2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30, 36, 40, 45, 48, 60, 72, 80, 90, 120, 144, 180, 240, 360]


def SCENARIOS(tier, seed):
    return [("PhaseDesign", "PhaseGen.cfg", ())]


def base(case):
    c = dict(case)
    c.pop("label", None)
    for key, v in dict(q=1, t0=0, deft0=False, a=0, b=0, d=0, M=1, law=[], K=1, pm=1, j0=0, pow=0).items():
        c.setdefault(key, v)
    n, kind = c["n"], c["kind"]
    c["usedD"] = {"const": c["M"] * c["q"], "lin": 2 * c["M"] * (n - 1), "any": c["M"], "par": 6 * c["M"]}.get(kind, 0)
    c["usedF"] = c["M"] * (n - 1) if kind == "lin" else c["M"]
    c["tol"] = 4 + {"hyp": abs(c["b"]), "power": 2 * abs(c["b"]), "sin": 2 * abs(c["b"]) * 720 // (1000 * c["K"])}.get(kind, 0)
    c["ltol"] = 3 + (abs(c["b"]) if kind in ("hyp", "power") else 0)
    c.update(phase=[], iflaw=[], mod=[], warned=0)
    return c


def execute(case):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        rec = generate(case)
    if rec:
        rec["warned"] = sum(issubclass(w.category, UserWarning) for w in seen)
    return rec


def generate(case):
    import tftb.generators as G
    c = base(case)
    n, kind = c["n"], c["kind"]
    M = float(c["M"])
    if kind == "const":
        kw = {}
        if not c["deft0"]:
            kw["t0"] = c["t0"] / c["q"] if c["q"] > 1 or case.get("float") else c["t0"]
        y, law = G.fmconst(n, c["a"] / M, **kw) if not case.get("deff") else G.fmconst(n, **kw)
    elif kind == "lin":
        kw = {} if c["deft0"] else {"t0": c["t0"]}
        y, law = G.fmlin(n, c["a"] / M, c["b"] / M, **kw) if not case.get("deff") else G.fmlin(n, **kw)
    elif kind == "any":
        v = np.array(c["law"]) / M
        if case.get("col"):
            v = v.reshape(-1, 1)
        v.flags.writeable = False
        y = G.fmodany(v, c["t0"]) if not case.get("deft") else G.fmodany(v)
        y = np.asarray(y)
        law = np.zeros(n)
    elif kind == "par":
        y, law = G.fmpar(n, (c["a"] / M, c["b"] / M, c["d"] / M))
    elif kind == "hyp":
        f0, cc = c["a"] / 1000.0, c["b"] / 8.0
        t1, t2 = case["pts"]
        y, law = G.fmhyp(n, (t1, f0 + cc / t1), (t2, f0 + cc / t2))
    elif kind == "power":
        f0, cc, k = c["a"] / 1000.0, c["b"] / 8.0, c["pow"] / 2.0
        if c["pow"] % 2 == 0 and case.get("intk"):
            k = int(k)
        co = (f0, cc)
        if case.get("pts"):
            t1, t2 = case["pts"]
            co = (float(t1), f0 + cc * float(t1) ** (-k), float(t2), f0 + cc * float(t2) ** (-k))
        y, law = G.fmpower(n, k, co)
    else:
        mid, dl = c["a"] / 1000.0, c["b"] / 1000.0
        kw = {"fnormin": (c["a"] - c["b"]) / 1000.0, "fnormax": (c["a"] + c["b"]) / 1000.0, "pm1": c["pm"]}
        if not case.get("defP"):
            kw["period"] = 720 // c["K"] if 720 % c["K"] == 0 else 720.0 / c["K"]
        if not c["deft0"]:
            kw["t0"] = c["t0"] / 2.0
        if not case.get("deff0"):
            kw["fnorm0"] = mid + dl * math.cos(2 * math.pi * c["j0"] / 720)
            if c["j0"] in (0, 360):
                kw["fnorm0"] = kw["fnormax"] if c["j0"] == 0 else kw["fnormin"]
        if case.get("alldef"):
            kw = {}
        y, law = G.fmsin(n, **kw)
    y, law = np.asarray(y), np.asarray(law)
    if y.ndim != 1 or law.ndim != 1:
        return {}
    rec = {"mod": dec.ints(np.abs(y), 1, 1e-9)}
    if c["usedD"]:
        rec["phase"] = dec.phase(y, c["usedD"], 1e-7)
        rec["iflaw"] = dec.ints(law, c["usedF"])
    else:
        z = np.where(np.isfinite(y), y, 1)
        rec["phase"] = [int(v) for v in np.rint(np.angle(z) / (2 * np.pi) * 1e6)]
        rec["iflaw"] = dec.fix(law, 1e6)
    return rec


def weight(case):
    return 5 + case["n"]


def length(rng):
    return int(rng.integers(2, 40)) if rng.random() < 0.6 else int(sig.pick(rng, [64, 65, 100, 127, 128, 140, 255, 256]))


def cases(tier, rng, scen):
    for s in scen:
        s = dict(s)
        s["label"] = "enumerated-" + s["kind"]
        yield s
    for j in range(600 if tier == "quick" else 20000):
        kind = ["const", "lin", "any", "par", "hyp", "power", "sin"][j % 7]
        n = length(rng)
        c = {"label": kind, "kind": kind, "n": n}
        M = int(sig.pick(rng, [8, 10, 64, 100, 101, 128, 360]))
        half = M // 2
        if kind == "const":
            q = int(sig.pick(rng, [1, 1, 2, 4]))
            c.update(M=M, q=q, a=int(rng.integers(-half, half + 1)), deft0=bool(rng.random() < 0.3),
                     t0=int(rng.integers(-5, q * n + 6)), float=bool(rng.random() < 0.5))
            if rng.random() < 0.1:
                c.update(M=4, a=1, deff=True)
        elif kind == "lin":
            c.update(M=M, a=int(rng.integers(-half, half + 1)), b=int(rng.integers(-half, half + 1)),
                     deft0=bool(rng.random() < 0.3), t0=int(sig.pick(rng, [1, n, int(rng.integers(1, n + 1))])))
            if rng.random() < 0.1:
                c.update(M=2, a=0, b=1, deff=True)
        elif kind == "any":
            c.update(M=M, law=[int(v) for v in rng.integers(-half, half + 1, n)], t0=int(sig.pick(rng, [1, n, int(rng.integers(1, n + 1))])),
                     col=bool(rng.random() < 0.2))
            if rng.random() < 0.2:
                c.update(t0=1, deft=True)
        elif kind == "par":
            c.update(M=int(sig.pick(rng, [100, 1000, 10000, 4096])), n=min(n, 140), a=int(rng.integers(-50, 60)),
                     b=int(rng.integers(-12, 13)), d=int(rng.integers(-3, 4)))
            if rng.random() < 0.4:
                # laws which stay between the limits, or touch / cross one of them at one end only
                n = c["n"] = min(n, 60)
                c.update(M=20000, a=int(sig.pick(rng, [0, 10000, 0, 10000, 1, 10001, -1])), d=int(rng.integers(0, 3)), b=int(rng.integers(0, 5)))
                if c["a"] >= 10000:
                    c.update(b=-c["b"], d=-c["d"])
            elif rng.random() < 0.2:
                # over the limit, or below it, around the vertex only
                n = c["n"] = min(max(n, 5), 60)
                v, over = n // 2, int(sig.pick(rng, [-1, 1, 1, 2]))
                c.update(M=20000, a=10000 - v * v + over, b=2 * v, d=-1)
                if rng.random() < 0.5:
                    c.update(a=v * v - over, b=-2 * v, d=1)
        elif kind == "hyp":
            t = [int(v) for v in rng.choice(np.arange(1, n + 5), 2, replace=False)]
            c.update(a=int(rng.integers(-500, 501)), b=int(rng.integers(-40, 41)), pts=t)
            if rng.random() < 0.4:
                c.update(a=int(rng.integers(5, 400)), b=int(rng.integers(-3, 4)))
            elif rng.random() < 0.15:
                c.update(a=int(sig.pick(rng, [0, 500])), b=0)
        elif kind == "power":
            c.update(a=int(rng.integers(-500, 501)), b=int(rng.integers(-40, 41)), pow=int(sig.pick(rng, [4, 6, 1, -2, 0, 4])),
                     intk=False)
            if rng.random() < 0.4 and c["pow"] >= 0:
                c.update(a=int(rng.integers(5, 400)), b=int(rng.integers(-3, 4)))
            elif rng.random() < 0.15:
                c.update(a=int(sig.pick(rng, [0, 500])), b=0)
            if c["pow"] == -2:
                c["n"] = n = min(n, 120)
            if rng.random() < 0.5 and c["pow"] != 0:
                c["pts"] = [int(v) for v in rng.choice(np.arange(1, n + 5), 2, replace=False)]
        else:
            K = 720 // int(sig.pick(rng, DIV720)) if rng.random() < 0.6 else int(rng.integers(2, 361))
            b = int(rng.integers(1, 250))
            c.update(K=K, b=b, a=int(rng.integers(b - 300, 500 - b)), pm=int(sig.pick(rng, [1, -1])),
                     j0=int(sig.pick(rng, [0, 360, 180, int(rng.integers(1, 360))])), t0=2 * int(rng.integers(-3, n + 3)))
            if K % 2 == 0 and rng.random() < 0.3:
                c["t0"] += 1
            if rng.random() < 0.25:
                c.update(j0=180, deff0=True)
            if rng.random() < 0.2:
                c["deft0"] = True
                if (K * n) % 2:
                    c["n"] = n = n + 1
            if rng.random() < 0.2 and not c.get("deft0"):
                c["n"] = int(sig.pick(rng, [p for p in DIV720 if p < 300]))
                c.update(K=720 // c["n"], defP=True, t0=2 * (c["t0"] // 2))
            if rng.random() < 0.1:
                if 720 % c["K"]:
                    continue
                P = 720 // c["K"]
                c.update(n=P, a=250, b=200, pm=1, j0=180, deft0=True, defP=True, deff0=True, alldef=True)
                if (c["K"] * P) % 2:
                    continue
        yield c
