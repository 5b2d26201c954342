"""C16: keyed signals, analytic impulse / step / singularity."""
import numpy as np
from harness import sig, dec

TRACE = "TraceKey"
WHAT = ("every sample of the keyed signals decoded to symbol, amplitude and phase and followed by the "
        "specification's transmitter (component counter, carrier, accumulated phase); analytic signals' real part "
        "decoded exactly and their negative half spectrum required to vanish")
ASSUMES = ["at least three samples", "carrier frequencies rational"]
DESIGN = [("KeyDesign", "KeyDesign.cfg")]
SHARDS = 6
KEYING = ("ask", "bpsk", "qpsk", "fsk")


def SCENARIOS(tier, seed):
    return [("KeyDesign", "KeyGen.cfg", ())]


def base(case):
    c = {k: v for k, v in case.items() if k not in ("label", "seed", "float")}
    for key, v in dict(L=0, defL=False, M=4, a=0, nbf=4, ti=0, defti=False, h=0, of="").items():
        c.setdefault(key, v)
    c["usedD"] = 8 * c["nbf"] if c["kind"] == "fsk" else c["M"]
    c.update(sym=[], ph=[], amp=[], re=[], neg=0, mag4=[], sph=[], low6=0, top6=0, msgs=[])
    return c


def execute(case):
    import tftb.generators as G
    c = base(case)
    n, kind = c["n"], c["kind"]
    if kind == "ens":
        f = {"ask": G.anaask, "bpsk": G.anabpsk, "qpsk": G.anaqpsk, "fsk": G.anafsk}[c["of"]]
        np.random.seed(case["seed"])
        msgs = []
        for j in range(case["count"]):
            law = np.asarray(f(n, c["L"], **({"Nbf": c["nbf"]} if c["of"] == "fsk" else {}))[1])[[0, c["L"], 2 * c["L"]]]
            msgs.append({"ask": lambda: dec.fix(law, 1e6), "bpsk": lambda: dec.ints(law), "qpsk": lambda: dec.ints(law, 2 / np.pi),
                         "fsk": lambda: dec.ints((law - 0.25), 8 * c["nbf"])}[c["of"]]())
        return {"msgs": msgs}
    if kind in KEYING:
        np.random.seed(case["seed"])
        f = {"ask": G.anaask, "bpsk": G.anabpsk, "qpsk": G.anaqpsk, "fsk": G.anafsk}[kind]
        args = [n]
        if not c["defL"]:
            args.append(float(c["L"]) if case.get("float") and kind in ("qpsk", "fsk") else c["L"])
        if kind == "fsk":
            y, law = f(*args, **({} if case.get("deff") else {"Nbf": c["nbf"]}))
        else:
            y, law = f(*args, **({} if case.get("deff") else {"f0": c["a"] / float(c["M"])}))
        y, law = np.asarray(y), np.asarray(law)
        if y.ndim != 1 or law.ndim != 1:
            return {}
        rec = {}
        if kind == "ask":
            rec["sym"] = dec.fix(law, 1e6)
            rec["amp"] = dec.fix(np.abs(y), 1e6)
            rec["ph"] = dec.phase(np.where(np.abs(y) > 0, y, 1), c["usedD"], 1e-7)
            # a component is one value: tell apart values that round alike
        else:
            rec["sym"] = {"bpsk": lambda: dec.ints(law), "qpsk": lambda: dec.ints(law, 2 / np.pi),
                          "fsk": lambda: dec.ints((law - 0.25), 8 * c["nbf"])}[kind]()
            rec["amp"] = dec.ints(np.abs(y), 1, 1e-9)
            rec["ph"] = dec.phase(y, c["usedD"], 1e-7)
        return rec
    kw = {}
    if not c["defti"]:
        t = c["ti"] / 2.0
        kw["t0" if kind.startswith("sing") else "ti"] = int(t) if c["ti"] % 2 == 0 and not case.get("float") else t
    if kind == "pulse":
        y = G.anapulse(n, **kw)
    elif kind == "step":
        y = G.anastep(n, **kw)
    else:
        y = G.anasing(n, h=c["h"] if kind == "sing" else c["h"] / 4.0, **kw)
    y = np.asarray(y)
    if y.ndim != 1:
        return {}
    F = np.fft.fft(y)
    top = float(np.max(np.abs(F))) if y.size else 0
    neg = int(np.sum(~(np.abs(F[n // 2 + 1:]) <= 1e-9 * (1e-30 + top))))
    re = dec.ints(y.real, 2 ** c["h"]) if kind != "singneg" else dec.fix(y.real, 1)
    rec = {"re": re, "neg": neg}
    if kind == "singneg" and n % 2 == 0:
        # positive bins of the real part: modulus against the first one's (fourth power), phase in half samples
        X = np.fft.fft(y.real)[1:n // 2]
        rec["mag4"] = dec.ints((np.abs(X[0]) / np.maximum(np.abs(X[:40]), 1e-300)) ** 4)
        rec["sph"] = dec.phase(X, 2 * n, 1e-7)
        r = y.real
        rec["low6"], rec["top6"] = dec.fix(np.min(r), 1e6), dec.fix(np.max(r) - np.mean(r), 1e6)
    return rec


def weight(case):
    return 10 + case["n"]


def cases(tier, rng, scen):
    for s in scen:
        c = dict(s, label="enumerated-" + s["kind"], seed=int(rng.integers(0, 2 ** 31)))
        if c["kind"] == "fsk":
            c["nbf"] = int(rng.integers(1, 6))
        else:
            c["M"] = 20
            c["a"] = int(rng.integers(0, 11))
        yield c
    for j in range(450 if tier == "quick" else 15000):
        kind = KEYING[j % 4]
        n = int(rng.integers(3, 60)) if rng.random() < 0.7 else int(sig.pick(rng, [64, 100, 127, 128, 300, 301, 512]))
        c = {"label": kind, "kind": kind, "n": n, "seed": int(rng.integers(0, 2 ** 31)), "float": bool(rng.random() < 0.3)}
        if rng.random() < 0.3:
            c.update(defL=True)
        else:
            c["L"] = int(sig.pick(rng, [1, 2, 3, n, n + 3, max(1, n // 2), int(rng.integers(1, n + 1))]))
        if kind == "fsk":
            c["nbf"] = int(rng.integers(1, 9))
            if rng.random() < 0.2:
                c.update(nbf=4, deff=True)
        else:
            c["M"] = 4 * int(rng.integers(1, 40))
            c["a"] = int(sig.pick(rng, [0, c["M"] // 2, int(rng.integers(0, c["M"] // 2 + 1))]))
            if rng.random() < 0.2:
                c.update(M=4, a=1, deff=True)
        yield c
    for kind in KEYING:
        yield {"label": "long-" + kind, "kind": kind, "n": 701, "L": 2, "M": 8, "a": 1, "seed": 5, "nbf": 4}
        yield {"label": "even-" + kind, "kind": kind, "n": 1500, "L": 1, "M": 8, "a": 1, "seed": int(rng.integers(0, 2 ** 31)), "nbf": 5}
        for nbf in ((2, 3, 4) if kind == "fsk" else (4,)):
            L = int(rng.integers(1, 4))
            yield {"label": "ensemble-" + kind, "kind": "ens", "of": kind, "n": 3 * L, "L": L, "nbf": nbf, "count": 1500,
                   "seed": int(rng.integers(0, 2 ** 31))}
    for j in range(240 if tier == "quick" else 6000):
        kind = ["pulse", "step", "sing", "singneg"][j % 4]
        n = int(rng.integers(2, 40)) if rng.random() < 0.7 else int(sig.pick(rng, [64, 100, 127, 128, 255, 256]))
        c = {"label": kind, "kind": kind, "n": n, "defti": bool(rng.random() < 0.3), "ti": int(rng.integers(-2, 2 * n + 2)),
             "float": bool(rng.random() < 0.5)}
        if kind in ("pulse", "step") and rng.random() < 0.7:
            c["ti"] -= c["ti"] % 2
        if kind == "sing":
            c["h"] = int(rng.integers(1, 4))
            c["n"] = min(n, 128)
        if kind == "singneg":
            c["n"] = max(n, 8)
            c["h"] = -int(rng.integers(0, 5))
        yield c
