"""C12: Renyi information and two-dimensional integration."""
import numpy as np
from harness import sig, dec

TRACE = "TraceInt"
WHAT = ("integrals of integer matrices on irregular axes (exact), Renyi information of orders 1/2, 2, 3, 4 (decoded to the "
        "exact integral of the power), any order in hundredths from 0.2 to 2.5 (powers of two) and Shannon entropy (fixed point), against the specification's row sweep")
ASSUMES = ["matrices up to 6 by 6 with small entries, rescaled by powers of two"]
DESIGN = [("IntDesign", "IntDesign.cfg")]
SHARDS = 5


def SCENARIOS(tier, seed):
    return [("IntDesign", "IntGen.cfg", ())]


def base(case):
    c = {k: case[k] for k in ("a", "x", "y", "al2")}
    c.update(int4=0, pw=0)
    return c


def execute(case):
    from tftb.processing.utils import integrate_2d
    from tftb.processing.postprocessing import renyi_information
    a = np.array(case["a"], dtype=case["dtype"])
    if case["lay"] == "f":
        a = np.asfortranarray(a)
    elif case["lay"] == "readonly":
        a.flags.writeable = False
    x, y = np.array(case["x"], dtype=float), np.array(case["y"], dtype=float)
    if case["intaxes"]:
        x, y = x.astype(int), y.astype(int)
    args = []
    if not case["defaxes"]:
        args = [x, y]
    I = integrate_2d(a, *args)
    rec = {"int4": dec.one(I * 4)}
    if case["al2"] == 0:
        return rec
    tfr = a * 2.0 ** case["k"] if case["k"] else a
    al = case["al2"] / 2.0 if case["al2"] < 20 else (case["al2"] - 20) / 100.0
    yy = y
    if case["shuffle"]:
        yy = y[np.random.RandomState(case["shuffle"]).permutation(len(y))]
    if case["al2"] == 6 and case["defalpha"]:
        R = renyi_information(tfr) if case["defaxes"] else renyi_information(tfr, x, yy)
    elif case["defaxes"]:
        R = renyi_information(tfr, alpha=al if not case["intalpha"] else int(al))
    else:
        R = renyi_information(tfr, x, yy, al if not case["intalpha"] else int(al))
    R = float(R)
    J = float(I * 4)
    if case["al2"] == 2:
        rec["pw"] = dec.fix(R, 1e5)
    elif case["al2"] == 1:
        rec["pw"] = dec.one(4 * (2 ** (0.5 * R)) ** 2 * J)
    elif case["al2"] > 20:
        rec["pw"] = dec.fix(1e4 * 2 ** ((1 - al) * R) * J ** al / 4 ** (al - 1), 1)
    else:
        rec["pw"] = dec.one(2 ** ((1 - al) * R) * J ** al / 4 ** (al - 1))
    return rec


def weight(case):
    return 2


def axis(rng, n, regular, signed=False):
    if signed and rng.random() < 0.4:          # descending, or (the rows') back and forth
        if regular or rng.random() < 0.5:
            return axis(rng, n, regular)[::-1]
        return [int(t) for t in rng.integers(-6, 7, n)]
    if regular:
        d = int(rng.integers(1, 4))
        s = int(rng.integers(-3, 4))
        return [s + d * j for j in range(n)]
    v = np.cumsum(rng.integers(1, 4, n)) + int(rng.integers(-3, 4))
    return [int(t) for t in v]


def integral4(a, x, y):
    a = np.array(a)
    w = np.full(a.shape[1], 2)
    w[[0, -1]] = 1
    row = a.dot(w) * (x[1] - x[0])
    return int(np.sum((row[1:] + row[:-1]) * np.diff(y)))


def cases(tier, rng, scen):
    for j, s in enumerate(scen):
        a, y = s["a"], s["y"]
        x = [0, 1 + j % 3]
        I = integral4(a, x, y)
        for al2 in (0, 1, 4, 6):
            if I > 0 or al2 == 0:
                yield {"label": "enumerated-%d" % al2, "a": a, "x": x, "y": y, "al2": al2, "dtype": "float64", "lay": "c",
                       "intaxes": bool(j % 2), "defaxes": False, "k": 0, "shuffle": 0, "defalpha": bool(j % 4 == 0), "intalpha": bool(j % 3 == 0) and al2 % 2 == 0}
    for j in range(700 if tier == "quick" else 15000):
        al2 = int(sig.pick(rng, [0, 0, 1, 2, 2, 4, 6, 6, 8, 30, 30]))
        if al2 == 30:          # any order, powers of two
            al2 = 20 + int(sig.pick(rng, [25, 75, 90, 95, 98, 102, 105, 110, 125, 150, 175, 225, 250, int(rng.integers(20, 98)), int(rng.integers(102, 250))]))

        R, C = int(rng.integers(2, 7)), int(rng.integers(2, 7))
        if al2 == 0:
            a = rng.integers(-9, 10, (R, C))
        elif al2 > 20:
            R, C = min(R, 4), min(C, 4)
            a = np.array([0, 1, 1, 2, 4, 8])[rng.integers(0, 6, (R, C))]
        elif al2 == 1:
            a = rng.integers(0, 4, (R, C)) ** 2
        elif al2 == 2:
            R, C = min(R, 4), min(C, 4)
            a = rng.integers(0, 4, (R, C))
        else:
            a = rng.integers(0 if rng.random() < 0.6 else -1, 4, (R, C))
        defaxes = bool(rng.random() < 0.3)
        # the entries do not follow a reordered axis, only its spacing does: regular axes there
        shuffle = int(rng.integers(0, 100)) if rng.random() < 0.4 else 0
        x = list(range(C)) if defaxes else axis(rng, C, True, al2 == 0)
        y = list(range(R)) if defaxes else axis(rng, R, al2 == 2 or rng.random() < 0.4, al2 == 0)
        a = [[int(v) for v in r] for r in a]
        if al2:
            I = integral4(a, x, y)
            Ia = integral4(np.array(a, dtype=float) ** (al2 / 2.0) if al2 != 2 and al2 < 20 else a, x, y)
            if I <= 0 or Ia <= 0 or (al2 == 2 and I > 300):
                continue
        yield {"label": "al%d" % al2, "a": a, "x": x, "y": y, "al2": al2,
               "dtype": sig.pick(rng, ["float64", "float64", "int64"]), "lay": sig.pick(rng, ["c", "f", "readonly"]),
               "intaxes": bool(rng.random() < 0.3), "defaxes": defaxes, "k": int(sig.pick(rng, [0, 0, -20, 3, 30])),
               "shuffle": 0 if defaxes else shuffle, "defalpha": bool(rng.random() < 0.5),
               "intalpha": al2 % 2 == 0 and al2 < 20 and bool(rng.random() < 0.4)}
    for j in range(40 if tier == "quick" else 800):
        # long or wide distributions
        R, C = [(2, 130), (130, 2), (3, 257), (257, 3), (20, 30), (64, 5), (5, 128)][int(rng.integers(0, 7))]
        al2 = int(sig.pick(rng, [0, 0, 4, 6]))
        a = rng.integers(-9, 10, (R, C)) if al2 == 0 else (rng.integers(1, 4, (R, C)) * (rng.random((R, C)) < 20.0 / (R * C)))
        defaxes = bool(rng.random() < 0.4)
        x = list(range(C)) if defaxes else axis(rng, C, True, al2 == 0)
        y = list(range(R)) if defaxes else axis(rng, R, rng.random() < 0.4, al2 == 0)
        a = [[int(v) for v in r] for r in a]
        I = integral4(a, x, y)
        if al2 and not 0 < I < 5000:
            continue
        yield {"label": "long-al%d" % al2, "a": a, "x": x, "y": y, "al2": al2, "dtype": sig.pick(rng, ["float64", "int64"]),
               "lay": sig.pick(rng, ["c", "f", "readonly"]), "intaxes": bool(rng.random() < 0.3), "defaxes": defaxes,
               "k": int(sig.pick(rng, [0, 0, -20, 3])), "shuffle": 0, "defalpha": bool(rng.random() < 0.5), "intalpha": bool(rng.random() < 0.4)}
