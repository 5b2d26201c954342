"""C26: covariance of the distributions."""
from harness import sig, rel
from harness.rel import base, execute, weight  # NOQA

TRACE = "TraceRel"
WHAT = ("pairs and quadruples of runs on related signals, recorded in fixed point; the relation that must hold "
        "between their matrices is computed by the specification from the distribution's class")
ASSUMES = ["matrices compared to three millionths of the largest entry"]
DESIGN = [("CovDesign", "CovDesign.cfg")]
SHARDS = 7
KINDS = ["stft", "astft", "spec", "wv", "pwv", "spwv", "mh", "pmh", "page", "ppage", "amb",
         "rspec", "rpwv", "rspwv", "rpmh", "rppage"]


def SCENARIOS(tier, seed):
    return [("CovDesign", "CovGen.cfg", ())]


def windows(rng, kind, n):
    w = g = None
    if kind in ("stft", "astft"):
        w = sig.window(rng, int(rng.integers(1, n + 1)), single=False)
    elif kind == "spec":
        w = sig.window(rng, 2 * int(rng.integers(0, max(0, n // 2 - 2) + 1)) + 1, single=False)
    elif kind in ("pwv", "pmh", "ppage"):
        w = sig.window(rng, int(rng.integers(1, n + 3)), single=False)
    elif kind == "spwv":
        w = sig.window(rng, int(rng.integers(0, n + 1)) | 1, single=False)
        g = sig.posreal_window(rng, int(sig.pick(rng, [1, 3, 5])))
    return w, g


def make(rng, kind, op, N, n, moved=False):
    w, g = windows(rng, kind, n) if rng.random() < 0.7 else (None, None)
    c = {"label": op + "-" + kind, "kind": kind, "op": op, "n": n, "w": w, "g": g,
         "x": sig.signal(rng, N, None if rng.random() < 0.5 else "rand", layout="c", scale=0)}
    if all(v == [0, 0] for v in c["x"]["v"]):
        c["x"]["v"][N // 2] = [1, 1]
        c["x"]["dtype"] = "complex128"
    if kind in rel.REASS or op in ("sum", "para", "delay", "shift"):
        c["x"]["dtype"] = "complex128"
    if op == "scale":
        c["a"] = [int(v) for v in sig.pick(rng, [(-1, 0), (0, 1), (2, 0), (1, 1), (3, -2), (-4, 0), (0, -5), (2, 7)])]
        if moved:
            c["a"] = [int(v) for v in sig.pick(rng, [(-1, 0), (0, 1), (2, 0), (-4, 0), (0, -8)])]
            c["moved"] = True
        if c["x"]["dtype"] in ("complex128", "float64"):
            c["ka"] = int(sig.pick(rng, [0, 0, 0, -20, -40, -100, -150, 40, 100, 150]))
    elif op == "shift":
        c["s"] = int(rng.integers(1, n)) if n > 1 else 0
    elif op in ("sum", "para"):
        c["y"] = sig.signal(rng, N, "rand", dtype="complex128", layout="c", scale=0)
    elif op == "same":
        isreal = all(b == 0 for _, b in c["x"]["v"])
        dts = ["complex128", "complex64"] + (["float64", "float32", "int64", "int32"] if isreal else [])
        c["y"] = dict(c["x"], dtype=str(sig.pick(rng, dts)), layout=str(sig.pick(rng, sig.LAYOUTS)))
        c["x"]["dtype"] = "complex128"
        if kind in ("rspec", "rpwv", "rspwv", "rpmh", "rppage"):
            c["y"]["dtype"] = "complex128"
    elif op == "delay":
        s = int(rng.integers(1, max(2, N // 3)))
        v = c["x"]["v"]
        for j in range(N):
            if j >= N - s:
                v[j] = [0, 0]
        c["s"] = s
        h = 0
        if kind in ("spec", "spwv"):
            h = (len(w["v"]) - 1) // 2 if w is not None else (n // 4) // 2 + 1
            if kind == "spwv":
                h = min(h, n // 2) + ((len(g["v"]) - 1) // 2 if g is not None else n // 20 + 1)
        c["lo"], c["hi"] = h, N - 1 - h
    return c


def admissible(kind, op, N, n):
    if op == "sum" and kind != "stft":
        return False
    if op == "para" and kind in ("stft", "astft"):
        return False
    if op == "shift" and kind in ("stft", "amb"):
        return False
    if kind == "astft" and op != "shift":
        return False
    if op == "delay" and (kind in rel.REASS or kind == "amb" or (kind in ("mh", "page") and n < N)):
        return False
    if kind == "amb" and n < N:
        return False
    if kind == "page" and op == "shift":
        return False
    if kind == "rspec" and N < 8:       # default window of one sample has no derivative
        return False
    if kind in ("spec", "rspec") and n < 4:
        return False
    return True


def cases(tier, rng, scen):
    for s in scen:
        kind, op, N, n = s["kind"], s["op"], s["N"], s["n"]
        if admissible(kind, op, N, n):
            yield make(rng, kind, op, N, n)
    R = 260 if tier == "quick" else 8000
    for j in range(R):
        kind = KINDS[int(rng.integers(0, len(KINDS)))]
        op = str(sig.pick(rng, ["scale", "shift", "sum", "para", "same", "delay"]))
        N = int(rng.integers(4, 33))
        n = int(sig.pick(rng, [N, N, N + 1, 2 * N, max(4, N // 2), int(rng.integers(4, 40))]))
        if kind in rel.REASS:
            n = max(n, 8)
        if admissible(kind, op, N, n):
            yield make(rng, kind, op, N, n)
    for j in range(80 if tier == "quick" else 800):
        kind = str(sig.pick(rng, list(rel.REASS)))
        N = int(rng.integers(8, 33))
        yield make(rng, kind, "scale", N, int(sig.pick(rng, [N, max(8, N // 2), 2 * N])), moved=True)
