"""C17: randomness and noise."""
import hashlib
import numpy as np
from harness import sig, dec, catalog

TRACE = "TraceRng"
WHAT = ("histories of library calls enumerated by TLC, observed as generator state before / after and result, and "
        "checked to be a function of NumPy's global generator state; noise statistics and noisy Doppler laws")
ASSUMES = ["distinct generator states and results are told apart by a hash"]
DESIGN = [("RngDesign", "RngDesign.cfg")]
SHARDS = 7
RANDOM = ["noisecu", "noisecg", "dopnoise", "anaask", "anabpsk", "anaqpsk", "anafsk"]


def SCENARIOS(tier, seed):
    return [("RngDesign", "RngGen.cfg", ())]


def base(case):
    c = {k: v for k, v in case.items() if k not in ("label", "dets", "n_rand", "variant", "D", "v", "cr", "f", "reps")}
    c["rich"] = case.get("variant", 0) == 0
    for k, v in dict(n=0, a=0, p=0, q=1, D2=1, tc=0, deftc=False).items():
        c.setdefault(k, v)
    c.setdefault("ops", [])
    if case["kind"] == "history":
        c["ops"] = named(case)
    c.update(pre=[], post=[], out=[], len=0, cplx=True, neg=0, var=0, law=[], energy=0, pw=0, re2=0, circ=0, kurt=0, bands=[],
             near=0, mean=0)
    return c


def named(case):
    """the history with its deterministic calls named, run twice from the same seed"""
    dets = list(case["dets"])
    ops = []
    j = 0
    for o in case["ops"]:
        if o == "det":
            ops.append(dets[j % len(dets)])
            j += 1
        else:
            ops.append(o)
    return ["seed1"] + ops + ops[:1] + ["seed1"] + ops + ops[:1]


def digest(obj):
    h = hashlib.sha1()

    def put(o):
        if isinstance(o, (tuple, list)):
            h.update(b"(")
            for x in o:
                put(x)
            h.update(b")")
        else:
            a = np.asarray(o)
            h.update(str((a.dtype.kind, a.shape)).encode())
            h.update(np.ascontiguousarray(a).tobytes())
    put(obj)
    return h.hexdigest()


def rng_state():
    s = np.random.get_state()
    return digest([np.frombuffer(s[0].encode(), dtype=np.uint8), s[1], s[2], s[3], s[4]])


# arguments of the keying generators (added length, symbol length; None: the default): only the
# first gives messages long enough never to repeat
KEYED = [(200, 2), (0, 1000), (0, 2), (0, None), (1, 3)]


def random_call(op, n, variant=0):
    import tftb.generators as G
    if op in ("noisecu", "noisecg"):
        return getattr(G, op)(n)
    if op == "dopnoise":
        return G.dopnoise(n, 200.0, 60.0, 10.0, 70.0, *(() if variant % 2 else (12.0,)))
    extra, comp = KEYED[variant]
    n = max(n, 3) + extra
    return getattr(G, op)(n, *(() if comp is None else (min(comp, n),)), **({"Nbf": 3} if op == "anafsk" and variant == 4 else {}))


def execute(case):
    import tftb.generators as G
    c = base(case)
    if case["kind"] == "history":
        sid, oid = {}, {}
        num = lambda d, key: d.setdefault(key, len(d) + 1)
        rec = {"pre": [], "post": [], "out": []}
        for op in c["ops"]:
            rec["pre"].append(num(sid, rng_state()))
            if op.startswith("seed"):
                np.random.seed(case["seed"] + int(op[4:]))
                res = 0
            elif op in RANDOM:
                res = random_call(op, case["n_rand"], case.get("variant", 0))
            else:
                arrs, call = catalog.build(op, 1)
                res = call(arrs)
            rec["post"].append(num(sid, rng_state()))
            rec["out"].append(num(oid, op + digest(res)))
        return rec
    np.random.seed(case["seed"])
    n = case["n"]
    if case["kind"] == "noise":
        y = np.asarray(getattr(G, case["gen"])(n))
        F = np.fft.fft(y)
        neg = int(np.sum(~(np.abs(F[n // 2 + 1:]) <= 1e-9 * np.max(np.abs(F)))))
        return {"len": int(y.shape[0]) if y.ndim == 1 else -1, "cplx": bool(np.iscomplexobj(y)), "neg": neg,
                "var": dec.fix(np.var(y.real), 1e6)}
    if case["kind"] == "stat":                     # distribution and spectrum over many samples
        Y = np.array([np.asarray(getattr(G, case["gen"])(n)) for _ in range(case["reps"])])
        r = Y.real
        out = {"len": int(Y.shape[1]), "pw": dec.fix(np.mean(np.abs(Y) ** 2), 1e4), "re2": dec.fix(np.var(r), 1e4),
               "mean": dec.fix(np.abs(np.mean(Y)), 1e4), "circ": dec.fix(np.abs(np.mean(Y ** 2)), 1e4),
               "kurt": dec.fix(np.mean(r ** 4) / np.mean(r ** 2) ** 2, 1e4)}
        if n >= 8:
            P = np.sum(np.abs(np.fft.fft(Y, axis=1)) ** 2, axis=0)
            out["bands"] = [dec.fix(np.sum(P[j * n // 8:(j + 1) * n // 8]) / np.sum(P), 1e4) for j in range(8)]
        return out
    if case["kind"] == "dopstat":                  # spectral content of the noisy Doppler signal around its law
        fs, D, v = 1.0, case["D"], case["v"]
        y, law = G.dopnoise(n, fs, case["f"] / 1000.0, D, v, c=v * v / case["cr"])
        y, law = np.asarray(y), np.asarray(law)
        t = np.arange(1, n + 1) - n // 2
        F = np.fft.fft(y * (D ** 2 + (v * t) ** 2) ** 0.25)
        z = np.abs(np.fft.fft(y * np.exp(-2j * np.pi * np.cumsum(law)))) ** 2
        q = n * 6 // 100
        return {"len": int(y.shape[0]), "neg": int(np.sum(~(np.abs(F[n // 2 + 1:]) <= 1e-6 * np.max(np.abs(F))))),
                "near": dec.fix((np.sum(z[:q + 1]) + np.sum(z[-q:])) / np.sum(z), 1e4)}
    # noisy Doppler with unit sample spacing of the emitter's travel
    kw = {} if c["deftc"] else {"time_center": float(c["tc"])}
    fs = case["fs"]
    v = float(fs)                                  # one unit per sample
    y, law = G.dopnoise(n, fs, fs * c["a"] / 1000.0, float(np.sqrt(c["D2"])), v, c=v * v / (v * c["p"] / c["q"]), **kw)
    y, law = np.asarray(y), np.asarray(law)
    return {"len": int(y.shape[0]) if y.ndim == 1 else -1, "law": dec.fix(law, 1e6),
            "energy": dec.fix(np.sum(np.abs(y) ** 2), 1e6)}


def weight(case):
    return 60 if case["kind"] == "history" else 15


def cases(tier, rng, scen):
    det = catalog.names()
    j = 0
    for s in scen:
        dets = [det[(j + 7 * t) % len(det)] for t in range(3)]
        j += 1
        variant = int(rng.integers(0, len(KEYED)))
        yield {"label": "history", "kind": "history", "ops": s["ops"], "dets": dets, "seed": int(rng.integers(0, 2 ** 30)),
               "variant": variant,
               "n_rand": int(sig.pick(rng, [1, 2, 3, 4, 16, 21] if "dopnoise" not in s["ops"] else [3, 4, 16, 21]))}
    for variant in range(len(KEYED)):
        for n in (1, 2, 3, 9, 20):
            yield {"label": "arguments", "kind": "history", "ops": [o for o in RANDOM if o != "dopnoise" or n > 2] * 2, "dets": [],
                   "seed": int(rng.integers(0, 2 ** 30)), "n_rand": n, "variant": variant}
    for name in det:
        yield {"label": "every-call", "kind": "history", "ops": ["noisecu", "det", "noisecg", "det"], "dets": [name],
               "seed": int(rng.integers(0, 2 ** 30)), "n_rand": 8}
    for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 2048]:
        for g in ("noisecu", "noisecg"):
            yield {"label": g, "kind": "noise", "gen": g, "n": n, "seed": int(rng.integers(0, 2 ** 30))}
    for n, reps in ((1, 8000), (2, 4000), (1000, 20), (1024, 20), (3000, 8), (4096, 8)):
        for g in ("noisecu", "noisecg"):
            for t in range(1 if tier == "quick" else 12):
                yield {"label": "statistics-" + g, "kind": "stat", "gen": g, "n": n, "reps": reps, "seed": int(rng.integers(0, 2 ** 30))}
    for t in range(10 if tier == "quick" else 120):
        n = int(sig.pick(rng, [1024, 1500, 2048]))
        f = int(rng.integers(120, 380))
        D = float(rng.integers(100, 400))
        yield {"label": "doppler-spectrum", "kind": "dopstat", "n": n, "f": f, "D": D, "v": float(sig.pick(rng, [0.001, 0.2, 1.0, 1.0])),
               "cr": float(rng.uniform(0.02, 0.2)), "seed": int(rng.integers(0, 2 ** 30))}
    for t in range(60 if tier == "quick" else 1000):
        n = int(rng.integers(2, 15))
        deftc = bool(rng.random() < 0.3)
        tc = n // 2 if deftc else int(rng.integers(0, n + 2))
        reach = max(abs(1 - tc), abs(n - tc))
        D2 = int(rng.integers(1, max(2, 300 - reach * reach)))
        yield {"label": "doppler-noise", "kind": "dop", "n": n, "deftc": deftc, "tc": tc, "D2": D2,
               "a": int(rng.integers(1, 500)), "p": int(rng.integers(1, 9)), "q": int(rng.integers(9, 30)),
               "fs": float(sig.pick(rng, [1.0, 200.0, 50.0])), "seed": int(rng.integers(0, 2 ** 30))}
