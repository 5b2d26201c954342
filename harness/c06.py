"""C06: Margenau-Hill, pseudo Margenau-Hill, Page and pseudo Page."""
from harness import sig, lag, win, rel
from harness.lag import lengths, bins, labels

TRACE = "TraceLag"
WHAT = ("Margenau-Hill, pseudo Margenau-Hill, Page and pseudo Page columns decoded by inverse DFT and compared with the "
        "specification's one-sided / windowed lag products; parallelogram law")
ASSUMES = ["NumPy's FFT and arithmetic are trusted to 1e-7"]
DESIGN = [("Sweep", "Sweep_mh.cfg"), ("Sweep", "Sweep_pmh.cfg"), ("Sweep", "Sweep_ppage.cfg"), ("Sweep", "Sweep_page.cfg"),
          ("Sweep", "Sweep_mh_deep.cfg", "thorough"), ("Sweep", "Sweep_pmh_deep.cfg", "thorough"),
          ("Sweep", "Sweep_ppage_deep.cfg", "thorough"), ("Sweep", "Sweep_page_deep.cfg", "thorough")]
SHARDS = 7
PLAIN = ("mh", "page")


def SCENARIOS(tier, seed):
    return [("Sweep", "SweepGen_mh.cfg", ()), ("Sweep", "SweepGen_pmh.cfg", ()), ("Sweep", "SweepGen_ppage.cfg", ()),
            ("Sweep", "SweepGen_page.cfg", ())]


def _m(case):
    return {"TraceWin": win, "TraceRel": rel}.get(case.get("trace"), lag)


def execute(case):
    return _m(case).execute(case)


def base(case):
    return _m(case).base(case)


def weight(case):
    return 40 + case["N"] * case["n"] if case.get("trace") == "TraceWin" else _m(case).weight(case)


def cases(tier, rng, scen):
    for s in scen:
        yield {"label": "enumerated", "kind": s["kind"], "x": sig.signal(rng, s["N"], "rand"), "n": s["n"],
               "w": None if s["kind"] in PLAIN else sig.window(rng, s["wl"], sig.pick(rng, ["rand", "complex"])),
               "ts": None}
    R = 450 if tier == "quick" else 12000
    for j in range(R):
        kind = ("mh", "pmh", "ppage", "page")[j % 4]
        N = lengths(rng, tier)
        n = bins(rng, N)
        nn = n or N
        w = None
        if kind not in PLAIN:
            w = sig.window(rng, int(sig.pick(rng, [1, 2, 3, nn, nn + 1, 2 * nn + 3, int(rng.integers(1, nn + 1))])))
        ts = labels(rng, N)
        if kind in PLAIN:
            ts = None
            if rng.random() < 0.5:
                ts = {"v": [int(v) for v in rng.integers(0, N, int(rng.integers(1, N + 1)))], "dtype": "int64"}
                if rng.random() < 0.3:
                    ts["v"] = list(range(N))[::-1]
        c = {"label": "random", "kind": kind, "x": sig.signal(rng, N), "n": n, "w": w, "ts": ts,
             "positional": bool(rng.random() < 0.3) and kind not in PLAIN, "reruns": int(rng.random() < 0.1)}
        if rng.random() < 0.1:
            c["x"]["layout"] = sig.pick(rng, ["row", "col"])
        yield c
    for N, n in [(256, 64), (300, 301), (512, 32), (1000, 16), (1025, 33), (3, 2049), (257, None), (600, 1200)]:
        for kind in ("mh", "pmh", "ppage", "page"):
            cols = sorted({0, 1, N - 1, N // 2} | {int(v) for v in rng.integers(0, N, 5)})
            yield {"label": "large", "kind": kind, "x": sig.signal(rng, N, "rand", dtype="complex128"), "n": n,
                   "w": None if kind in PLAIN else sig.window(rng, 41), "ts": None, "cols": [t for t in cols if t < N]}
    yield from win.cases_for(["pmh", "ppage"], rng, 20 if tier == "quick" else 200)
    for j in range(40 if tier == "quick" else 600):
        N = int(rng.integers(1, 24))
        n = int(sig.pick(rng, [N, N, N + 3, max(1, N // 2), 2 * N]))
        kind = ("page", "page", "mh", "pmh", "ppage")[j % 5]
        op = ("para", "scale")[j % 2]
        c = {"label": op + "-" + kind, "trace": "TraceRel", "kind": kind, "op": op, "n": n, "w": None,
             "x": sig.signal(rng, N, "rand", dtype="complex128", layout="c", scale=0), "a": [1, -3],
             "y": sig.signal(rng, N, "rand", dtype="complex128", layout="c", scale=0)}
        yield c
