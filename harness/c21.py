"""C21: plotting only observes."""
import hashlib
import numpy as np
from harness import sig, dec, catalog

TRACE = "TraceShow"
WHAT = ("sequences of plots enumerated by TLC (kind, given or new axes, show, side panels, annotations) on every representation, "
        "with what was drawn read back from matplotlib and judged against the matrix run() returned, exactly where the matrix is "
        "made of integers")
ASSUMES = ["matplotlib's imshow, contour, plot_surface and plot_wireframe are what draws"]
DESIGN = [("ShowDesign", "ShowDesign.cfg")]
SHARDS = 7
FAM = {"stft": "stft", "spec": "spec", "wv": "wv", "pwv": "wv", "mh": "mh", "pmh": "mh", "page": "page", "ppage": "page"}
TITLE = {"stft": "STFT", "spec": "SPECTROGRAM", "wv": "WIGNER-VILLE", "mh": "MARGENAU-HILL",
         "pmh": "PSEUDO MARGENAU-HILL", "page": "PAGE REPRESENTATION", "ppage": "PSEUDO PAGE"}
DRAWN = []
GIVEN = [2, 5, 11, 20, 25]      # thirty-seconds of the largest value


def SCENARIOS(tier, seed):
    return [("ShowDesign", "ShowGen.cfg", ())]


def setup():
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d import Axes3D

    def wrap(cls, name, kind):
        f = getattr(cls, name)

        def g(self, *a, **kw):
            r = f(self, *a, **kw)
            DRAWN.append((kind, self, a, r, kw.get("levels", a[3] if kind == "contour" and len(a) > 3 else None)))
            return r
        setattr(cls, name, g)
    wrap(Axes, "imshow", "cmap")
    wrap(Axes, "contour", "contour")
    wrap(Axes3D, "plot_surface", "surf")
    wrap(Axes3D, "plot_wireframe", "wireframe")


def base(case):
    ops = [{"kind": o["kind"], "ax": o["ax"], "show": o["show"], "tf": o["tf"], "ann": o["ann"], "p": o["p"], "q": o["q"],
            "sq": o["sq"], "lv": o.get("lv", "none"), "grid": bool(o.get("grid"))} for o in case["ops"]]
    return {"fam": FAM.get(case["obj"], "aff"), "ops": ops, "mat": [], "tol": 0 if case["exact"] else 1, "f": [0, 0], "fs": [], "cx": [], "tcol": [], "ts": [0, 0],
            "real": True, "sig": [], "title": "", "obs": []}


def squared(fam, o):
    return fam == "stft" or (fam not in ("spec", "aff") and o["sq"])


def digest(ob):
    h = hashlib.sha1()
    for nm in ("tfr", "ts", "freqs", "signal", "fwindow"):
        a = np.asarray(getattr(ob, nm, 0))
        h.update(str((nm, a.dtype, a.shape)).encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def execute(case):
    import matplotlib.pyplot as plt
    shows = []
    plt.show = lambda *a, **k: shows.append(1)
    rec = base(case)
    fam = rec["fam"]
    obj = case["obj"]
    if fam == "aff":
        r = np.random.RandomState(case["v"])
        N, nv = [(36, 18), (41, 20), (31, 15), (37, 18), (45, 12), (48, 15), (40, 20), (49, 12), (40, 12)][int(r.randint(0, 9))]
        x = np.rint(8 * catalog.chirp(N).real).astype([float, int, complex][case["v"] % 3])
        if case["v"] >= 6:                   # two components: interferences below zero, at times larger than the peaks
            t = np.arange(N)
            x = np.rint(20 * sum(np.exp(-((t - p) / w) ** 2) * np.cos(2 * np.pi * f * (t - p) + ph) for p, w, f, ph in zip(
                r.uniform(0.2 * N, 0.8 * N, 2), r.uniform(2, 5, 2), r.uniform(0.15, 0.3, 2), r.uniform(0, 6, 2)))).astype(x.dtype)
        arrs, sc = {}, {"fmin": [0.08, 0.1, 0.125][case["v"] % 3], "fmax": [0.4, 0.35][case["v"] % 2],
                        "n_voices": nv}
    else:
        x = sig.arr(case["s"])
        arrs, sc = {}, {"n_fbins": case["n"]}
        if case.get("w"):
            arrs["fwindow"] = sig.arr(case["w"])
        if case.get("ts"):
            arrs["timestamps"] = np.array(case["ts"])
    ob = catalog.obj_class(obj)(x, **dict(arrs, **sc))
    res = ob.run()
    mat, ts, fr = [np.asarray(a) for a in res[:3]]
    S = 1.0 if case["exact"] else 3000.0 / (np.max(np.abs(mat)) or 1.0)
    b = np.empty((mat.shape[0], 2 * mat.shape[1]))
    b[:, 0::2], b[:, 1::2] = mat.real, mat.imag
    conv = (lambda a: dec.ints(a)) if case["exact"] else (lambda a: np.rint(np.clip(np.nan_to_num(a, nan=9e8), -1e9, 1e9)).astype(int).tolist())
    rec["mat"] = conv(b * S)
    rec["real"] = bool(np.all(mat.imag == 0))
    rec["f"] = dec.fix(np.array([fr[0], fr[-1]]), 1e6)
    rec["fs"] = dec.fix(fr, 1e6)
    rec["ts"] = [int(4 * ts.min()), int(4 * ts.max())]
    rec["tcol"] = dec.ints(4 * ts)
    rec["cx"] = [[int(v.real), int(v.imag)] for v in x]
    rec["sig"] = dec.ints(np.real(x))
    rec["title"] = ob.name.upper() if obj not in TITLE else TITLE[obj]
    before = digest(ob)
    shown = np.abs(mat[:mat.shape[0] // 2] if fam in ("stft", "spec", "mh", "page") else mat)
    if shown.max() == 0 or np.ptp(shown) <= 0.01 * shown.max() or mat[:len(shown)].real.max() <= 0:      # no levels to speak of
        for o, q in zip(case["ops"], rec["ops"]):
            o["lv"] = q["lv"] = "none"
    fig0, nfig = None, 0
    for o in case["ops"]:
        kw = {}
        if not o.get("omit"):
            kw.update(kind=o["kind"])
            if fam == "aff" or o["tf"] or o.get("saytf"):
                kw["show_tf"] = o["tf"]
        if not o.get("defthr"):
            kw["threshold"] = o["p"] / float(o["q"])
        if not o.get("defsq"):
            kw["sqmod"] = o["sq"]
        if not o["ann"]:
            kw["default_annotation"] = False
        if not (o["show"] and o.get("defshow")):
            kw["show"] = o["show"]
        nr = mat.shape[0] // 2 if fam in ("stft", "spec", "mh", "page") else mat.shape[0]
        given = None
        if o.get("lv") == "log":
            kw["scale"] = "log"
        if o.get("lv") == "given":
            mm = (np.abs(mat[:nr]) if fam == "wv" or squared(fam, o) else mat[:nr].real).max()
            kw["levels"] = (mm * mm if squared(fam, o) else mm) * np.array(GIVEN) / 32.0
        if o.get("grid"):
            kw["contour_x"], kw["contour_y"] = np.arange(mat.shape[1]) * 2 + 1, np.arange(nr) / 8.0
        if o["ax"]:
            fig0, given = plt.subplots()
            kw["ax"] = given
        known = set(plt.get_fignums())
        del DRAWN[:]
        err = ""
        try:
            ob.plot(**kw)
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
        nfig += len(set(plt.get_fignums()) - known)
        d = {"err": err[:120], "figs": nfig, "shows": len(shows), "drew": len(DRAWN), "kind": "", "given": False, "z": [],
             "lv": [], "top": 0, "ext": [0, 0, 0, 0], "xs": [], "ys": [], "specs": [], "lim": [0, 0], "lower": 0, "lab": ["", "", ""], "lines": [], "same": 1 if digest(ob) == before else 0}
        if len(DRAWN) == 1:
            kind, ax, a, art, lv = DRAWN[0]
            if lv is not None and np.ndim(lv) == 1 and len(lv) and lv[-1] > 0:
                d["lv"] = dec.fix(np.asarray(lv, dtype=float) / lv[-1], 30000)
                d["top"] = conv(np.array([[32 * lv[-1] / (32 if o.get("lv") != "given" else GIVEN[-1])]]) * (S * S if squared(fam, o) else S))[0][0]
            d["kind"], d["given"] = kind, ax is given
            if kind == "cmap":
                z = np.ma.getdata(art.get_array())
                e = art.get_extent()
                d["lower"] = 1 if art.origin == "lower" else 0
            else:
                z = np.ma.getdata(np.asarray(a[2])) if len(a) > 2 else np.asarray(a[0])
                X, Y = (np.asarray(a[0]), np.asarray(a[1])) if len(a) > 2 else (np.zeros(1), np.zeros(1))
                e = [X.min(), X.max(), Y.min(), Y.max()]
                if X.shape == z.shape == Y.shape and np.all(X == X[:1]) and np.all(Y == Y[:, :1]):
                    d["xs"], d["ys"] = dec.ints(X[0] * 4), dec.fix(Y[:, 0], 1e6)
            z = np.asarray(z)
            if np.iscomplexobj(z):
                z = np.where(np.abs(z.imag) <= 1e-9 * (1 + np.abs(z.real)), z.real, np.nan)
            d["z"] = conv(z * (S * S if squared(fam, o) else S))
            d["ext"] = dec.ints(np.array(e[:2]) * 4) + dec.fix(np.array(e[2:]), 1e6)
            d["lab"] = [str(ax.get_xlabel()), str(ax.get_ylabel()), str(ax.get_title())]
            if o["tf"]:
                for q in ax.figure.axes:
                    for l in q.lines:
                        xd, yd = np.asarray(l.get_xdata()), np.asarray(l.get_ydata())
                        if yd.shape == x.shape and np.array_equal(xd, np.arange(x.size)):
                            d["lines"].append(dec.ints(yd))
                        if fam != "aff" and np.array_equal(yd, np.arange(x.size // 2)):
                            d["specs"].append(dec.fix(xd, 1e4))
                        nv = mat.shape[0]
                        if fam == "aff" and yd.shape == (nv,) and np.allclose(yd * 2 * nv, np.arange(nv)):
                            d["specs"].append(dec.fix(xd, 100))
                            d["lim"] = dec.fix(np.array(q.get_ylim()), 1e6)
        rec["obs"].append(d)
        plt.close("all")
        known = set()
    return rec


def weight(case):
    return 20 * len(case["ops"]) + len(case["ops"]) * case.get("n", 30) * 1.0


def fill(rng, obj, ops, defaults=False):
    fam = FAM.get(obj, "aff")
    out = []
    for o in ops:
        o = dict(o)
        d0 = (0, 1) if obj == "spec" else (1, 20)
        o["defthr"] = bool(rng.random() < 0.25)
        p, q = d0 if o["defthr"] else [(1, 4), (1, 2), (1, 16), (3, 8), (0, 1), (1, 1), (1, 20), (1, 3), (1, 100)][int(rng.integers(0, 9))]
        if fam == "aff" and p == q:
            p, q = 1, 4
        o["p"], o["q"] = p, q
        dsq = fam != "wv"
        o["defsq"] = fam in ("stft", "spec", "aff") or bool(rng.random() < 0.6)
        o["sq"] = dsq if o["defsq"] else bool(rng.random() < 0.5)
        o["lv"], o["grid"] = "none", False
        if o["kind"] == "contour":
            o["grid"] = bool(rng.random() < 0.25)
            if rng.random() < 0.3:
                o["lv"] = "given"
            elif fam == "wv" and 0 < p < q and rng.random() < 0.6:
                o["lv"] = "log"
        o["defshow"] = bool(rng.random() < 0.4)
        o["saytf"] = bool(rng.random() < 0.3)
        out.append(o)
    return out


def case_of(rng, obj, ops, exact):
    c = {"obj": obj, "ops": fill(rng, obj, ops), "exact": exact}
    if obj in catalog.AFF:
        c.update(exact=False, v=int(rng.integers(0, 6)) if rng.random() < 0.4 else int(rng.integers(6, 1000)))
        return c
    if exact:
        n = int(sig.pick(rng, [2, 4, 4, 4]))
        N = int(rng.integers(4, 9))
        if obj == "wv":
            n = 4
    else:
        n = int(rng.integers(5, 17))
        N = int(rng.integers(5, 14))
    if n // 2 < 2 and FAM[obj] != "wv":          # contours need two rows
        n = 4
    c["n"] = n
    c["s"] = sig.signal(rng, N, sig.pick(rng, ["rand", "rand", "real", "nonneg", "sparse"]), 4, dtype="complex128", scale=0)
    if exact:
        if obj in ("stft", "pwv", "pmh", "ppage"):
            L = int(sig.pick(rng, [1, 3]))
            c["w"] = sig.window(rng, L, "sym", 3, False)
        if obj == "spec":
            c["w"] = {"v": [[1, 0]], "dtype": "float64", "layout": "c", "k": 0}
    elif obj not in ("wv", "mh", "page") and rng.random() < 0.6:
        L = 2 * int(rng.integers(0, max(1, n // 2 - 1))) + 1
        c["w"] = sig.window(rng, L, "sym", 3, False)
    if obj in ("spec", "mh", "page") and rng.random() < 0.4:
        a = int(rng.integers(0, N - 2))
        c["ts"] = list(range(a, int(rng.integers(a + 2, N + 1))))
        if rng.random() < 0.3:
            c["ts"] = [int(v) for v in rng.permutation(c["ts"])]
    return c


def cases(tier, rng, scen):
    objs = list(FAM)
    everything = objs * 3 + list(catalog.AFF)
    j = 0
    for s in scen:
        j += 1
        if tier == "quick" and j % 3:
            continue
        ops = s["ops"]
        obj = everything[(j // (3 if tier == "quick" else 1)) % len(everything)]
        if len(ops) == 2 and obj in catalog.AFF and tier == "quick" and j % 2:
            ops = ops[:1]
        c = case_of(rng, obj, ops, bool(rng.random() < 0.5))
        yield dict(c, label="enumerated-" + obj)
    # the defaults
    for obj in objs + list(catalog.AFF):
        for v in range(4):
            o = {"kind": "contour" if obj == "pwv" or obj in catalog.AFF else "cmap", "ax": False, "show": True,
                 "tf": obj in catalog.AFF, "ann": True}
            c = case_of(rng, obj, [o, o], v % 2 == 0)
            for p in c["ops"]:
                p.update(omit=True, lv="none", grid=False)
            c["ops"][0].update(defthr=True, p=0 if obj == "spec" else 1, q=1 if obj == "spec" else 20, defshow=True, defsq=True,
                               sq=FAM.get(obj, "aff") != "wv")
            yield dict(c, label="default-" + obj)
