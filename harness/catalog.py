"""A catalogue of library calls: name -> (input arrays, function of those arrays).
Used wherever a property quantifies over 'every call' (C17, C19, C20).
`arrays(name, variant)` is deterministic."""
import numpy as np

OBJ = {"stft": "ShortTimeFourierTransform", "spec": "Spectrogram", "wv": "WignerVilleDistribution",
       "pwv": "PseudoWignerVilleDistribution", "mh": "MargenauHillDistribution",
       "pmh": "PseudoMargenauHillDistribution", "page": "PageRepresentation", "ppage": "PseudoPageRepresentation"}
AFF = {"scalogram": "Scalogram", "bertrand": "BertrandDistribution", "dflandrin": "DFlandrinDistribution",
       "unterberger": "UnterbergerDistribution"}
REA = ["spectrogram", "pseudo_wigner_ville", "smoothed_pseudo_wigner_ville", "pseudo_margenau_hill", "pseudo_page",
       "morlet_scalogram"]


def obj_class(kind):
    import tftb.processing.cohen as C
    import tftb.processing.linear as L
    import tftb.processing.affine as A
    n = OBJ.get(kind) or AFF[kind]
    for m in (C, L, A):
        if hasattr(m, n):
            return getattr(m, n)
    raise AttributeError(n)


def _rng(name, v):
    return np.random.Generator(np.random.PCG64([sum(ord(ch) * (j + 1) for j, ch in enumerate(name)), v]))


def _sig(r, n, real=False):
    x = r.standard_normal(n)
    if not real:
        x = x + 1j * r.standard_normal(n)
    return x


def chirp(n, a=0.1, b=0.35):
    t = np.arange(n)
    return np.exp(2j * np.pi * (a * t + (b - a) * t ** 2 / (2.0 * n))) * np.exp(-((t - n / 2.0) / (n / 3.0)) ** 2)


def object_args(kind, v):
    """(signal, kwargs of arrays, kwargs of scalars) of a representation object"""
    r = _rng(kind, v)
    N = int(r.integers(9, 24))
    if kind in AFF:
        N = int(r.integers(36, 50))
        x = chirp(N)
        if v % 2:
            return x, {}, {"fmin": 0.08, "fmax": 0.4, "n_voices": 12 + v % 5}
        return np.real(x), {}, {"fmin": 0.1, "fmax": 0.35}
    x = _sig(r, N, real=v % 3 == 2)
    n = [N, N + 3, max(5, N // 2), 2 * N][v % 4]
    arrs, sc = {}, {"n_fbins": n}
    if v % 2 and kind not in ("wv", "mh", "page"):
        L = max(3, n // 3)
        if kind == "spec":
            L = min(L, 2 * max(0, n // 2 - 2) + 1)
        arrs["fwindow"] = np.abs(r.standard_normal(L)) + 0.1
        if v % 4 == 3:
            arrs["fwindow"] = arrs["fwindow"] + 1j * r.standard_normal(L)
    if v % 3 == 1:
        arrs["timestamps"] = np.arange(N)
    return x, arrs, sc


def names():
    out = ["run:" + k for k in list(OBJ) + list(AFF)]
    out += ["re:" + k for k in REA]
    out += ["spwv", "narrow_band", "wide_band", "gabor", "loctime", "locfreq", "inst_freq", "group_delay", "group_delay_f",
            "renyi", "renyi1", "integrate", "ideal", "friedman", "ridges", "ridges2", "hough", "derive", "sigmerge",
            "scale", "atoms", "fmodany", "izak", "nextpow2", "nearest_odd", "modulo", "is_linear", "get_spectrum",
            "amgauss", "amexpos", "amrect", "amtriang", "fmconst", "fmhyp", "fmlin", "fmpar", "fmpower", "fmsin",
            "altes", "doppler", "klauder", "mexhat", "gdpower", "anapulse", "anastep", "anasing", "divider"]
    return out


def build(name, v):
    """-> (dict of input arrays, call(dict) -> result)"""
    r = _rng(name, v)
    N = int(r.integers(10, 26))
    import tftb.generators as G
    import tftb.processing as P
    import tftb.utils as U
    if name.startswith("run:"):
        kind = name[4:]
        x, arrs, sc = object_args(kind, v)
        a = dict(arrs, signal=x)

        def call(d):
            d = dict(d)
            s = d.pop("signal")
            return obj_class(kind)(s, **dict(d, **sc)).run()
        return a, call
    if name.startswith("re:"):
        import tftb.processing.reassigned as R
        f = getattr(R, name[3:])
        if name == "re:morlet_scalogram":
            x = chirp(48 + v % 5)
            return {"signal": x, "timestamps": np.arange(0, len(x))}, \
                lambda d: f(d["signal"], timestamps=d["timestamps"], n_fbins=16 + v % 3, tbp=2.5)
        a = {"signal": _sig(r, 20 + v % 7)}
        wn = "window" if name == "re:spectrogram" else "fwindow"
        tn = "time_samples" if name == "re:spectrogram" else "timestamps"
        if v % 2:
            a[wn] = np.hamming(7)
        if v % 3 == 1:
            a[tn] = np.arange(len(a["signal"]))
        if name == "re:smoothed_pseudo_wigner_ville" and v % 2:
            a["twindow"] = np.hamming(5)

        def call(d):
            d = dict(d)
            s = d.pop("signal")
            return f(s, n_fbins=16 + v % 4, **d)
        return a, call
    if name == "spwv":
        from tftb.processing.cohen import smoothed_pseudo_wigner_ville as f
        a = {"signal": _sig(r, N), "timestamps": np.arange(N)}
        if v % 2:
            a.update(twindow=np.hamming(3), fwindow=np.hamming(5))

        def call(d):
            d = dict(d)
            return f(d.pop("signal"), freq_bins=N + v % 3, **d)
        return a, call
    if name == "narrow_band":
        from tftb.processing.ambiguity import narrow_band
        a = {"signal": _sig(r, N)}
        if v % 2:
            a["lag"] = np.arange(-3, 4)
        return a, lambda d: narrow_band(d["signal"], lag=d.get("lag"))
    if name == "wide_band":
        from tftb.processing.ambiguity import wide_band
        return {"signal": np.real(chirp(40 + v % 6))}, lambda d: wide_band(d["signal"], 0.1, 0.35, 32)
    if name == "gabor":
        from tftb.processing.linear import gabor
        a = {"signal": _sig(r, 24)}
        if v % 2:
            a["window"] = np.hanning(9)[1:-1]
        return a, lambda d: gabor(d["signal"], n_coeff=[6, 4, 8][v % 3], q_oversample=1, window=d.get("window"))
    if name in ("loctime", "locfreq"):
        f = getattr(P, name)
        return {"signal": _sig(r, N)}, lambda d: f(d["signal"])
    if name == "inst_freq":
        return {"x": _sig(r, N), "t": np.arange(2, N - 1)}, lambda d: P.inst_freq(d["x"], d["t"] if v % 2 else None)
    if name == "group_delay":
        return {"x": _sig(r, N)}, lambda d: P.group_delay(d["x"])
    if name == "group_delay_f":
        return {"x": _sig(r, N), "fnorm": np.linspace(0.05, 0.4, 6)}, lambda d: P.group_delay(d["x"], d["fnorm"])
    if name in ("renyi", "renyi1"):
        from tftb.processing.postprocessing import renyi_information
        a = {"tfr": np.abs(r.standard_normal((8, 7))) + 0.1}
        if v % 2:
            a.update(timestamps=np.arange(7), freq=np.fft.fftfreq(8))
        if v % 4 == 3:
            a["timestamps"] = np.arange(7) * 0.5
        return a, lambda d: renyi_information(d["tfr"], d.get("timestamps"), d.get("freq"), 1 if name == "renyi1" else 3)
    if name == "integrate":
        from tftb.processing.utils import integrate_2d
        return {"mat": r.standard_normal((6, 7)), "x": np.arange(7) * 0.5, "y": np.sort(r.random(6))}, \
            lambda d: integrate_2d(d["mat"], d["x"], d["y"])
    if name == "ideal":
        return {"iflaws": np.vstack([np.linspace(0, 0.45, N), np.linspace(0.4, 0.1, N)]), "ts": np.arange(N)}, \
            lambda d: P.ideal_tfr(d["iflaws"], d["ts"], 12)
    if name in ("friedman", "ridges", "ridges2"):
        from tftb.processing import postprocessing as PP
        t = np.abs(r.standard_normal((9, 8)))
        field = r.integers(0, 9, (9, 8)) + 1j * r.integers(0, 8, (9, 8))
        if name == "friedman":
            return {"tfr": t, "re_mat": field, "ts": np.arange(8)}, lambda d: PP.friedman_density(d["tfr"], d["re_mat"], d["ts"])
        m = {"ridges": "rpwv", "ridges2": "rsp"}[name]
        if name == "ridges":
            field = np.real(field)
        return {"tfr": t, "re_mat": field, "ts": np.arange(8)}, lambda d: PP.ridges(d["tfr"], d["re_mat"], d["ts"], m)
    if name == "hough":
        from tftb.processing.postprocessing import hough_transform
        return {"image": np.abs(r.standard_normal((6, 7)))}, lambda d: hough_transform(d["image"], 9, 10)
    if name == "derive":
        from tftb.processing.utils import derive_window
        return {"window": r.standard_normal(9)}, lambda d: derive_window(d["window"])
    if name == "sigmerge":
        return {"x1": _sig(r, N), "x2": _sig(r, N)}, lambda d: G.sigmerge(d["x1"], d["x2"], 3.0)
    if name == "scale":
        return {"X": np.real(chirp(32 + v % 4))}, lambda d: G.scale(d["X"], 1.3, 0.05, 0.45, 64)
    if name == "atoms":
        c = np.array([[8.0, 0.2, 6.0, 1.0], [30.0, 0.7, 4.0, -1.0], [-3.0, -0.1, 5.0, 2.0]])[:2 + v % 2]
        return {"coordinates": c}, lambda d: G.atoms(20, d["coordinates"])
    if name == "fmodany":
        return {"iflaw": r.random(N) - 0.5}, lambda d: G.fmodany(d["iflaw"], 1 + v % N)
    if name == "izak":
        return {"x": _sig(r, 12).reshape(3, 4)}, lambda d: U.izak(d["x"])
    if name == "nextpow2":
        return {"n": np.arange(1, 20)}, lambda d: U.nextpow2(d["n"])
    if name == "nearest_odd":
        return {"N": np.arange(0, 12) + 0.25 * (v % 2)}, lambda d: U.nearest_odd(d["N"])
    if name == "modulo":
        return {"x": np.arange(-7, 12)}, lambda d: U.modulo(d["x"], 5)
    if name == "is_linear":
        return {"x": np.arange(12) * 0.5}, lambda d: U.is_linear(d["x"])
    if name == "get_spectrum":
        from tftb.processing.utils import get_spectrum
        return {"signal": _sig(r, N)}, lambda d: get_spectrum(d["signal"])
    n = 16 + v % 9
    plain = {"amgauss": lambda: G.amgauss(n, 7, 5.0), "amexpos": lambda: G.amexpos(n, 6, 4.0, kind="unilateral"),
             "amrect": lambda: G.amrect(n), "amtriang": lambda: G.amtriang(n), "fmconst": lambda: G.fmconst(n, 0.2, 3),
             "fmhyp": lambda: G.fmhyp(n, (1, 0.5), (12, 0.1)), "fmlin": lambda: G.fmlin(n, 0.1, 0.4),
             "fmpar": lambda: G.fmpar(n, (0.1, 0.01, 1e-4)), "fmpower": lambda: G.fmpower(n, 0.5, (1, 0.5, 100, 0.1)),
             "fmsin": lambda: G.fmsin(n), "altes": lambda: G.altes(n, 0.1, 0.45),
             "doppler": lambda: G.doppler(n, 200.0, 65.0, 10.0, 50.0), "klauder": lambda: G.klauder(n),
             "mexhat": lambda: G.mexhat(0.05 + 0.01 * (v % 9)), "gdpower": lambda: G.gdpower(n, [0., 1., 2., -1.][v % 4]),
             "anapulse": lambda: G.anapulse(n, 5), "anastep": lambda: G.anastep(n, 5),
             "anasing": lambda: G.anasing(n, 5, 1.0), "divider": lambda: U.divider(n)}[name]
    return {}, lambda d: plain()
