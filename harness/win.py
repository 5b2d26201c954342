"""Default windows: recorded through the distributions of constant / impulse
signals and decoded to Hamming-window indices (C23, also C02, C05, C06)."""
import math
import numpy as np
from harness import dec, lag


def oddlen(q):
    return q + 1 - q % 2


def hamidx(v, L):
    """value -> index of a symmetric L-point Hamming window, folded"""
    out = []
    for z in np.asarray(v).ravel():
        z = complex(z)
        if not (math.isfinite(z.real) and math.isfinite(z.imag)) or abs(z.imag) > 1e-7:
            out.append(dec.NOTINT)
            continue
        z = z.real
        if abs(z) < 1e-9:
            out.append(-1)
            continue
        if L == 1:
            out.append(0 if abs(z - 1) < 1e-9 else dec.NOTINT)
            continue
        c = (0.54 - z) / 0.46
        if abs(c) > 1 + 1e-9:
            out.append(dec.NOTINT)
            continue
        j = math.acos(max(-1.0, min(1.0, c))) / (2 * math.pi) * (L - 1)
        r = round(j)
        out.append(int(r) if abs(j - r) < 1e-4 else dec.NOTINT)
    return out


def execute(case):
    kind, N, n, how = case["kind"], case["N"], case["n"], case["how"]
    div = case.get("div", 4)
    L = oddlen(n // div)
    rec = {"kind": kind, "N": N, "n": n, "L": L, "div": div, "mode": "lag", "off": 0,
           "inst": list(range(N)), "obs": []}
    one = np.ones(N, dtype=case.get("dtype", "complex128"))
    lh = (L - 1) // 2
    if how == "object":
        obj = lag.cls(kind)(one, n_fbins=n) if not case.get("default_n") else lag.cls(kind)(one)
        tfr = np.asarray(obj.run()[0])
    else:
        import tftb.processing.reassigned as R
        import tftb.processing.cohen as C
        if how == "smoothed":
            tfr = C.smoothed_pseudo_wigner_ville(one, freq_bins=n)
        elif how == "re-smoothed":
            tfr = R.smoothed_pseudo_wigner_ville(one, n_fbins=n)[0]
        elif how.startswith("re:"):
            f = getattr(R, how[3:])
            tfr = f(one, n_fbins=n)[0]
        elif how == "smoothed-time":
            t0 = N // 2
            x = np.zeros(N, complex)
            x[t0] = 1
            tfr = C.smoothed_pseudo_wigner_ville(x, freq_bins=n)
            g = np.mean(np.real(tfr), axis=0)
            rec.update(mode="offset", off=t0, obs=[hamidx(g / g[t0], L)])
            return rec
        elif how == "re-smoothed-time":
            t0 = N // 2
            x = np.zeros(N, complex)
            x[t0] = 1
            tfr = R.smoothed_pseudo_wigner_ville(x, n_fbins=n)[0]
            g = np.mean(np.real(tfr), axis=0)
            rec.update(mode="offset", off=t0, obs=[hamidx(g / g[t0], L)])
            return rec
        elif how in ("spec", "re-spec"):
            t0 = N // 2
            x = np.zeros(N, complex)
            x[t0] = 1
            if how == "spec":
                tfr = lag.cls("spec")(x, n_fbins=n).run()[0]
            else:
                tfr = R.spectrogram(x, n_fbins=n)[0]
            g = np.sqrt(np.mean(np.abs(tfr), axis=0))
            rec.update(mode="offset", off=t0 - lh, obs=[hamidx(g / g[t0], L)[lh:N - lh]])
            return rec
    tfr = np.asarray(tfr)
    m = np.fft.ifft(tfr, axis=0)
    if kind == "ppage":
        m[1:] *= 2
    insts = range(N)
    if kind == "pmh":
        insts = range(lh, N - lh)
    if kind in ("full",):
        insts = range(min(N // 2, lh), max(N - lh, N // 2 + 1))
    rec["inst"] = list(insts)
    rec["obs"] = [hamidx(m[:, t], L) for t in insts]
    return rec


def base(case):
    return {"kind": case["kind"], "N": case["N"], "n": case["n"], "L": 0, "div": 4, "mode": "lag", "off": 0,
            "inst": [], "obs": []}


def cases_for(kinds, rng, count, sizes=(1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 20, 23, 24, 28, 31, 32, 40, 64)):
    for kind in kinds:
        for j in range(count):
            n = int(sizes[int(rng.integers(0, len(sizes)))])
            N = n if rng.random() < 0.5 else int(rng.integers(1, 50))
            if kind == "mh":
                continue
            if kind == "ppage" and n == 2:
                n = 3
            yield {"label": "default-" + kind, "trace": "TraceWin", "kind": kind, "how": "object", "N": N, "n": n,
                   "default_n": bool(N == n and rng.random() < 0.5)}
