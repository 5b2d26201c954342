"""C24: validation."""
import numpy as np
from harness import sig

TRACE = "TraceGuard"
WHAT = ("every validated call of the library against the specification's table of guards, on the whole enumerated domain "
        "(values on, one billionth inside and outside every boundary) and in random orders and representations")
ASSUMES = ["a refusal is any exception"]
DESIGN = [("GuardDesign", "GuardDesign.cfg")]
SHARDS = 6
E9 = 1e9


def SCENARIOS(tier, seed):
    return [("GuardDesign", "GuardGen.cfg", ())]


def base(case):
    return {"calls": [{"f": f, "p": p} for f, p in case["calls"]], "obs": []}


def vec(n, seed=0):
    r = np.random.Generator(np.random.PCG64(seed))
    return r.standard_normal(n) + 1j * r.standard_normal(n)


def shaped(x, r, c):
    return x if c == 0 else x.reshape(r, c)


def call(f, p, alt):
    import tftb.generators as G
    import tftb.processing as P
    from tftb.processing import reassigned as R
    num = (lambda v: np.float64(v / E9)) if alt % 2 else (lambda v: v / E9)
    if f in ("amgauss", "amexpos", "amrect", "amtriang"):
        return getattr(G, f)(np.int64(p[0]) if alt % 2 else p[0])
    if f == "noisecg":
        return G.noisecg(p[0])
    if f == "fmconst":
        return G.fmconst(p[0], num(p[1]))
    if f == "fmlin":
        return G.fmlin(p[0], num(p[1]), num(p[2]))
    if f == "fmodany":
        law = np.zeros((p[0], max(1, p[1])))
        law[(alt % p[0]), -1] = p[2] / E9
        if p[1] == 0:
            law = law.ravel()
        return G.fmodany(law, p[3] // 2 if p[3] % 2 == 0 else p[3] / 2.0)
    if f in ("anaask", "anabpsk", "anaqpsk"):
        y = getattr(G, f)(p[0], f0=num(p[1]))
        return y
    if f == "doppler":
        fs = 8.0 * p[5]
        return G.doppler(p[0], fs, (p[2] / E9) * 8.0, p[3] / E9, p[4] / E9, t0=p[1] / 2.0)
    if f == "klauder":
        return G.klauder(p[0], f0=num(p[1]))
    if f == "mexhat":
        return G.mexhat(num(p[0]))
    if f == "gdpower":
        return G.gdpower(p[0], p[1] / 2.0, num(p[2]))
    if f == "sigmerge":
        x = [np.ones(6), np.ones((6, 1)), np.ones((3, 2, 1))]
        return G.sigmerge(x[p[0] - 1], x[p[1] - 1] * 2, [3, 3.0, "3", None, 3j][p[2]])
    x24 = vec(24, alt)
    if f in ("spwv-f", "spwv-t"):
        return P.smoothed_pseudo_wigner_ville(x24, **{{"f": "fwindow", "t": "twindow"}[f[-1]]: np.ones(p[0])})
    if f in ("re:spwv-f", "re:spwv-t"):
        return R.smoothed_pseudo_wigner_ville(x24, **{{"f": "fwindow", "t": "twindow"}[f[-1]]: np.ones(p[0])})
    if f == "re:spectrogram":
        return R.spectrogram(x24, window=np.ones(p[0]))
    if f.startswith("re:"):
        return getattr(R, f[3:])(x24, fwindow=np.ones(p[0]))
    if f == "gabor-window":
        from tftb.processing.linear import gabor
        return gabor(np.real(vec(48, alt)), n_coeff=6, q_oversample=1, window=np.hanning(p[0] + 2)[1:-1])
    if f.startswith("at:"):
        t = np.cumsum(np.array(p))
        t.flags.writeable = False
        if f == "at:morlet":
            return R.morlet_scalogram(x24, timestamps=t, n_fbins=12)
        if f == "at:spwv":
            return R.smoothed_pseudo_wigner_ville(x24, timestamps=t)
        return R.spectrogram(x24, time_samples=t)
    if f in ("loctime", "locfreq", "inst_freq", "group_delay"):
        return getattr(P, f)(shaped(vec(p[0] * max(1, p[1]), alt), p[0], p[1]))
    if f == "inst_freq-t":
        t = shaped(np.arange(2, 2 + p[0] * max(1, p[1])), p[0], p[1])
        return P.inst_freq(vec(2 + p[0] * max(1, p[1]), alt), t)
    if f == "wide_band":
        from tftb.processing.ambiguity import wide_band
        n = p[0] * max(1, p[1])
        t = np.arange(n)
        x = np.cos(2 * np.pi * (0.1 * t + 0.1 * t * t / max(1, n))) * np.exp(-((t - n / 2.0) / (n / 3.0)) ** 2)
        return wide_band(shaped(x, p[0], p[1]), 0.1, 0.35, 32)
    if f == "renyi":
        m = np.abs(vec(30, alt)).reshape(5, 6) + 0.5
        m[alt % 5, alt % 6] = p[1] / E9
        return P.renyi_information(m, alpha=p[0])
    if f == "ridges":
        from tftb.processing.postprocessing import ridges
        name = {0: "rpwv", 1: "rpmh", 2: "rspwv", 3: "rsp", 4: "type1", 10: "rwv", 11: "", 12: "foo", 13: "rspw", 14: "type2",
                15: "ridges", 16: "sp", 17: " rsp", 18: "rsp2"}[p[0]]
        return ridges(np.ones((4, 4)), np.zeros((4, 4)), method=name)
    raise KeyError(f)


def shapes(r):
    if not isinstance(r, tuple):
        r = (r,)
    return [[int(v) for v in np.shape(a)] for a in r]


def execute(case):
    obs = []
    alt = case["alt"]
    for f, p in case["calls"]:
        try:
            r = call(f, p, alt)
            obs.append({"r": False, "e": "", "s": shapes(r)})
        except (KeyError, ImportError, AttributeError) as e:
            if isinstance(e, KeyError) and e.args and e.args[0] == f:
                raise
            obs.append({"r": True, "e": type(e).__name__, "s": []})
        except Exception as e:
            obs.append({"r": True, "e": ("%s %s" % (type(e).__name__, e))[:60], "s": []})
        alt += 1
    return {"obs": obs}


COST = {"wide_band": 40, "re:": 30, "at:": 20, "spwv": 30, "gabor": 5}


def weight(case):
    w = 0
    for f, p in case["calls"]:
        w += next((v for k, v in COST.items() if f.startswith(k)), 1)
    return w


def cases(tier, rng, scen):
    byf = {}
    for s in scen:
        byf.setdefault(s["f"], []).append([s["f"], s["p"]])
    for f in sorted(byf):
        cs = sorted(byf[f])
        for v in range(1 if tier == "quick" else 4):
            for j in range(0, len(cs), 20):
                yield {"label": f, "calls": cs[j:j + 20], "alt": v + j}
    pool = sorted(c for f in byf for c in byf[f] if f not in ("doppler", "fmlin"))
    for j in range(40 if tier == "quick" else 800):
        k = rng.integers(0, len(pool), 12)
        yield {"label": "mixed", "calls": [pool[int(a)] for a in k], "alt": int(rng.integers(0, 1000))}
