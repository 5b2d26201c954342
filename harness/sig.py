"""Generation (JSON) and materialisation (NumPy) of signals and windows."""
import numpy as np

DTYPES = ["complex128", "float64", "complex64", "float32", "int64", "int32"]
LAYOUTS = ["c", "strided", "reversed", "readonly", "offset"]


def gauss(rng, n, amp=4, real=False, nonzero=False):
    re = rng.integers(-amp, amp + 1, n)
    im = np.zeros(n, int) if real else rng.integers(-amp, amp + 1, n)
    if nonzero:
        z = (re == 0) & (im == 0)
        re = np.where(z, 1, re)
    return [[int(a), int(b)] for a, b in zip(re, im)]


def shape_signal(rng, n, kind, amp=4):
    if kind == "rand":
        return gauss(rng, n, amp)
    if kind == "real":
        return gauss(rng, n, amp, real=True)
    if kind == "nonneg":
        return [[int(a), 0] for a in rng.integers(0, amp + 1, n)]
    if kind == "impulse":
        v = [[0, 0]] * n
        v[int(rng.integers(0, n))] = [int(rng.integers(1, amp + 1)), int(rng.integers(-amp, amp + 1))]
        return v
    if kind == "first":
        v = [[0, 0]] * n
        v[0] = [2, 1]
        return v
    if kind == "last":
        v = [[0, 0]] * n
        v[-1] = [1, -2]
        return v
    if kind == "const":
        a = [int(rng.integers(1, amp + 1)), int(rng.integers(-amp, amp + 1))]
        return [list(a) for _ in range(n)]
    if kind == "zero":
        return [[0, 0]] * n
    if kind == "alt":
        return [[3 * (-1) ** j, 0] for j in range(n)]
    if kind == "quad":          # multiples of i: a tone at a quarter
        c = [[2, 0], [0, 2], [-2, 0], [0, -2]]
        return [c[j % 4] for j in range(n)]
    if kind == "imag":
        return [[0, int(a)] for a in rng.integers(-amp, amp + 1, n)]
    if kind == "sparse":
        v = gauss(rng, n, amp)
        keep = rng.random(n) < 0.25
        return [x if k else [0, 0] for x, k in zip(v, keep)]
    raise ValueError(kind)


KINDS = ["rand", "rand", "rand", "real", "nonneg", "impulse", "first", "last", "const", "alt", "quad",
         "imag", "sparse", "zero"]


def pick(rng, seq):
    return seq[int(rng.integers(0, len(seq)))]


def signal(rng, n, kind=None, amp=4, dtype=None, layout=None, scale=None, plain=0.5):
    """A random signal description; half of them plain complex128."""
    kind = kind or pick(rng, KINDS)
    v = shape_signal(rng, n, kind, amp)
    isreal = all(b == 0 for _, b in v)
    if dtype is None:
        dtype = "complex128"
        if rng.random() > plain:
            dtype = pick(rng, DTYPES if isreal else ["complex128", "complex64"])
    if layout is None:
        layout = "c" if rng.random() < plain else pick(rng, LAYOUTS)
    if scale is None:
        scale = 0
        if rng.random() > 0.8 and dtype in ("complex128", "float64"):
            scale = int(pick(rng, [-30, -20, -7, -1, 1, 5, 16, 30]))
    return {"v": v, "dtype": dtype, "layout": layout, "k": scale, "kind": kind}


def arr(s):
    """materialise a signal description"""
    v = np.array([complex(a, b) for a, b in s["v"]], dtype=complex)
    dt = np.dtype(s["dtype"])
    if s.get("k"):
        v = v * 2.0 ** s["k"]
    if dt.kind != "c":
        v = v.real
    v = v.astype(dt)
    lay = s.get("layout", "c")
    if lay == "strided":
        b = np.full(2 * v.size + 1, 77, dtype=dt)
        b[1::2][:v.size] = v
        return b[1::2][:v.size]
    if lay == "reversed":
        b = v[::-1].copy()
        return b[::-1]
    if lay == "readonly":
        v.flags.writeable = False
        return v
    if lay == "offset":
        b = np.full(v.size + 3, 55, dtype=dt)
        b[3:] = v
        return b[3:]
    if lay == "row":
        return v.reshape(1, -1)
    if lay == "col":
        return v.reshape(-1, 1)
    return v


def window(rng, length, kind=None, amp=3, single=True):
    kind = kind or pick(rng, ["rand", "rand", "complex", "ones", "sym", "ramp", "spike"])
    if kind == "ramp" and length > 9:
        kind = "rand"
    if kind == "rand":
        v = gauss(rng, length, amp, real=True, nonzero=True)
    elif kind == "complex":
        v = gauss(rng, length, amp, nonzero=True)
    elif kind == "ones":
        v = [[1, 0]] * length
    elif kind == "sym":
        h = rng.integers(1, amp + 1, length)
        v = [[int(h[min(j, length - 1 - j)]), 0] for j in range(length)]
    elif kind == "ramp":
        v = [[j + 1, 0] for j in range(length)]
    else:
        v = [[1, 0]] * length
        v[int(rng.integers(0, length))] = [amp + 2, 0]
    isreal = all(b == 0 for _, b in v)
    dt = "complex128" if not isreal else pick(rng, ["float64", "float64", "complex128", "int64", "float32"])
    if dt == "float32" and not single:      # normalised in single precision: not decodable
        dt = "float64"
    lay = "c" if rng.random() < 0.6 else pick(rng, LAYOUTS)
    return {"v": v, "dtype": dt, "layout": lay, "k": 0, "kind": kind}


def posreal_window(rng, length, amp=3):
    return window(rng, length, pick(rng, ["ones", "sym", "ramp"] if length < 12 else ["ones", "sym"]), amp, False)
