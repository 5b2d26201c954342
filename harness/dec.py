"""Decoders: fixed, invertible projections of the implementation's floating
point outputs onto the integers the TLA+ specifications talk about.  Nothing in
here knows what a value *should* be; a number that is not the image of an
integer is emitted as NOTINT, which no specification accepts."""
from fractions import Fraction
import math
import numpy as np

NOTINT = 999983
LIM = 2 ** 30


def _round(a, tol):
    a = np.asarray(a, dtype=float)
    ok = np.isfinite(a) & (np.abs(np.where(np.isfinite(a), a, 0)) < LIM)
    b = np.where(ok, a, 0.0)
    r = np.rint(b)
    m = float(np.max(np.abs(b))) if b.size else 0.0
    t = tol * (1.0 + m)
    ok &= np.abs(b - r) <= min(t, 0.05)
    return np.where(ok, r, NOTINT).astype(np.int64)


def ints(a, scale=1, tol=1e-7):
    """real array -> nested list of integers (a * scale)."""
    a = np.asarray(a)
    if np.iscomplexobj(a):
        if a.size and np.max(np.abs(np.nan_to_num(a.imag))) > 1e-6 * (1 + np.max(np.abs(np.nan_to_num(a.real)))):
            return np.full(a.shape, NOTINT).tolist()
        a = a.real
    return _round(a.astype(float) * scale, tol).tolist()


def cints(a, scale=1, tol=1e-7):
    """complex vector -> flat list [re0, im0, re1, im1, ...]."""
    a = np.asarray(a).ravel().astype(complex) * scale
    fin = np.isfinite(a)
    m = float(np.max(np.abs(a[fin]))) if fin.any() else 0.0
    both = np.empty(2 * a.size)
    both[0::2] = a.real
    both[1::2] = a.imag
    return _round(both, tol).tolist()


def one(v, scale=1, tol=1e-7):
    try:
        v = np.asarray(v)
        if v.size != 1:
            return NOTINT
        return ints(v.reshape(1), scale, tol)[0]
    except (TypeError, ValueError):
        return NOTINT


def rat(v, maxden, tol=1e-9):
    """float -> [p, q] in lowest terms with q <= maxden, or [NOTINT, 1]."""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return [NOTINT, 1]
    if not math.isfinite(v) or abs(v) > 1e8:
        return [NOTINT, 1]
    f = Fraction(v).limit_denominator(maxden)
    if abs(float(f) - v) > tol * (1.0 + abs(v)) or abs(f.numerator) >= LIM:
        return [NOTINT, 1]
    return [f.numerator, f.denominator]


def crat(a, maxden, tol=1e-9):
    """complex vector -> [[p,q],[p,q], ...] re/im interleaved."""
    out = []
    a = np.asarray(a).ravel().astype(complex)
    m = float(np.max(np.abs(a[np.isfinite(a)]))) if np.isfinite(a).any() else 0.0
    for z in a:
        for v in (z.real, z.imag):
            if np.isfinite(v) and abs(v) < tol * (1 + m):
                out.append([0, 1])
            else:
                out.append(rat(v, maxden, tol * (1 + m) / (1 + abs(v) if np.isfinite(v) else 1)))
    return out


def fix(a, scale):
    """fixed point: nested list of rint(a * scale), saturating; NaN -> NOTINT
    is impossible to confuse because the specs bound values well below LIM."""
    a = np.asarray(a)
    if np.iscomplexobj(a):
        a = np.where(np.abs(a.imag) <= 1e-7 * (1 + np.abs(a.real)), a.real, np.nan)
    b = a.astype(float) * scale
    bad = ~np.isfinite(b)
    b = np.clip(np.where(bad, 0, b), -LIM, LIM)
    return np.where(bad, LIM + 7, np.rint(b)).astype(np.int64).tolist()


def phase(z, M, tol=1e-6):
    """unit-modulus sample -> integer phase in units of 1/M turn, mod M."""
    z = np.asarray(z).ravel().astype(complex)
    p = np.angle(np.where(np.isfinite(z), z, 1)) / (2 * np.pi) * M
    r = np.rint(p)
    ok = np.isfinite(z) & (np.abs(p - r) <= tol * M if tol * M < 0.2 else np.abs(p - r) <= 0.2)
    return np.where(ok, np.mod(r, M), NOTINT).astype(np.int64).tolist()


def same(a, b):
    """bit-for-bit equality of two results (arrays / nested tuples)."""
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))
