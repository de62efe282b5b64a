"""Reference model of the mathematics (float64, numpy), and its error bounds.

Written from the README and docstrings, not from the implementation: Lagrange
interpolation on Chebyshev-Lobatto nodes, equal segments over [-length/2, length/2],
end segments extended outside.  Every value comes with a first order bound on what a
float32 evaluation may legitimately deviate.
"""
import math

import numpy as np

EPS = float(np.finfo(np.float32).eps)
C = 6.0  # slack on the first order error bounds


def nodes(n):
    if n == 1:
        return np.array([0.0])
    return np.array([-math.cos(math.pi * k / (n - 1)) for k in range(n)])


def lagrange(n, t):
    """t: any shape -> (L, D, S) of shape t.shape+(n,): values, derivatives, sensitivity
    of the values to relative float32 errors of nodes and differences."""
    t = np.asarray(t, dtype=np.float64)
    X = nodes(n)
    L = np.ones(t.shape + (n,))
    D = np.zeros(t.shape + (n,))
    S = np.ones(t.shape + (n,))
    if n == 1:
        return L, D, S
    diff = t[..., None] - X  # [...,n]
    for j in range(n):
        others = [m for m in range(n) if m != j]
        fac = {m: diff[..., m] / (X[j] - X[m]) for m in others}
        val = np.ones(t.shape)
        for m in others:
            val = val * fac[m]
        L[..., j] = val
        d = np.zeros(t.shape)
        s = n * np.abs(val)
        for k in others:
            p = np.ones(t.shape)
            for m in others:
                if m != k:
                    p = p * fac[m]
            d = d + p / (X[j] - X[k])
            s = s + np.abs(p) * (1.0 + np.abs(t)) / abs(X[j] - X[k]) + np.abs(val) * 2.0 / abs(X[j] - X[k])
        D[..., j] = d
        S[..., j] = s
    return L, D, S


def num_weights(kind, n, segments):
    if kind == "poly":
        return n
    if kind == "cont":
        return (n - 1) * segments + 1
    if kind == "disc":
        return n * segments
    raise KeyError(kind)


def locate(x, segments, length):
    """segment index, alternative index (== seg unless x is within rounding of a boundary)."""
    half = 0.5 * length
    u = (x + half) / length * segments
    seg = np.clip(np.floor(u), 0, segments - 1).astype(np.int64)
    near = np.rint(u)
    slack = 4 * EPS * segments * (1.0 + np.abs(x) / length) + 1e-12
    interior = (near >= 1) & (near <= segments - 1) & (np.abs(u - near) <= slack)
    if exact_boundaries(segments, length):
        interior &= u != near  # every step is exact at the boundary itself: no ambiguity
    alt = np.where(interior, np.where(seg == near.astype(np.int64), near - 1, near), seg).astype(np.int64)
    alt = np.clip(alt, 0, segments - 1)
    return seg, alt


def exact_boundaries(segments, length):
    """True when all boundaries and the segment computation are exact in float32."""
    s = segments & (segments - 1) == 0
    return s and math.log2(length) == int(math.log2(length))


def wrap(kind, n, segments, seg):
    """first weight index of the segment"""
    if kind == "cont":
        return seg * (n - 1)
    if kind == "disc":
        return seg * n
    return seg * 0


def basis_at(kind, n, segments, length, x, seg):
    """local coordinate in [-1,1] of the segment, L, D, S in local coordinate and the
    absolute float32 uncertainty of the local coordinate"""
    half = 0.5 * length
    h = length / segments
    left = -half + seg * h
    t = 2.0 * (x - left) / h - 1.0
    L, D, S = lagrange(n, t)
    if kind == "poly":
        dt = 2 * EPS * (np.abs(t) + 1)
    else:
        dt = EPS * (segments * (1.0 + np.abs(x) / half) * 2.0 + np.abs(t) + 1)
    return t, L, D, S, dt


def propagate(n, D, dt):
    """effect on the basis functions of an uncertainty dt of the local coordinate"""
    dt = np.broadcast_to(dt, D.shape[:-1])[..., None]
    # D varies over the interval: Markov's inequality bounds the second derivative
    return 1.2 * np.abs(D) * dt + (np.abs(D).max(-1, keepdims=True) + 1) * n ** 2 * dt ** 2 * (1 + dt) ** max(n - 2, 0)


def links(kind, n, segments, w, x, length=2.0, dx=0.0, deriv=False):
    """w [out,in,V], x [b,in] -> f[b,out,in], tol[b,out,in], alt f, (df/dx)"""
    if kind == "poly":
        segments = 1
    w = np.asarray(w, np.float64)
    x = np.asarray(x, np.float64)
    seg, alt = locate(x, segments, length)
    if kind != "disc":
        alt = seg

    def ev(sg):
        t, L, D, S, dt = basis_at(kind, n, segments, length, x, sg)
        first = wrap(kind, n, segments, sg)
        idx = first[..., None] + np.arange(n)  # [b,in,n]
        ins = np.arange(x.shape[1])[None, :, None]
        ws = w[:, ins, idx]  # [out,b,in,n]
        f = np.einsum("obin,bin->boi", ws, L)
        tol = np.einsum("obin,bin->boi", np.abs(ws), C * (EPS * S + np.abs(D) * dt[..., None]) + propagate(n, D, 2.0 * segments / length * dx))
        df = None
        if deriv:
            df = np.einsum("obin,bin->boi", ws, D) * (2.0 * segments / length)
        return f, tol + 1e-30, df

    f, tol, df = ev(seg)
    fa = f
    if kind != "disc" and segments > 1:
        # at a boundary the neighbour is as good, with its own conditioning
        _, other = locate(x, segments, length)
        if (other != seg).any():
            f2, tol2, _ = ev(other)
            tol = np.maximum(tol, tol2)
    if (alt != seg).any():
        fa, tol2, _ = ev(alt)
        tol = np.maximum(tol, tol2)
    return f, tol, fa, df


def layer_sum(kind, n, segments, w, x, length=2.0, dx=0.0):
    """sum layer: out[b,o], tol, alternatives (list) for ambiguous discontinuous boundaries"""
    f, tol, fa, _ = links(kind, n, segments, w, x, length, dx)
    out = f.sum(-1)
    t = tol.sum(-1) + 2 * EPS * (f.shape[-1] + 2) * np.abs(f).sum(-1)
    amb = np.abs(fa - f)  # zero when unambiguous
    if f.shape[-1] == 1:
        return out, t, [fa.sum(-1)]
    return out, t + amb.sum(-1), None


def prod_value(f, tol, minus_one=True):
    """prod(1+f)-1 over last axis and bound"""
    p = np.prod(1.0 + f, axis=-1)
    a = np.prod(1.0 + np.abs(f) + tol, axis=-1) - np.prod(1.0 + np.abs(f), axis=-1)
    t = a + 3 * EPS * (f.shape[-1] + 2) * (np.prod(1.0 + np.abs(f), axis=-1) + 1)
    return p - 1.0, t


def layer_prod(kind, n, segments, w, x, length=2.0, dx=0.0):
    f, tol, fa, _ = links(kind, n, segments, w, x, length, dx)
    amb = np.abs(fa - f)
    if f.shape[-1] == 1:
        out, t = prod_value(f, tol)
        oa, ta = prod_value(fa, tol)
        return out, np.maximum(t, ta), [oa]
    out, t = prod_value(f, tol + amb)
    return out, t, None


def fourier_basis(n, x, length):
    """[...,n] values and |derivative|"""
    x = np.asarray(x, np.float64)
    B = np.empty(x.shape + (n,))
    d = np.empty(x.shape + (n,))
    for j in range(n):
        if j == 0:
            B[..., 0] = 0.5
            d[..., 0] = 0.0
            continue
        k = (j + 1) // 2
        a = 2 * math.pi * k * x / length
        B[..., j] = np.cos(a) if j % 2 == 0 else np.sin(a)
        d[..., j] = np.abs(a)  # relative error of the argument
    return B, d


def fourier(n, w, x, length):
    B, d = fourier_basis(n, x, length)  # [b,in,n]
    w = np.asarray(w, np.float64)
    out = np.einsum("bin,oin->bo", B, w)
    tol = C * EPS * np.einsum("bin,oin->bo", np.abs(B) + 2 * d + 1, np.abs(w)) * 2 + 1e-30
    return out, tol


def fold(x, p):
    """mirror periodicity: triangle wave, identity on [-p/2,p/2]"""
    x = np.asarray(x, np.float64)
    y = np.mod(x + 0.5 * p, 2 * p)
    y = np.where(y > p, 2 * p - y, y)
    return y - 0.5 * p


def fold_err(x, p):
    return 4 * EPS * (np.abs(np.asarray(x, np.float64)) + 2 * p)


# ---------------------------------------------------------------- alphabets
GOLD = 0.6180339887498949


def fill(shape, scale=1.0, shift=0.0):
    """pairwise distinct deterministic weights in (-scale, scale)"""
    k = int(np.prod(shape))
    v = np.mod((np.arange(k) + 1) * GOLD + shift, 1.0) * 2 - 1
    return (scale * v).reshape(shape).astype(np.float32)


def all_half(lo, hi):
    """every IEEE half precision number in [lo,hi] (with -0.0 once), as float32"""
    v = np.arange(65536, dtype=np.uint16).view(np.float16).astype(np.float32)
    v = v[np.isfinite(v)]
    v = v[(v >= lo) & (v <= hi)]
    return np.unique(v)


def bf16(lo, hi):
    v = (np.arange(65536, dtype=np.uint32) << 16).view(np.float32)
    v = v[np.isfinite(v)]
    v = v[(v >= lo) & (v <= hi)]
    return np.unique(v)


def special_points(n, segments, length, outside=(1.01, 1.5, 3.0)):
    """nodes, boundaries +- ulps, midpoints, a little outside, signed zeros"""
    half = length / 2
    h = length / segments
    X = nodes(n)
    pts = [0.0]
    for s in range(segments):
        left = -half + s * h
        pts += list(left + (X + 1) * 0.5 * h)
        pts += [left, left + 0.5 * h, left + h, left + 0.1 * h, left + 0.77 * h]
    pts = np.asarray(pts, np.float64).astype(np.float32)
    up = np.nextafter(pts, np.float32(np.inf))
    dn = np.nextafter(pts, np.float32(-np.inf))
    out = np.asarray([q * half for o in outside for q in (o, -o)], np.float32)
    tiny = np.asarray([1e-38, -1e-38, 1e-45, -1e-45, 1e-7, -1e-7], np.float32)
    return np.unique(np.concatenate([pts, up, dn, out, tiny]))
