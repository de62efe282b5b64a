"""Ladders: every size of every configuration value in a wide range, one or two at a time.

A change that only shows beyond some size (a wider layer, more pieces, a larger image, a
bigger batch, another precision) is met by one of the steps."""
import copy
import itertools

import numpy as np
import torch

from mc import ref
from mc.models import FC, ConvM, FourierM, NDM, ProductM, SwitchM, check, refill

BIG = [24, 32, 33, 48, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025]
WIDE = list(range(1, 23)) + [24, 31, 32, 33, 40, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024, 1025]


def points(M, b, which, inside):
    x = M.x(b, which)
    if inside and isinstance(M, FC):
        x = x * np.float32(0.5 * M.a[5] / M.span)
    return x


def go(ctx, M, b=16, which=0, scale=0.9, inside=True, double=False):
    ctx.at(layer=M.name, batch=b, double=double)
    m = refill(ctx.impl(f"constructing {M.name}", M.build), scale)
    x = points(M, b, which, inside)
    y, keep = check(ctx, "ladder", M, m, x)
    if double:
        d = copy.deepcopy(m).double()
        xd = torch.tensor(x, dtype=torch.float64)
        z = ctx.impl("forward in double precision", d, xd).detach()
        check(ctx, "double precision", M, m, x, y=z)
        ctx.step(b)
    ctx.step(b)
    ctx.states(b)
    ctx.trace()
    ctx.outcome(y[:4].tobytes())


WEIGHTS = ("mixed", "zero", "zero_half", "constant", "minus_one", "onehot", "tiny", "big", "alternating", "equal_links", "one_link")


def special(m, values):
    """weights of a special pattern"""
    with torch.no_grad():
        for p in m.parameters():
            k = torch.arange(p.numel()).reshape(p.shape)
            if values == "zero":
                p.zero_()
            elif values == "zero_half":
                p.mul_((k >= p.numel() // 2).float())
            elif values == "constant":
                p.fill_(0.375)
            elif values == "minus_one":
                p.fill_(-1.0)
            elif values == "onehot":
                p.copy_((k % 5 == 2).float())
            elif values == "tiny":
                p.mul_(1e-12)
            elif values == "big":
                p.mul_(1e4)
            elif values == "alternating":
                p.copy_(torch.where(k % 2 == 0, 1.0, -1.0))
            elif values == "equal_links" and p.dim() > 2:
                p.copy_(p[:1, :1].clone().expand_as(p))
            elif values == "one_link" and p.dim() > 2:
                q = torch.zeros_like(p)
                q[-1, -1] = p[-1, -1]
                p.copy_(q)
    return m


def inputs(M, half):
    """batches of special inputs; half: half of the domain, the limit of what is generated"""
    one = np.ones((4,) + M.xshape, np.float32)
    k = np.arange(one.size).reshape(one.shape)
    h = np.float32(half)
    yield "zero", 0 * one
    yield "negative zero", -0.0 * one
    yield "equal", np.float32(0.37) * h * one
    yield "duplicate rows", np.repeat(M.x(1, 3), 4, 0) * np.float32(0.5)
    yield "ends", np.where(k % 2 == 0, h, -h).astype(np.float32)
    yield "one end", h * one
    yield "ends and middle", np.where(k % 3 == 0, h, np.where(k % 3 == 1, 0, -h)).astype(np.float32)
    yield "denormal", np.float32(1e-40) * np.where(k % 2 == 0, one, -one)
    yield "tiny", np.float32(1e-12) * np.where(k % 2 == 0, one, -one)
    yield "quarters", (h * ((k % 9) / 4 - 1)).astype(np.float32)
    yield "sixths", (h * ((k % 13) / 6 - 1)).astype(np.float32)
    yield "one hot", (h * (k % one[0].size == k // one[0].size)).astype(np.float32)
    x = M.x(4, 5)
    yield "row of zeros", x * (k // one[0].size != 1)
    yield "column of zeros", x * (k % one[0].size != 0)
    yield "sorted", np.sort(x.reshape(-1)).reshape(x.shape)
    yield "reversed", np.sort(x.reshape(-1))[::-1].reshape(x.shape).copy()


def values(ctx, models, inside=True):
    """special weights x special inputs"""
    k = 0
    for M, half in models:
        m0 = refill(ctx.impl(f"constructing {M.name}", M.build), 0.9)
        for what in WEIGHTS:
            m = special(copy.deepcopy(m0), what)
            for name, x in inputs(M, half):
                ctx.at(layer=M.name, weights=what, inputs=name)
                if inside:
                    x = np.clip(x, -np.float32(half), np.float32(half))
                elif "zero" not in name:
                    x = x * np.float32(1.75)
                for extra in (False, True):
                    xt = torch.tensor(np.ascontiguousarray(x, dtype=np.float32), requires_grad=extra)
                    y, _ = check(ctx, "special values", M, m, x, y=ctx.impl("forward", m, xt), floor=1e-30)
                    ctx.step()
                k += 1
            ctx.states(len(x))
            ctx.trace()
            ctx.outcome(M.name, y.tobytes())
    ctx.sample(dict(ladder="values", steps=k))


def fc_parts(tier):
    return ["order", "pieces", "in", "out", "both", "length", "batch", "values"]


def fc(ctx, kind, prod, part, inside=True, per=None):
    """fully connected layers"""
    k = 0
    if part == "values":
        return values(ctx, [(FC(kind, n, sg, i, o, L, None if per is None else per * L / 2, prod), 0.5 * L) for n, sg, (i, o), L in
                            itertools.product((1, 2, 3, 4), (1, 2, 3) if kind != "poly" else (1,), ((1, 1), (1, 3), (3, 2)), (2.0, 3.0)) if n > 1 or kind != "cont"], inside)
    if part == "order":
        for n in range(1, 15):
            for s in range(1, 15 if kind != "poly" else 2):
                k += 1
                go(ctx, FC(kind, n, s, 2, 2, per=per, prod=prod), 14, k, inside=inside, double=k % 3 == 0)
    elif part == "pieces":
        for n in (1, 2, 3, 4, 6):
            for s in list(range(15, 41)) + BIG if kind != "poly" else (1,):
                k += 1
                go(ctx, FC(kind, n, s, 1, 1, per=per, prod=prod), 40, k, inside=inside)
    elif part == "in":
        for i in WIDE:
            for n, s in ((2, 3), (3, 2)):
                k += 1
                go(ctx, FC(kind, n, s, i, 2, per=per, prod=prod), 6, k, 0.9 if not prod else 0.9 / i ** 0.5, inside, double=i < 40)
    elif part == "out":
        for o in WIDE:
            for n, s in ((2, 3), (3, 2)):
                k += 1
                go(ctx, FC(kind, n, s, 2, o, per=per, prod=prod), 6, k, inside=inside)
    elif part == "both":
        for i, o in itertools.product(range(1, 13), repeat=2):
            k += 1
            go(ctx, FC(kind, 2 + k % 3, 1 + k % 4, i, o, per=per, prod=prod), 5, k, 0.9 if not prod else 0.9 / i ** 0.5, inside)
    elif part == "length":
        for L in (0.001, 0.01, 0.1, 0.3, 0.5, 0.7, 1.0, 1.5, 2.5, 3.0, np.pi, 5.0, 7.0, 16.0, 31.0, 100.0, 255.0, 1000.0, 1e4):
            for n, s in itertools.product((2, 3, 4, 5), (1, 2, 3, 4, 7) if kind != "poly" else (1,)):
                k += 1
                p = None if per is None else per * L / 2
                go(ctx, FC(kind, n, s, 2, 2, length=float(L), per=p, prod=prod), 12, k, inside=inside)
        for L in (1, 2, 3, 4):  # integers
            go(ctx, FC(kind, 3, 3, 2, 2, length=L, per=per, prod=prod), 12, k, inside=inside)
    else:
        for n, s, i, o in ((2, 3, 3, 2), (3, 4, 1, 3), (4, 1, 2, 2)):
            for b in WIDE + [2000, 4096, 4097]:
                k += 1
                go(ctx, FC(kind, n, s, i, o, per=per, prod=prod), b, k, inside=inside)
    ctx.sample(dict(ladder=part, kind=kind, prod=prod, steps=k))


def product(ctx, part):
    k = 0
    if part == "values":
        return values(ctx, [(ProductM(i, o, b, a, p), 1.0) for i, o, b, a, p in itertools.product((1, 2, 4), (1, 3), (True, False), (1.0, 0.0, 0.5), (None, 2.0))], False)
    for i in WIDE if part == "in" else [1, 2, 3]:
        for o in (1, 2) if part == "in" else WIDE:
            for bias, alpha in ((True, 1.0), (False, 0.5)):
                k += 1
                go(ctx, ProductM(i, o, bias, alpha), 5, k, 0.9 / i ** 0.5, double=i < 40)
    if part == "in":
        for b in WIDE:
            go(ctx, ProductM(3, 2), b, b)
    ctx.sample(dict(ladder=part, kind="product", steps=k))


def fourier(ctx, part):
    k = 0
    if part == "values":
        return values(ctx, [(FourierM(n, i, o, L), 0.5 * L) for n, (i, o), L in itertools.product((1, 2, 3, 4, 5, 8), ((1, 1), (1, 3), (3, 2)), (2.0, 3.0))])
    if part == "order":
        for n, L in itertools.product(list(range(1, 41)) + [50, 64, 65, 100, 101], (0.5, 2.0, 3.0, 10.0)):
            k += 1
            go(ctx, FourierM(n, 2, 2, L), 12, k, double=n < 20)
    elif part == "in":
        for i in WIDE:
            for n in (2, 3, 5):
                k += 1
                go(ctx, FourierM(n, i, 2), 5, k, double=i < 40)
    elif part == "out":
        for o in WIDE:
            for n in (2, 3, 5):
                k += 1
                go(ctx, FourierM(n, 2, o), 5, k)
    else:
        for b in WIDE + [2000, 4096, 4097]:
            for n in (3, 6):
                k += 1
                go(ctx, FourierM(n, 2, 2, 3.0), b, k)
    ctx.sample(dict(ladder=part, kind="fourier", steps=k))


def nd(ctx, part):
    k = 0
    if part == "values":
        return values(ctx, [(NDM(q, ns, sg, i, o, L), 0.5 * L) for q, ns, sg in (("poly", (2, 3), None), ("poly", (3, 3), None), ("pw", (2, 2), (2, 3)), ("pw", (3, 2), (1, 4)), ("pw", (2, 2, 2), (2, 1, 2)), ("pw", (3,), (4,)))
                            for (i, o), L in itertools.product(((1, 1), (1, 3), (3, 2)), (2.0, 3.0))])
    if part in ("poly", "pw"):
        for d, top, stop in ((1, 8, 8), (2, 5, 5), (3, 3, 3), (4, 2, 2)):
            if part == "poly" and d == 1:
                continue
            for ns in itertools.product(range(1, top + 1), repeat=d):
                for segs in ([None] if part == "poly" else [tuple(1 + (k + 2 * j + r) % stop for j in range(d)) for r in range(stop if d < 3 else 2)]):
                    k += 1
                    go(ctx, NDM(part, ns, segs, 1 + k % 2, 1 + k % 3, (2.0, 1.0, 3.0)[k % 3]), 7, k, double=k % 4 == 0)
    else:
        W = list(range(1, 18)) + [24, 32, 33, 64, 65, 100, 128, 129, 256]
        for kind, ns, segs in (("poly", (2, 3), None), ("pw", (3, 2), (2, 3)), ("poly", (2, 2, 2), None), ("pw", (2, 2, 2), (2, 1, 3))):
            for v in W:
                k += 1
                go(ctx, NDM(kind, ns, segs, v, 2), 4, k)
                go(ctx, NDM(kind, ns, segs, 2, v), 4, k)
                go(ctx, NDM(kind, ns, segs, 2, 2), v, k)
    ctx.sample(dict(ladder=part, kind="nd", steps=k))


CONV_PARTS = ("channels", "kernel", "size", "stride", "order", "batch", "groups", "values", "options1", "options2", "options3", "options4")


def conv_options(nd_, kind, tr, ks):
    """every combination of the options of a convolution with this kernel size"""
    two = nd_ == 2
    strides = (1, 2) + (((2, 1), (1, 3)) if two else ((2,),))
    pads = (0, 1, 2) + (((1, 0), (0, 2)) if two else ((1,),))
    dils = (1, 2) + (((1, 2),) if two else ((2,),))
    extra = ((False, None, 2.0), (True, None, 1.0), (False, 2.0, 2.0), (True, 1.5, 3.0))
    size = (7, 6)[:nd_] if not tr else (3, 4)[:nd_]

    def t(v):
        return v if isinstance(v, tuple) else (v,) * nd_
    if tr:
        for s, p, d, op, (r, per, L) in itertools.product(strides, pads, dils, (0, 1, 2, (1, 0), (0, 1)), extra):
            if any(o >= max(a, b) for o, a, b in zip(t(op), t(s), t(d))):
                continue
            if min((z - 1) * a - 2 * b + e * (ks - 1) + o + 1 for z, a, b, e, o in zip(size, t(s), t(p), t(d), t(op))) < 1:
                continue
            yield dict(stride=s, padding=p, dilation=d, output_padding=op, rescale=r, per=per, length=L, size=size, k=ks)
        return
    for s, p, d, mode, g, (r, per, L) in itertools.product(strides, pads + ("same", "valid"), dils, ("zeros", "reflect", "replicate", "circular"), (1, 2), extra):
        if isinstance(p, str) and max(t(s)) > 1:
            continue
        if g > 1 and r:
            continue
        if kind == "fourier" and per:
            continue
        if isinstance(p, str):
            if p == "valid" and any(z < e * (ks - 1) + 1 for z, e in zip(size, t(d))):
                continue
            if p == "same" and mode != "zeros" and max((ks - 1) * e for e in t(d)) >= 6:
                continue
        elif any(z + 2 * b < e * (ks - 1) + 1 for z, b, e in zip(size, t(p), t(d))):
            continue
        yield dict(stride=s, padding=p, dilation=d, mode=mode, groups=g, rescale=r, per=per, length=L, size=size, k=ks)


def conv(ctx, kind, nd_, part, tr=False):
    k = 0
    W = list(range(1, 13)) + [16, 17, 24, 32, 33, 64, 65]

    def one(**kw):
        a = dict(n=2 + k % 3, segs=1 + k % 4, c=1 + k % 2, o=1 + k % 3, k=2, size=(6, 5)[:nd_] if not tr else (3, 2), transpose=tr)
        b = kw.pop("batch", 2)
        a.update(kw)
        M = ConvM(kind, nd_, a.pop("n"), a.pop("segs"), a.pop("c"), a.pop("o"), a.pop("k"), **a)
        go(ctx, M, b, k)
    if part == "values":
        return values(ctx, [(ConvM(kind, nd_, n, sg, c, o, ks, L, None if kind == "fourier" else per, size=(5, 4)[:nd_], transpose=tr, padding=pad), 0.5 * L) for n, sg, (c, o), ks, pad, L, per in
                            itertools.product((2, 3), (1, 3) if kind in ("cont", "disc") else (1,), ((1, 2), (2, 1)), (1, 3), (0, 1), (2.0,), (None, 2.0)) if ks > pad], False)
    if part.startswith("options"):
        for kw in conv_options(nd_, kind, tr, int(part[7:])):
            k += 1
            g = kw.get("groups", 1)
            one(c=g * (1 + k % 2), o=g * (1 + k % 3), n=2 + k % 2, **kw)
    elif part == "channels":
        for v in W + [128, 129]:
            k += 1
            one(c=v)
            one(o=v)
        for c, o in itertools.product((1, 2, 3, 5, 8), repeat=2):
            k += 1
            one(c=c, o=o)
    elif part == "kernel":
        for ks, p in itertools.product(range(1, 10), range(0, 5)):
            if tr and 2 * p > 2 + ks - 2:
                continue
            k += 1
            one(k=ks, padding=p, size=(11, 10)[:nd_] if not tr else (3, 4))
    elif part == "size":
        sizes = list(range(2, 30)) + [32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129]
        for s in sizes + ([200, 256, 257, 500, 512, 513, 1000, 1024, 1025, 5000] if nd_ == 1 else []):
            if tr and s > 65:
                continue
            k += 1
            one(size=(s, 3)[:nd_])
            if nd_ == 2:
                one(size=(3, s))
                if s <= 33 or s in (64, 65, 128):
                    one(size=(s, s))
    elif part == "stride":
        for st, ks, d, p in itertools.product(range(1, 6), range(1, 5), range(1, 4), range(0, 3)):
            if tr and (p > 0 and (ks - 1) * d + st < 2 * p + 1):
                continue
            k += 1
            if nd_ == 2 and k % 2 and not tr:
                continue
            one(stride=st, k=ks, dilation=d, padding=p, size=(13, 11)[:nd_] if not tr else (2, 3))
    elif part == "order":
        for n, s in itertools.product(range(1, 12), (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 33) if kind in ("cont", "disc") else (1,)):
            k += 1
            if n * s > 150:
                continue
            one(n=n, segs=s)
        for L in (0.01, 0.1, 0.5, 1.0, 1.5, 3.0, np.pi, 10.0, 100.0, 1000.0):
            for n in (2, 3, 4):
                k += 1
                one(n=n, segs=3, length=float(L))
    elif part == "batch":
        for b in list(range(1, 35)) + [63, 64, 65, 100, 127, 128, 129, 256, 257, 512, 513]:
            k += 1
            one(batch=b)
    else:
        if tr:
            return ctx.states(1), ctx.step(), ctx.trace(), ctx.outcome("none"), ctx.sample(dict(part=part))
        for g, m, o in itertools.product((2, 3, 4, 5, 8), (1, 2, 3), (1, 2)):
            k += 1
            one(c=g * m, o=g * o, groups=g, k=1 + k % 3)
    ctx.sample(dict(ladder=part, kind=kind, nd=nd_, steps=k))


# ---------------------------------------------------------------- gradients
def grad_one(ctx, M, b, which):
    """weight and input gradient of sum(c*y) of a fully connected layer, in closed form"""
    kind, n, segs, i, o, length, per, prod = M.a
    ctx.at(layer=M.name, batch=b)
    m = refill(ctx.impl(f"constructing {M.name}", M.build), 0.9 if not prod else 0.9 / i ** 0.5)
    x = M.x(b, which)
    xd = x.astype(np.float64)
    S = 1 if kind == "poly" else segs
    seg, alt = ref.locate(xd, S, length)
    if (seg != alt).any():
        x = np.where(seg != alt, np.float32(0.0123 * length), x)
        xd = x.astype(np.float64)
        seg, alt = ref.locate(xd, S, length)
        if (seg != alt).any():
            return
    w = m.w.detach().double().numpy()
    c = ref.fill((b, o), 1.0, 0.3).astype(np.float64)
    t, L, D, Sn, dt = ref.basis_at(kind, n, S, length, xd, seg)
    tolb = ref.C * (ref.EPS * Sn + np.abs(D) * dt[..., None])
    f, tf, _, df = ref.links(kind, n, segs, w, xd, length, deriv=True)
    rest = np.ones_like(f)
    trest = np.zeros_like(f)
    if prod:
        one = 1 + f
        pre = np.concatenate([np.ones_like(one[..., :1]), np.cumprod(one[..., :-1], -1)], -1)
        suf = np.concatenate([np.cumprod(one[..., :0:-1], -1)[..., ::-1], np.ones_like(one[..., :1])], -1)
        rest = pre * suf
        # float32 may divide the whole product by the factor
        mag = np.prod(1 + np.abs(f) + tf, -1, keepdims=True)
        trest = mag * (4 * ref.EPS * (i + 4)) * (1 + 1 / np.maximum(np.abs(one), 1e-2)) + np.prod(1 + np.abs(f) + tf, -1, keepdims=True) - np.prod(1 + np.abs(f), -1, keepdims=True)
    V = w.shape[-1]
    want = np.zeros((o, i, V))
    tol = np.zeros((o, i, V))
    first = ref.wrap(kind, n, S, seg)
    cr = c[:, :, None] * rest  # [b,o,i]
    ct = np.abs(c)[:, :, None] * trest
    ii = np.arange(i)[None, :, None]
    for k in range(n):
        idx = (first + k)[:, :, None]
        for q in range(o) if o < 8 else [None]:
            if q is None:
                np.add.at(want, (np.arange(o)[None, None, :], ii, idx), (cr * L[:, None, :, k]).transpose(0, 2, 1))
                np.add.at(tol, (np.arange(o)[None, None, :], ii, idx), ((np.abs(cr) + ct) * (tolb[:, None, :, k]) + ct * np.abs(L[:, None, :, k])).transpose(0, 2, 1))
                np.add.at(tol, (np.arange(o)[None, None, :], ii, idx), 4 * ref.EPS * (b + 4) ** 0.5 * 2 * np.abs(cr * L[:, None, :, k]).transpose(0, 2, 1))
                continue
            np.add.at(want[q], (np.arange(i)[None, :], first + k), cr[:, q] * L[..., k])
            np.add.at(tol[q], (np.arange(i)[None, :], first + k), (np.abs(cr[:, q]) + ct[:, q]) * tolb[..., k] + ct[:, q] * np.abs(L[..., k]) + 8 * ref.EPS * (b + 4) ** 0.5 * np.abs(cr[:, q] * L[..., k]))
    m.zero_grad(set_to_none=True)
    xt = torch.tensor(x, requires_grad=True)
    y = ctx.impl("forward", m, xt)
    ctx.impl("backward", (y * torch.tensor(c, dtype=torch.float32)).sum().backward)
    ctx.require(m.w.grad is not None, "no gradient reached the weights")
    g = m.w.grad.double().numpy()
    ctx.close("weight gradient (ladder)", g, want, tol + 1e-30, layer=M.name, batch=b)
    dead = np.ones((i, V), bool)
    for k in range(n):
        dead[np.broadcast_to(np.arange(i)[None, :], first.shape), first + k] = False
    ctx.require((g[:, dead] == 0).all(), "a gradient for a piece without a sample")
    gx = xt.grad.double().numpy() if xt.grad is not None else np.zeros(x.shape)
    dx = (cr * df).sum(1)
    mag = ((np.abs(cr) + ct) * (np.abs(df) + 1e-3)).sum(1)
    lim = 1e-3 * mag + ct.sum(1) * np.abs(df).max() + 1e-4 * mag.max() + ref.C * ref.EPS * n ** 4 * S ** 2 * 16 / length * np.abs(c).sum(1)[:, None]
    ctx.close("input gradient (ladder)", gx, dx, lim, layer=M.name, batch=b)
    ctx.states(b)
    ctx.step(2 * b)
    ctx.trace()
    ctx.outcome(g.ravel()[:64].tobytes())


GRAD_PARTS = ("order", "pieces", "in", "out", "batch")


def grad(ctx, kind, prod, part):
    k = 0
    if part == "order":
        for n in range(1, 11):
            for s in range(1, 11 if kind != "poly" else 2):
                k += 1
                grad_one(ctx, FC(kind, n, s, 2, 2, (2.0, 3.0, 1.0)[k % 3], prod=prod), 8, k)
    elif part == "pieces":
        for s in (list(range(11, 41)) + [48, 64, 65, 100, 128, 129, 200, 256, 257]) if kind != "poly" else (1,):
            for n in (2, 3, 4):
                k += 1
                grad_one(ctx, FC(kind, n, s, 1 + k % 2, 1, prod=prod), 20, k)
    elif part == "in":
        for i in WIDE:
            k += 1
            grad_one(ctx, FC(kind, 2 + k % 2, 1 + k % 3, i, 2, prod=prod), 4, k)
    elif part == "out":
        for o in WIDE:
            k += 1
            grad_one(ctx, FC(kind, 2 + k % 2, 1 + k % 3, 2, o, prod=prod), 4, k)
    else:
        for b in WIDE + [2000, 4096, 4097]:
            k += 1
            grad_one(ctx, FC(kind, 2 + k % 3, 1 + k % 4, 2, 2, prod=prod), b, k)
    ctx.sample(dict(ladder="gradient " + part, kind=kind, prod=prod, steps=k))
