"""Differentiable reference functions of the layers (any floating type), written from the
documentation: values, first and second derivatives of the real layers are compared with
those of these functions, and the real layers are driven through all short sequences of
calls in different modes.

The reference is evaluated in double and in single precision; the difference tells how much
rounding may matter for a derivative."""
import copy
import itertools
import math

import numpy as np
import torch
import torch.nn.functional as F

from mc import ref
from mc.models import FC, ConvM, FourierM, NDM, ProductM, SwitchM, check, refill


def nodes(n, dtype):
    if n == 1:
        return torch.zeros(1, dtype=dtype)
    k = torch.arange(n, dtype=torch.float64)
    return (-torch.cos(math.pi * k / (n - 1))).to(dtype)


def lagrange(n, t):
    """[...] -> [..., n]"""
    X = nodes(n, t.dtype)
    cols = []
    for j in range(n):
        v = torch.ones_like(t)
        for k in range(n):
            if k != j:
                v = v * ((t - X[k]) / (X[j] - X[k]))
        cols.append(v)
    return torch.stack(cols, -1)


def fold(x, p):
    r = torch.remainder(x + p / 2, 2 * p)
    return torch.where(r > p, 2 * p - r, r) - p / 2


def piece(x, segs, length):
    """-> segment index, local coordinate in [-1, 1]"""
    u = (x + length / 2) / length * segs
    k = torch.floor(u.detach()).clamp(0, segs - 1).long()
    return k, 2 * (u - k) - 1


def links(kind, n, segs, length, w, x):
    """w [o, i, weights], x [b, i] -> link values [b, o, i]"""
    if kind == "poly":
        segs = 1
    k, t = piece(x, segs, length)
    L = lagrange(n, t)  # b i n
    first = k * (n if kind == "disc" else n - 1)
    idx = first[..., None] + torch.arange(n)  # b i n
    i = torch.arange(x.shape[1])[None, :, None]
    return (w[:, i, idx] * L[None]).sum(-1).permute(1, 0, 2)


def prod(f):
    r = torch.ones_like(f[..., 0])
    for j in range(f.shape[-1]):
        r = r * (1 + f[..., j])
    return r - 1


def fourier(n, length, x):
    cols = []
    for j in range(n):
        q = (j + 1) // 2
        a = 2 * math.pi * q * x / length
        cols.append(0.5 + 0 * x if j == 0 else (torch.cos(a) if j % 2 == 0 else torch.sin(a)))
    return torch.stack(cols, -1)


def expansion(kind, n, segs, length, x):
    """x [b, c, ...] -> [b, c * basis, ...]"""
    if kind == "fourier":
        B = fourier(n, length, x)
        nb = n
    else:
        S = 1 if kind == "poly" else segs
        k, t = piece(x, S, length)
        L = lagrange(n, t)
        nb = ref.num_weights(kind, n, S)
        first = k * (n if kind == "disc" else n - 1)
        idx = first[..., None] + torch.arange(n)
        B = torch.zeros(x.shape + (nb,), dtype=x.dtype).scatter_add(-1, idx, L)
    B = B.movedim(-1, 2)
    return B.reshape((x.shape[0], x.shape[1] * nb) + tuple(x.shape[2:]))


def function(M):
    """the reference of a layer model: f(params by name, x)"""
    if isinstance(M, FC):
        kind, n, segs, i, o, length, per, pr = M.a

        def f(p, x):
            if per is not None:
                x = fold(x, per)
            v = links(kind, n, segs, length, p["w"], x)
            return prod(v) if pr else v.sum(-1)
    elif isinstance(M, ProductM):
        i, o, bias, alpha, per = M.a

        def f(p, x):
            if per is not None:
                x = fold(x, per)
            v = x[:, None, :] * p["weight"][None]
            y = prod(v) - (1 - alpha) * v.sum(-1)
            return y + p["bias"] if bias else y
    elif isinstance(M, FourierM):
        n, i, o, length = M.a

        def f(p, x):
            return torch.einsum("bin,oin->bo", fourier(n, length, x), p["w"])
    elif isinstance(M, SwitchM):
        kind, n, segs, i, o, layers, scale = M.a

        def f(p, x):
            y = 1.0
            for w in p.values():
                y = y * links(kind, n, segs, scale, w, x).sum(-1)
            return y
    elif isinstance(M, NDM):
        kind, ns, segs, i, o, length = M.a

        def f(p, x):
            w = p["w"]
            if kind != "pw":
                w = w.permute(1, 0, 2)  # input, output, weights
            sg = segs if kind == "pw" else [1] * len(ns)
            b = x.shape[0]
            T = torch.ones((b, i, 1), dtype=x.dtype)
            seg = torch.zeros((b, i), dtype=torch.long)
            for d, (nn_, s) in enumerate(zip(ns, sg)):
                k, t = piece(x[..., d], s, length)
                T = (T[..., :, None] * lagrange(nn_, t)[..., None, :]).reshape(b, i, -1)
                seg = seg * s + k
            per = math.prod(ns)
            idx = seg[..., None] * per + torch.arange(per)  # b i per
            y = 0
            for a in range(i):
                wa = w[a][:, idx[:, a]]  # o b per
                y = y + (wa * T[None, :, a]).sum(-1).T
            return y
    elif isinstance(M, ConvM):
        a = M.a

        def f(p, x):
            if a["per"] is not None:
                x = fold(x, a["per"])
            B = expansion(a["kind"], a["n"], a["segs"], a["length"], x)
            w = p["conv.weight"]
            if a["transpose"]:
                g = F.conv_transpose2d if a["nd"] == 2 else F.conv_transpose1d
                y = g(B, w, stride=a["stride"], padding=a["padding"], output_padding=a["output_padding"], dilation=a["dilation"], groups=a["groups"])
            else:
                pad = a["padding"]
                if a["mode"] != "zeros" and pad:
                    B = F.pad(B, [pad] * (2 * a["nd"]), mode=a["mode"])
                    pad = 0
                g = F.conv2d if a["nd"] == 2 else F.conv1d
                y = g(B, w, stride=a["stride"], padding=pad, dilation=a["dilation"], groups=a["groups"])
            return y / (a["c"] * a["k"] ** a["nd"]) if a["rescale"] else y
    else:
        raise KeyError(M)
    return f


def real(m):
    return {k: p for k, p in m.named_parameters() if k.split(".")[-1] != "result"}


def zeros(g, like):
    return [torch.zeros_like(v) if a is None else a for a, v in zip(g, like)]


def jet(y, x, ps, order=2):
    """first derivatives of a combination of the outputs, second derivatives of one of those"""
    c = torch.tensor(ref.fill(tuple(y.shape), 1.0, 0.3)).to(y.dtype)
    var = [x] + ps
    s = (y * c).sum()
    g = zeros(torch.autograd.grad(s, var, create_graph=order > 1, allow_unused=True), var) if s.requires_grad else [torch.zeros_like(v) for v in var]
    out = [y] + g
    if order > 1:
        e = torch.tensor(ref.fill(tuple(x.shape), 1.0, 0.7)).to(y.dtype)
        s = (g[0] * e).sum()
        h = zeros(torch.autograd.grad(s, var, allow_unused=True), var) if s.requires_grad else [torch.zeros_like(v) for v in var]
        out += h
    return [v.detach() for v in out]


def jiggle(v, which):
    if not which:
        return v.clone()
    r = torch.tensor(np.cos(np.arange(v.numel()) * (2.1 + 1.7 * which) + which)).reshape(v.shape).to(v.dtype)
    return v * (1 + 1.2e-7 * torch.sign(r))


def compare(ctx, names, got, refs, steep=None, extra=1e-4):
    for name, g, a, *others in zip(names, got, *refs):
        ctx.require(tuple(g.shape) == tuple(a.shape), f"{name}: shape {tuple(g.shape)} instead of {tuple(a.shape)}")
        if not a.numel():
            continue
        # rounding shows in the other references; the scale of a derivative is its largest entry
        noise = max(float((a - b.double()).abs().max()) for b in others)
        second = "second" in name
        tol = 50 * noise + (20 if second else 1) * extra * float(a.abs().max()) + 1e-6
        if steep is not None and "input" in name:
            tol += 3e-6 * steep[0] * steep[1] ** (2 if second else 1)
        ctx.close(name, g.double().numpy(), a.numpy(), tol)


def slope(M):
    if isinstance(M, FC):
        return M.a[1] ** 2 * (1 if M.a[0] == "poly" else M.a[2]) * 2 / M.a[5]
    if isinstance(M, SwitchM):
        return M.a[1] ** 2 * (1 if M.a[0] == "poly" else M.a[2]) * 2 / M.a[6]
    if isinstance(M, NDM):
        return max(M.a[1]) ** 2 * max(M.a[2] or (1,)) * 2 / M.a[5]
    if isinstance(M, ConvM):
        return M.a["n"] ** 2 * (1 if M.a["kind"] == "poly" else M.a["segs"]) * 2 / M.a["length"]
    return 1.0


def clear(x, segs, length, eps):
    """away from the interior boundaries"""
    u = (x + length / 2) / length * segs
    k = np.rint(u)
    return (np.abs(u - k) > eps) | (k < 1) | (k > segs - 1)


def smooth_points(M, x, eps=2e-3):
    """mask of samples away from every kink or jump of the function"""
    x = np.asarray(x, np.float64)
    ok = np.ones(x.shape, bool)
    per = M.a.get("per") if isinstance(M, ConvM) else (M.a[6] if isinstance(M, FC) else M.a[4] if isinstance(M, ProductM) else None)
    if per is not None:
        u = (x + per / 2) / per
        ok &= np.abs(u - np.rint(u)) > eps
        x = ref.fold(x, per)
    if isinstance(M, NDM):
        for d, s in enumerate(M.a[2] or ()):
            ok[..., d] &= clear(x[..., d], s, M.a[5], eps)
    elif isinstance(M, ConvM):
        if M.a["kind"] in ("cont", "disc"):
            ok &= clear(x, M.a["segs"], M.a["length"], eps)
    elif isinstance(M, (FC, SwitchM)):
        kind, n, s = M.a[:3]
        length = M.a[5] if isinstance(M, FC) else M.a[6]
        if kind != "poly":
            ok &= clear(x, s, length, eps)
    return ok


def derivatives(ctx, M, m, x, order=2, what=""):
    """values, first and second derivatives of the real layer against the reference"""
    ok = smooth_points(M, x)
    if not ok.all():
        x = np.where(ok, x, x + np.float32(0.0131 * M.span))
        if not smooth_points(M, x).all():
            rows = smooth_points(M, x).reshape(len(x), -1).all(1)
            x = x[rows]
            if not len(x):
                return
    f = function(M)
    ps = real(m)
    names = ["output", "input gradient"] + [f"gradient of {k}" for k in ps]
    if order > 1:
        names += ["second derivative by the inputs"] + [f"second derivative by the inputs and {k}" for k in ps]
    xt = torch.tensor(np.ascontiguousarray(x, dtype=np.float32), requires_grad=True)
    y = ctx.impl(f"{M.name} forward", m, xt)
    got = ctx.impl("differentiating", jet, y, xt, list(ps.values()), order)
    refs = []
    for dt, rel in ((torch.float64, 0), (torch.float32, 0), (torch.float64, 1), (torch.float64, 2), (torch.float64, 3)):
        # how much rounding the weights and inputs of single precision may matter
        q = {k: jiggle(p.detach().to(dt), rel).requires_grad_(True) for k, p in ps.items()}
        xr = jiggle(torch.tensor(np.asarray(x), dtype=dt), rel + 3 if rel else 0).requires_grad_(True)
        refs.append(jet(f(q, xr), xr, list(q.values()), order))
    # the largest derivative a piece with such weights can have (Markov): terms of that size may cancel
    W = max(float(p.detach().abs().max()) for p in ps.values()) * max(1.0, float(refs[0][0].abs().max()))
    compare(ctx, [what + n for n in names], got, refs, (W, slope(M)))
    ctx.step(len(names))
    return got


MODES = ("grad", "no_grad", "inference", "input_grad")


def call(ctx, m, x, mode):
    xt = torch.tensor(x, requires_grad=mode == "input_grad")
    if mode == "no_grad":
        with torch.no_grad():
            return ctx.impl("forward", m, xt)
    if mode == "inference":
        with torch.inference_mode():
            return ctx.impl("forward", m, xt).clone()
    return ctx.impl("forward", m, xt)


def sequences(ctx, M, m, depth=2, b=3):
    """every sequence of calls in every mode, with inputs of one shape (and of another one)"""
    xs = [M.x(b, 1), M.x(b, 2), M.x(b, 3), M.x(b + 2, 4)]
    xs = [np.clip(x, -0.5 * dom(M), 0.5 * dom(M)).astype(np.float32) for x in xs]
    for seq in itertools.product(MODES, repeat=depth):
        for other in (False, True):
            ctx.at(layer=M.name, calls=list(seq), other_shape=other)
            for k, mode in enumerate(seq + seq[:1]):
                x = xs[3] if other and k == 0 else xs[k % 3]
                check(ctx, "sequence of calls", M, m, x, y=call(ctx, m, x, mode))
                ctx.step()
            ctx.trace()


def dom(M):
    """length of the domain"""
    if isinstance(M, FC):
        return M.a[5]
    if isinstance(M, SwitchM):
        return M.a[6]
    if isinstance(M, ConvM):
        return M.a["length"]
    if isinstance(M, NDM):
        return M.a[5]
    return 2.0 * M.span


def special(M, rows=12):
    """inputs at nodes, ends, zero and one: factors and terms vanish exactly there"""
    h = 0.5 * dom(M)
    if isinstance(M, (FC, SwitchM)):
        n, segs = M.a[1], (1 if M.a[0] == "poly" else M.a[2])
    elif isinstance(M, ConvM):
        n, segs = M.a["n"], (M.a["segs"] if M.a["kind"] in ("cont", "disc") else 1)
    elif isinstance(M, NDM):
        n, segs = max(M.a[1]), 1
    else:
        n, segs, h = 3, 1, 1.0
    X = np.float64([0.0]) if n == 1 else -np.cos(np.pi * np.arange(n) / (n - 1))
    pts = [0.0, h, -h, 0.5 * h]
    for k in range(segs):
        pts += list(((X + 1) / 2 + k) / segs * 2 * h - h)
    pts = np.unique(np.float32(pts))
    k = int(np.prod(M.xshape))
    x = np.stack([pts[(np.arange(k) * (1 + r // len(pts)) + r) % len(pts)] for r in range(min(rows, 2 * len(pts)))])
    return x.reshape((-1,) + M.xshape).astype(np.float32)


PATTERNS = ("mixed", "zero", "minus_one", "one_link", "small", "large")


def pattern(m, name):
    refill(m, 0.8)
    with torch.no_grad():
        for k, p in real(m).items():
            if name == "zero":
                p.zero_()
            elif name == "minus_one":
                p.fill_(-1.0)
            elif name == "one_link":
                q = torch.zeros_like(p)
                q[..., -1:] = p[..., -1:]
                p.copy_(q)
            elif name == "small":
                p.mul_(1e-3)
            elif name == "large":
                p.mul_(20.0)
    return m


def singles(ctx, M, m):
    """inputs one at a time, so that nothing else is in the batch"""
    h = 0.5 * dom(M)
    vals = [0.0, 0.25, 0.5, 0.75, 0.99, 1.0, 1.001, 1.005, 1.01, 1.02, 1.05, 1.1, 1.2, 1.5, 1.75, 2.0, 2.01, 2.5, 3.0, 4.0, 7.0, 20.0]
    k = int(np.prod(M.xshape))
    for v in vals:
        for s in (1.0, -1.0):
            for spread in (0.0, 1.0):
                base = np.full(k, s * v * h)
                if spread:
                    base = base * (1 - 0.3 * np.mod(np.arange(k) * 0.618, 1.0))
                ctx.at(layer=M.name, single=s * v, spread=spread)
                x = base.reshape((1,) + M.xshape).astype(np.float32)
                if abs(v) > 2 and np.abs(M.predict(m, x)[0]).max() > 1e30:
                    continue  # single precision ends
                check(ctx, "a single sample", M, m, x, floor=1e-30)
                ctx.step()
    ctx.trace()


def battery(ctx, models, outside=0.0, depth=2, parts=("derivatives", "sequences", "singles", "life", "upstream", "precision", "frozen"), patterns=PATTERNS):
    """outside: how far beyond the domain (in half lengths) inputs may lie; 0 for inside only"""
    k = 0
    for M in models:
        m = refill(ctx.impl(f"constructing {M.name}", M.build), 0.8)
        conv = isinstance(M, ConvM)
        if "derivatives" in parts:
            for name in patterns:
                pattern(m, name)
                for b, which in ((1, 0), (3, 1), (2, 4)):
                    x = M.x(b, which) / M.span * 0.49 * dom(M)
                    ctx.at(layer=M.name, weights=name, batch=b, which=which)
                    g = derivatives(ctx, M, m, x.astype(np.float32), 2 if not conv or b < 3 else 1)
                    if outside and not conv and name in ("mixed", "minus_one"):
                        derivatives(ctx, M, m, (x * outside).astype(np.float32), 2, "outside: ")
                    k += 1
                    ctx.states(b)
                    ctx.trace()
                    if g is not None:
                        ctx.outcome(M.name, g[1].numpy().round(4).tobytes())
                x = special(M, 4 if conv else 12)
                x = x[smooth_points(M, x).reshape(len(x), -1).all(1)]
                for rows in (x, x[:1], x[-1:]) if len(x) else ():
                    ctx.at(layer=M.name, weights=name, special=len(rows))
                    derivatives(ctx, M, m, rows, 2 if isinstance(M, FourierM) else 1)  # second derivatives at nodes: rounding in torch.prod
                    ctx.states(len(rows))
                    ctx.trace()
        refill(m, 0.8)
        if "sequences" in parts:
            sequences(ctx, M, m, depth)
        if "singles" in parts:
            singles(ctx, M, m)
        if "life" in parts:
            life(ctx, M, M is models[0])
        if "upstream" in parts:
            upstream(ctx, M, m)
        if "precision" in parts:
            precision(ctx, M)
        if "frozen" in parts:
            frozen(ctx, M)
    ctx.sample(dict(battery=len(models), cases=k))


def lists(pid, tier):
    """the layers whose derivatives and call sequences belong to a property"""
    q = tier == "quick"
    out = []
    ns = [(1, 2), (2, 1), (2, 3), (3, 2), (4, 4), (5, 1), (6, 3), (9, 2)] if q else [(n, s) for n in range(1, 10) for s in (1, 2, 3, 5, 8)]
    kinds = ("poly", "cont", "disc")
    fc = [(k, n, s) for k in kinds for n, s in ns if n > 1 or k == "disc"]
    if pid == "C04":
        from mc.props.links import c04_models
        out = c04_models(tier) + [FC(k, n, s, 2, 2) for k, n, s in fc]
    elif pid == "C01":
        out = [FC(k, n, s, i, o) for k, n, s in fc for i, o in ((1, 1), (3, 2))]
    elif pid == "C02":
        out = [FC(k, n, s, 2, 2, length=L, prod=p) for k, n, s in fc for L in (1.0, 3.0, 8.0) for p in (False, True)]
    elif pid == "C06":
        out = [FC(k, n, s, i, 2, prod=True) for k, n, s in fc for i in (1, 2, 4)]
        out += [ProductM(i, o, b, a) for i, o in ((1, 1), (2, 3), (4, 2), (6, 1)) for b in (True, False) for a in (1.0, 0.5, 0.0, 2.0)]
    elif pid == "C07":
        out = [FourierM(n, i, o, L) for n in (range(1, 8) if q else range(1, 16)) for i, o in ((1, 1), (3, 2)) for L in (1.0, 2.0, 5.0)]
    elif pid == "C08":
        for ns_ in ((2, 2), (3, 2), (2, 3), (1, 3), (4, 4), (2, 3, 2), (3, 3, 3), (2, 2, 2, 2), (2, 2, 2, 2, 2)):
            for L in (2.0, 3.0):
                out.append(NDM("poly", ns_, None, 2, 2, L))
                out.append(NDM("pw", ns_, tuple(1 + (j + 1) % 3 for j in range(len(ns_))), 2, 2, L))
    elif pid in ("C14", "C15"):
        tr = pid == "C15"
        geo = [dict(), dict(stride=2), dict(padding=1), dict(dilation=2), dict(stride=2, padding=1, dilation=2)]
        if tr:
            geo += [dict(stride=2, output_padding=1), dict(stride=3, padding=1, output_padding=2)]
        else:
            geo += [dict(groups=2), dict(padding=1, mode="circular"), dict(padding=1, mode="reflect"), dict(padding=1, mode="replicate")]
        for kind, nd in [("cont", 2)] if tr else [(k, d) for k in kinds + ("fourier",) for d in (1, 2)]:
            for n, s, L, rs in ((3, 2, 2.0, False), (2, 3, 3.0, True), (5, 1, 1.0, False)):
                for kw in geo:
                    if rs and kw.get("groups"):
                        continue
                    out.append(ConvM(kind, nd, n, s, 2, 2, 2, length=L, rescale=rs, size=(5, 4)[:nd] if not tr else (3, 3), transpose=tr, **kw))
    elif pid == "C16":
        for k, n, s in fc:
            for per in (2.0, 1.0, 0.5):
                for p in (False, True):
                    out.append(FC(k, n, s, 2, 2, per=per, prod=p))
        out += [ProductM(2, 2, True, a, per) for a in (1.0, 0.5) for per in (2.0, 1.0, 3.0)]
        for kind in kinds:
            for nd in (1, 2):
                out += [ConvM(kind, nd, 3, 2, 1, 2, 2, per=per, size=(4, 3)[:nd]) for per in (2.0, 1.0)]
        out += [ConvM("cont", 2, 3, 2, 1, 2, 2, per=per, size=(2, 2), transpose=True) for per in (2.0, 1.0)]
    return out


LIFE = ("call", "eval", "nograd", "reuse", "own", "weights", "load", "copy", "step", "scramble")


class Life:
    """one layer through a history of uses; every call is compared with the reference for the weights of that moment"""

    def __init__(self, ctx, M):
        self.ctx, self.M = ctx, M
        self.m = refill(ctx.impl(f"constructing {M.name}", M.build), 0.8)
        lim = 0.499 * dom(M)
        self.xs = [np.clip(M.x(3, j), -lim, lim).astype(np.float32) for j in range(4)]
        self.buf = torch.tensor(self.xs[0])
        self.k = 0

    def do(self, op):
        ctx, M, m = self.ctx, self.M, self.m
        self.k += 1
        x = self.xs[self.k % 4]
        if op == "call":
            check(ctx, "a call", M, m, x)
        elif op == "eval":
            m.train(not m.training)
            check(ctx, "a call in the other mode", M, m, x)
        elif op == "nograd":
            with torch.no_grad():
                check(ctx, "a call without gradients", M, m, x)
        elif op == "reuse":
            with torch.no_grad():
                self.buf.copy_(torch.tensor(x))
                y = ctx.impl("forward", m, self.buf)
            check(ctx, "a call with a reused input tensor", M, m, x, y=y)
        elif op == "own":
            with torch.no_grad():
                self.buf.copy_(torch.tensor(self.xs[0]))
                y = ctx.impl("forward", m, self.buf)
                y.fill_(77.0)  # the caller owns the result
                ctx.require(bool(torch.equal(self.buf, torch.tensor(self.xs[0]))), "the result is the input tensor")
                y = ctx.impl("forward", m, self.buf)
            check(ctx, "a call after the caller has overwritten an earlier result", M, m, self.xs[0], y=y)
        elif op == "weights":
            with torch.no_grad():
                for p in m.parameters():
                    p.mul_(-0.7).add_(0.02)
        elif op == "load":
            other = refill(ctx.impl("constructing", M.build), 0.7, 0.1 * self.k)
            ctx.impl("load_state_dict", m.load_state_dict, copy.deepcopy(other.state_dict()))
        elif op == "copy":
            self.m = ctx.impl("deepcopy", copy.deepcopy, m)
            with torch.no_grad():
                for p in m.parameters():
                    p.fill_(5.0)
        elif op == "scramble":  # another layer of the same kind does something else
            other = refill(ctx.impl("constructing", M.build), 0.3, 0.7)
            check(ctx, "a second layer", M, other, self.xs[3])
        elif op == "step":
            m.zero_grad(set_to_none=True)
            y = ctx.impl("forward", m, torch.tensor(x))
            check(ctx, "a training call", M, m, x, y=y)
            ctx.impl("backward", (y * y).mean().backward)
            with torch.no_grad():
                for p in m.parameters():
                    if p.grad is not None:
                        p -= 0.02 * p.grad.clamp(-1, 1)
        ctx.step()


def debruijn(k, n):
    """a cyclic sequence over range(k) that contains every word of length n once"""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return out


def life(ctx, M, long=False):
    for seq in itertools.product(LIFE, repeat=2):
        ctx.at(layer=M.name, history=list(seq))
        L = Life(ctx, M)
        for op in seq:
            L.do(op)
        check(ctx, "a call after the history", M, L.m, L.xs[1])
        ctx.trace()
        ctx.states(1)
    if long:  # every three operations in a row, in one life
        ctx.at(layer=M.name, history="all triples of operations")
        L = Life(ctx, M)
        for j, k in enumerate(debruijn(len(LIFE), 3)):
            ctx.at(layer=M.name, history="all triples of operations", position=j, operation=LIFE[k])
            L.do(LIFE[k])
            if j % 10 == 0:
                refill(L.m, 0.8, 0.01 * j)
        ctx.trace()


def upstream(ctx, M, m):
    """the derivative is linear in what comes from above: any magnitude, any part of the result"""
    refill(m, 0.8)
    lim = 0.499 * dom(M)
    conv = isinstance(M, ConvM)
    for b in (1, 4, 40) if conv else (1, 4, 40, 130):
        x = np.clip(M.x(b, 2), -lim, lim).astype(np.float32)
        xt = torch.tensor(x, requires_grad=True)
        y = ctx.impl("forward", m, xt)
        c = torch.tensor(ref.fill(tuple(y.shape), 1.0, 0.3))
        var = [xt] + list(real(m).values())

        def grad(u):
            return zeros(ctx.impl("backward", torch.autograd.grad, y, var, u, retain_graph=True, allow_unused=True), var)
        base = grad(c)
        for e in (-20, -7, 7, 13, 20):
            ctx.at(layer=M.name, batch=b, upstream=2.0 ** e)
            for v, w in zip(grad(c * 2.0 ** e), base):
                big = float(w.abs().max()) if w.numel() else 0.0
                ctx.close("gradient for a scaled upstream gradient", v.double().numpy() * 2.0 ** -e, w.double().numpy(), 1e-5 * big + 1e-30)
            ctx.step()
        flat = torch.arange(y.numel()).reshape(y.shape)
        parts = [grad(torch.where(flat % 3 == j, c, torch.zeros_like(c))) for j in range(3)]
        for w, *vs in zip(base, *parts):
            big = max(float(v.abs().max()) if v.numel() else 0.0 for v in vs + [w])
            ctx.close("gradients of parts of the result add up", sum(v.double() for v in vs).numpy(), w.double().numpy(), 1e-4 * big + 1e-30)
        ctx.step()
        ctx.trace()
        ctx.states(1)


def layouts(x):
    """the same values in other memory layouts"""
    yield "transposed", x.transpose(0, -1).contiguous().transpose(0, -1)
    wide = torch.full(tuple(x.shape) + (2,), 9.0, dtype=x.dtype)
    wide[..., 1] = x
    yield "strided", wide[..., 1]
    tall = torch.full((x.shape[0] * 2,) + tuple(x.shape[1:]), 9.0, dtype=x.dtype)
    tall[::2] = x
    yield "every other row", tall[::2]
    yield "flipped", torch.flip(x, [0]).flip(0)
    if x.dim() == 4:
        yield "channels last", x.to(memory_format=torch.channels_last)
    yield "expanded", x[:1].expand(x.shape)


def precision(ctx, M):
    """double precision weights and inputs, other memory layouts: the same function"""
    lim = 0.499 * dom(M)
    conv = isinstance(M, ConvM) and M.a["kind"] in ("cont", "disc")  # these need the default precision to agree
    for mode in ("single", "default") if conv else ("single", "convert", "default"):
        try:
            if mode == "default":
                torch.set_default_dtype(torch.float64)
            m = refill(ctx.impl(f"constructing {M.name}", M.build), 0.8)
            if mode == "convert":
                m = m.double()
            dt = torch.float32 if mode == "single" else torch.float64
            for b, which in ((1, 0), (5, 1), (3, 2)):
                for far in (1.0, 1.7):
                    x = np.clip(M.x(b, which), -lim, lim).astype(np.float32) * np.float32(far)
                    ctx.at(layer=M.name, precision=mode, batch=b, which=which, far=far)
                    xt = torch.tensor(x, dtype=dt)
                    y = ctx.impl("forward", m, xt)
                    ctx.require(y.dtype == dt, f"result of type {y.dtype} for {dt}")
                    check(ctx, f"{mode} precision", M, m, x, y=y, floor=1e-6)
                    for name, v in layouts(xt):
                        ctx.at(layer=M.name, precision=mode, batch=b, which=which, far=far, layout=name)
                        check(ctx, f"{mode} precision, {name} input", M, m, v.numpy().copy().astype(np.float32), y=ctx.impl("forward", m, v), floor=1e-6)
                        ctx.step()
        finally:
            torch.set_default_dtype(torch.float32)
        ctx.states(1)
        ctx.trace()


def frozen(ctx, M):
    """derivatives by some of the weights and inputs while the others are frozen; inputs that never vary"""
    lim = 0.499 * dom(M)
    m = refill(ctx.impl(f"constructing {M.name}", M.build), 0.8)
    ps = real(m)
    for b, which in ((1, 0), (3, 1)):
        x = np.clip(M.x(b, which), -lim, lim).astype(np.float32)
        ctx.at(layer=M.name, batch=b, which=which, frozen="none")
        got = derivatives(ctx, M, m, x, 1)
        if got is None:
            continue
        xt = torch.tensor(x if len(x) == len(got[1]) else x[:0])
        if smooth_points(M, x).all():
            y = ctx.impl("forward", m, xt.requires_grad_(True))
            base = dict(zip(["input"] + list(ps), jet(y, xt, list(ps.values()), 1)[1:]))
            names = list(base)
            for r in range(1, len(names) + 1):
                for alive in itertools.combinations(names, r) if len(names) < 5 else [tuple(names[:1]), tuple(names[1:]), tuple(names[-1:])]:
                    for train in (True, False):
                        ctx.at(layer=M.name, batch=b, which=which, trainable=list(alive), train=train)
                        m.train(train)
                        for k, p in ps.items():
                            p.requires_grad_(k in alive)
                        v = torch.tensor(x, requires_grad="input" in alive)
                        y = ctx.impl("forward with frozen values", m, v)
                        c = torch.tensor(ref.fill(tuple(y.shape), 1.0, 0.3)).to(y.dtype)
                        var = [v if k == "input" else ps[k] for k in alive]
                        moving = any(float(base[k].abs().max()) > 1e-6 for k in alive)
                        ctx.require(y.requires_grad or not moving, "no gradient although something is trainable")
                        if not y.requires_grad:
                            continue
                        g = zeros(ctx.impl("backward with frozen values", torch.autograd.grad, (y * c).sum(), var, allow_unused=True), var)
                        for k, w in zip(alive, g):
                            ctx.close(f"gradient of {k} while others are frozen", w.double().numpy(), base[k].double().numpy(), 1e-4 * float(base[k].abs().max()) + 1e-6)
                        ctx.step()
            for p in ps.values():
                p.requires_grad_(True)
            m.train(True)
    ctx.trace()
    ctx.states(1)
    if isinstance(M, ConvM):
        return
    for b in (2, 4):
        for j in range(min(M.xshape[0], 3)):
            for v in (0.0, 0.37):
                for train in (True, False):
                    m.train(train)
                    x = np.clip(M.x(b, 2), -lim, lim).astype(np.float32)
                    x[:, j] = v * lim
                    ctx.at(layer=M.name, batch=b, input=j, always=v, train=train)
                    check(ctx, "an input that never varies", M, m, x)
                    derivatives(ctx, M, m, x, 1)
                    ctx.step()
    ctx.trace()


def near(M):
    """the same layer on slightly different domains"""
    out = [M]
    for d in (1.0625, 1.25, 2.0):
        if isinstance(M, FC):
            kind, n, segs, i, o, length, per, pr = M.a
            out.append(FC(kind, n, segs, i, o, length=length * d, per=per, prod=pr))
        elif isinstance(M, FourierM):
            out.append(FourierM(*M.a[:3], M.a[3] * d))
        elif isinstance(M, NDM):
            out.append(NDM(*M.a[:5], M.a[5] * d))
        elif isinstance(M, ConvM):
            N = copy.copy(M)
            kw = dict(M.a)
            kw["length"] = kw["length"] * d
            out.append(remake(M, kw))
    return out


def remake(M, a):
    return ConvM(a["kind"], a["nd"], a["n"], a["segs"], a["c"], a["o"], a["k"], **{k: v for k, v in a.items() if k not in ("kind", "nd", "n", "segs", "c", "o", "k")})


def crowd(ctx, models):
    """all of these layers alive at once, built and used in three orders"""
    ms = [n for M in models for n in near(M)]
    N = len(ms)
    for o, order in enumerate((range(N), range(N - 1, -1, -1), sorted(range(N), key=lambda j: j * 0.618033988 % 1))):
        live = {}
        for j in order:
            ctx.at(order=o, building=ms[j].name)
            live[j] = refill(ctx.impl("constructing", ms[j].build), 0.7, 0.01 * j)
            check(ctx, "a new layer among others", ms[j], live[j], ms[j].x(2, j))
            ctx.step(2)
        for j in list(order)[::-1]:
            ctx.at(order=o, using=ms[j].name)
            check(ctx, "a layer among others", ms[j], live[j], ms[j].x(2, j + 1))
            ctx.step()
            ctx.states(1)
        ctx.trace()
    ctx.sample(dict(layers=N))


CHUNK = 6


def extend(pid, tasks, run):
    """adds the battery to the tasks of a property"""
    def tasks2(tier):
        k = -(-len(lists(pid, tier)) // CHUNK)
        return tasks(tier) + [dict(crowd=j, battery=-1, kind="battery", what="battery", part="battery", cost=8) for j in range(2)] + [dict(battery=j, kind="battery", what="battery", part="battery", cost=8) for j in range(k)]

    def run2(task, ctx):
        if "battery" not in task:
            return run(task, ctx)
        if "crowd" in task:
            return crowd(ctx, lists(pid, ctx.tier)[task["crowd"]::2])
        j = task["battery"]
        depth = 2 if ctx.tier == "quick" else 3
        battery(ctx, lists(pid, ctx.tier)[j * CHUNK:(j + 1) * CHUNK], 0.0 if pid in ("C01",) else 1.4, depth)
    return tasks2, run2
