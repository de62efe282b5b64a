"""C17 normalizations, C18 networks, C24 factories, C25 training glue."""
import copy
import itertools
import math

import numpy as np
import torch
import torch.nn as nn

from high_order_layers_torch import layers as HL
from high_order_layers_torch import networks as HN
from high_order_layers_torch import utils as HU
from mc import fd, own, ref
from mc.chains import FN, LinearM, Walk, observe, static_order, verify
from mc.core import Prop
from mc.twin import debruijn
from mc.models import FC, ConvM, FourierM, ProductM, SwitchM, refill

# ---------------------------------------------------------------- C17


def f_max_abs(x, dim):
    return x / (np.abs(x).max(dim, keepdims=True) + 1e-6)


def f_center(x, dim):
    mx, mn = x.max(dim, keepdims=True), x.min(dim, keepdims=True)
    mid = (mx + mn) / 2
    return (x - mid) / (mx - mid + 1e-6)


def f_l2(x, dim):
    return x / (np.sqrt((x ** 2).sum(1, keepdims=True)) + 1e-6)


def whole(f):
    def g(x, dim):
        return f(x.reshape(x.shape[0], -1), 1).reshape(x.shape)
    return g


NORMS = {
    # name: (callable factories, reference, dim or 'last', min ndim)
    "max_abs": ([lambda: HU.max_abs_normalization, lambda: HL.MaxAbsNormalization(), lambda: HL.normalization_layers["max_abs"](), lambda: HU.norm_type["max_abs"]], f_max_abs, 1),
    "max_abs_last": ([lambda: HU.max_abs_normalization_last, lambda: HL.MaxAbsNormalizationLast()], f_max_abs, -1),
    "max_center": ([lambda: HU.max_center_normalization, lambda: HL.MaxCenterNormalization(), lambda: HL.normalization_layers["max_center"]()], f_center, 1),
    "max_center_last": ([lambda: HU.max_center_normalization_last, lambda: HL.MaxCenterNormalizationLast()], f_center, -1),
    "max_center_nd": ([lambda: HU.max_center_normalization_nd, lambda: HL.MaxCenterNormalizationND()], whole(f_center), None),
    "max_abs_nd": ([lambda: HU.max_abs_normalization_nd, lambda: HL.MaxAbsNormalizationND()], whole(f_max_abs), None),
    "l2": ([lambda: HU.l2_normalization, lambda: HL.L2Normalization(), lambda: HL.normalization_layers["l2"](), lambda: HU.norm_type["l2"]], f_l2, 1),
}
ALPH = [-1000.0, -2.0, -1.0, -0.25, 0.0, 1e-8, 0.5, 1.0, 3.0, 1e6]


def c17_tasks(tier):
    out = [dict(norm=k, impl=j) for k, v in NORMS.items() for j in range(len(v[0]))]
    out += [dict(norm="max_abs_dim", dim=d) for d in (0, 1, 2, 3, -1, -2)]
    out += [dict(norm="layer_norm", bias=b) for b in (True, False)]
    out += [dict(norm="eps", eps=e) for e in (1e-6, 1e-3, 0.5)]
    out += [dict(norm=k, impl=j, grads=1) for k, v in NORMS.items() for j in range(len(v[0]))]
    out += [dict(norm=k, impl=j, ladder=1) for k, v in NORMS.items() for j in range(len(v[0]))]
    out += [dict(norm=k, impl=j, owned=1) for k, v in NORMS.items() for j in range(len(v[0]))] + [dict(norm="layer_norm", bias=b, owned=1) for b in (True, False)]
    return out


def norm_owned(ctx, task):
    """all short histories of calls, see mc/own.py"""
    k = task["norm"]
    for shapes in (((2, 3), (2, 3)), ((1, 4), (3, 2)), ((2, 3, 2), (2, 3))):
        if k == "layer_norm":  # its size is fixed by the first call
            shapes = tuple(s[:-1] + (3,) for s in shapes)
            make = lambda: HL.normalization_layers["layer_norm"](bias=task["bias"])

            def want(xd):
                mu = xd.mean(-1, keepdims=True)
                return (xd - mu) / np.sqrt(((xd - mu) ** 2).mean(-1, keepdims=True) + 1e-5), 1e-4
            ops = [o for o in own.OPS if o != "double"]
        else:
            fs, wf, dim = NORMS[k]
            make, ops = fs[task["impl"]], own.OPS

            def want(xd):
                return wf(xd, dim), 2e-5
        own.explore(ctx, k, make, [ref.fill(shapes[0], 2.0), ref.fill(shapes[1], 0.3, 0.4)], want, depth=2 if not ctx.thorough else 3, ops=ops)
    ctx.sample(task)


def norm_grads(ctx, k, fn, want, dim):
    """derivatives of the normalization against differences of its definition, in every mode and order of calls"""
    shapes = [(1, 3), (2, 3), (4, 5), (2, 1), (3, 2, 2), (2, 2, 2, 2), (1, 6), (5, 2)]
    for shape in shapes:
        for which in range(6):
            x = ref.fill(shape, 2.0, 0.21 * which).astype(np.float64)
            x += 0.013 * np.arange(x.size).reshape(shape)  # no ties
            x *= (1.0, 1.0, 1e-2, 30.0, 1.0, 1.0)[which]
            if which == 4:
                x = np.abs(x) + 0.1
            if which == 5:
                x = -np.abs(x) - 0.1
            xt = torch.tensor(x, dtype=torch.float32, requires_grad=True)
            xd = xt.detach().double().numpy()
            ctx.at(norm=k, shape=list(shape), which=which)
            for mode in ("grad", "no_grad", "grad", "grad"):
                if mode == "no_grad":
                    with torch.no_grad():
                        ctx.impl(k, fn, xt)
                    continue
                y = ctx.impl(k, fn, xt)
                c = ref.fill(shape, 1.0, 0.4)
                ctx.require(y.requires_grad, f"{k} cannot be differentiated")
                g, = torch.autograd.grad((y * torch.tensor(c)).sum(), xt)
                num = np.zeros_like(xd)
                h = 1e-5 * np.abs(xd).max()
                for q in np.ndindex(*shape):
                    up, dn = xd.copy(), xd.copy()
                    up[q] += h
                    dn[q] -= h
                    num[q] = ((want(up, dim) - want(dn, dim)) * c).sum() / (2 * h)
                ctx.close(f"derivative of {k}", g.double().numpy(), num, 1e-4 * (np.abs(num).max() + 1 / np.abs(xd).max()) + (2e-3 * np.abs(num).max() if "center" in k else 0))
                ctx.step(x.size)
            ctx.states(1)
            ctx.trace()
            ctx.outcome(g.numpy().round(3).tobytes())


def norm_check(ctx, what, fn, want_fn, x, dim, centered, bound):
    xt = torch.tensor(x)
    keep = xt.clone()
    y = ctx.impl(what, fn, xt)
    ctx.same("the input was modified", xt, keep)
    ctx.require(y.shape == xt.shape, f"{what}: shape {tuple(y.shape)} for input {tuple(xt.shape)}")
    ctx.require(bool(torch.isfinite(y).all()), f"{what}: output is not finite")
    xd = x.astype(np.float64)
    want = want_fn(xd, dim)
    y = y.double().numpy()
    # conditioning: cancellation in x - mid
    if centered:
        big = np.abs(xd).max(axis=tuple(range(1, xd.ndim)), keepdims=True)
        f = want_fn(xd, dim)
        mx = xd.max(dim if dim is not None else tuple(range(1, xd.ndim)), keepdims=True)
        mn = xd.min(dim if dim is not None else tuple(range(1, xd.ndim)), keepdims=True)
        m2 = np.maximum(np.abs(mx), np.abs(mn))
        mag = (mx - mn) / 2 + 1e-6
        tol = 8 * ref.EPS * (1 + m2 / mag) * np.ones_like(want)
    else:
        tol = 8 * ref.EPS * (np.abs(want) + 1e-30) * (1 + 0.2 * x.shape[1])
    ctx.close(what, y, want, tol)
    ctx.require(np.abs(y).max(initial=0) <= 1 + (tol.max() if centered else 1e-5), f"{what}: magnitude above one")
    ctx.states(x.shape[0])
    ctx.step(x.shape[0])
    ctx.trace(1)
    ctx.outcome(y[:200].tobytes())
    return y


def shapes_for(lastdim):
    return [(3,), (1,), (2, 3), (4, 1), (1, 4), (2, 2, 3), (3, 1, 2), (2, 3, 2, 2)]


def c17(task, ctx):
    k = task["norm"]
    if task.get("owned"):
        return norm_owned(ctx, task)
    if k == "eps":
        e = task["eps"]
        x = np.array(list(itertools.product(ALPH, repeat=3)), np.float32)
        xd = x.astype(float)
        m = np.abs(xd).max(1, keepdims=True)
        ctx.close("eps of max_abs", HL.MaxAbsNormalization(eps=e)(torch.tensor(x)).double().numpy(), xd / (m + e), 1e-5)
        ctx.close("eps of max_abs", HL.MaxAbsNormalizationND(eps=e)(torch.tensor(x)).double().numpy(), xd / (m + e), 1e-5)
        ctx.close("eps of max_abs", HL.MaxAbsNormalizationLast(eps=e)(torch.tensor(x)).double().numpy(), xd / (m + e), 1e-5)
        ctx.close("eps of l2", HL.L2Normalization(eps=e)(torch.tensor(x)).double().numpy(), xd / (np.sqrt((xd ** 2).sum(1, keepdims=True)) + e), 1e-5)
        mx, mn = xd.max(1, keepdims=True), xd.min(1, keepdims=True)
        mid = (mx + mn) / 2
        for c in (HL.MaxCenterNormalization, HL.MaxCenterNormalizationLast, HL.MaxCenterNormalizationND):
            ctx.close("eps of max_center", c(eps=e)(torch.tensor(x)).double().numpy(), (xd - mid) / (mx - mid + e),
                      1e-5 + 8 * ref.EPS * np.maximum(abs(mx), abs(mn)) / (mx - mid + e))
        ctx.states(len(x))
        ctx.step(7 * len(x))
        ctx.trace()
        ctx.outcome(e)
        ctx.sample(task)
        return
    if k == "layer_norm":
        for shape in ((3,), (4,), (2, 3), (2, 3, 2)):
            m = HL.normalization_layers["layer_norm"](bias=task["bias"])
            x = np.resize(np.array(list(itertools.product(ALPH[1:9], repeat=3)), np.float32), (512,) + shape)
            for rep in range(2):  # lazily initialized on the first call, same result later
                y = ctx.impl("layer norm", m, torch.tensor(x)).detach().double().numpy()
                xd = x.astype(float)
                mu = xd.mean(-1, keepdims=True)
                v = ((xd - mu) ** 2).mean(-1, keepdims=True)
                ctx.close("layer norm", y, (xd - mu) / np.sqrt(v + 1e-5), 2e-3)
                ctx.step(len(x))
            ctx.states(len(x))
            ctx.trace()
            ctx.outcome(y.tobytes())
        ctx.sample(task)
        return
    if k == "max_abs_dim":
        d = task["dim"]
        for shape in ((3,), (1,), (4, 3), (1, 5), (6, 1), (3, 4, 2), (2, 1, 3), (2, 3, 4, 2), (5, 2, 2, 3), (2, 2, 3, 2, 2)):
            if not -len(shape) <= d < len(shape):
                continue
            x = ref.fill(shape, 5.0)
            for which, v in enumerate((x, x * 0, -np.abs(x) * 1e6)):
                ctx.at(dim=d, shape=list(shape), which=which)
                v = v.astype(np.float32)
                vd = v.astype(float)
                want = f_max_abs(vd, d)
                for fn in (lambda t: HU.max_abs_normalization(t, dim=d), HL.MaxAbsNormalization(dim=d), HL.normalization_layers["max_abs"](dim=d), lambda t: HU.norm_type["max_abs"](t, dim=d)):
                    y = ctx.impl(f"max_abs dim={d}", fn, torch.tensor(v)).double().numpy()
                    ctx.close(f"max_abs dim={d}", y, want, 1e-6 * (np.abs(want) + 1e-30))
                    ctx.step()
                if d == 0 and len(shape) < 2:
                    continue
                ctx.close("maximum magnitude", HU.max_abs(torch.tensor(v), dim=d).double().numpy(), np.abs(vd).max(d, keepdims=True), 0)
                mx, mn = vd.max(d, keepdims=True), vd.min(d, keepdims=True)
                mid = (mx + mn) / 2
                want = (vd - mid) / (mx - mid + 1e-6)
                y = ctx.impl(f"max_center dim={d}", lambda: HU.max_center_normalization(torch.tensor(v), dim=d)).double().numpy()
                ctx.close(f"max_center dim={d}", y, want, 8 * ref.EPS * (1 + np.maximum(abs(mx), abs(mn)) / (mx - mid + 1e-6)) * np.ones_like(want))
                ctx.step(2)
                ctx.states(1)
                ctx.trace()
                ctx.outcome(y.tobytes())
        ctx.sample(task)
        return
    fns, want, dim = NORMS[k]
    fn = fns[task["impl"]]()
    centered = "center" in k
    if task.get("grads"):
        norm_grads(ctx, k, fn, want, dim)
        return ctx.sample(dict(task=task))
    if task.get("ladder"):
        sizes = list(range(1, 70)) + [96, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025]
        for L in sizes:
            for b in (1, 3):
                ctx.at(vector_length=L, batch=b)
                norm_check(ctx, k + " (ladder)", fn, want, ref.fill((b, L), 3.0, 0.01 * L), dim, centered, 1)
        for L in sizes[:40]:
            for shape in ((2, L, 3), (2, 3, L), (1, 2, L, 2), (2, 1, 2, L), (1, L, L)):
                ctx.at(shape=list(shape))
                norm_check(ctx, k + " (ladder)", fn, want, ref.fill(shape, 3.0, 0.01 * L), dim, centered, 1)
        for e in range(-37, 37 if k != "l2" else 18):
            for sign in (1, -1):
                x = np.array(list(itertools.product((1.0, 0.5, -0.25, 0.0, 3.0), repeat=3)), np.float64) * (sign * 10.0 ** e)
                ctx.at(magnitude=e)
                if k == "l2" and e < -18:
                    continue  # squares below the range of float32
                norm_check(ctx, k + " (magnitudes)", fn, want, x.astype(np.float32), dim, centered, 1)
        ctx.sample(dict(task=task))
        return
    # all vectors over the alphabet, lengths 1..4
    for L in (1, 2, 3, 4):
        if L == 4 and not ctx.thorough:
            vals = ALPH[1:9]
        else:
            vals = ALPH
        x = np.array(list(itertools.product(vals, repeat=L)), np.float32)
        ctx.at(vector_length=L)
        y = norm_check(ctx, k, fn, want, x, dim, centered, 1)
        # each sample is normalized on its own
        for r in range(0, len(x), max(1, len(x) // 50)):
            one = ctx.impl(k, fn, torch.tensor(x[r:r + 1])).double().numpy()
            ctx.close("sample independent of the batch", one[0], y[r], 0)
            ctx.step()
    for shape in ((2, 3), (3, 1), (2, 2, 3), (1, 4, 2), (2, 3, 2, 2), (5, 7, 3)):
        base = np.array(list(itertools.product(ALPH[1:9], repeat=3)), np.float32)
        x = np.resize(base[:, ::-1], (40,) + shape).astype(np.float32)
        ctx.at(shape=list(shape))
        y = norm_check(ctx, k, fn, want, x, dim, centered, 1)
        x[7] = 0.0
        norm_check(ctx, k + " with a zero sample", fn, want, x, dim, centered, 1)
        nc = torch.tensor(x).transpose(0, 1).contiguous().transpose(0, 1)
        ctx.close("non contiguous", ctx.impl(k, fn, nc).double().numpy(), ctx.impl(k, fn, torch.tensor(x)).double().numpy(), 1e-6)
    for b in list(range(1, 20)) + [100, 256, 1025]:
        x = np.resize(ref.fill((997,), 3.0), (b, 6)).astype(np.float32)
        norm_check(ctx, k + " batch size", fn, want, x, dim, centered, 1)
    ctx.sample(dict(task=task))


# ---------------------------------------------------------------- C18
def fcm(t, n, s, i, o, length=2.0, per=None):
    if t == "fourier":
        return FourierM(n, i, o, length)
    if t == "product":
        return ProductM(i, o, per=per)
    if t == "baseline":
        return LinearM(i, o)
    if t.startswith("switch_"):
        return SwitchM({"continuous": "cont", "discontinuous": "disc"}[t[7:]], n, s, i, o, 2, length)
    prod = t.endswith("_prod")
    kind = {"continuous": "cont", "discontinuous": "disc", "polynomial": "poly"}[t.replace("_prod", "")]
    return FC(kind, n, s, i, o, length, per, prod)


def mlp_steps(a, norm, act):
    """the documented structure of a high order MLP"""
    t, tin = a["layer_type"], a.get("layer_type_in") or a["layer_type"]
    n = a["n"]
    sc, per = a.get("scale", 2.0), a.get("periodicity")
    between = [z for z in (norm, act) if z]
    steps = [fcm(tin, a.get("n_in") or n, a.get("in_segments"), a["in_width"], a["hidden_width"], sc, per)]
    for i in range(a["hidden_layers"]):
        steps += between
        m = fcm(t, a.get("n_hidden") or n, a.get("hidden_segments"), a["hidden_width"], a["hidden_width"], sc, per)
        steps.append(("res", m) if a.get("resnet") and i > 0 else m)
    steps += between
    steps.append(fcm(t, a.get("n_out") or n, a.get("out_segments"), a["hidden_width"], a["out_width"], sc, per))
    return steps


NORM_CLS = {"max_abs": HL.MaxAbsNormalization, "max_center": HL.MaxCenterNormalization, "l2": HL.L2Normalization, "layer_norm": HL.LazyLayerNormLastDim}
ACT = {"relu": nn.ReLU, "tanh": nn.Tanh}


def count(steps):
    return sum(1 for s in steps if not isinstance(s, str) and not (callable(s) and not hasattr(s, "predict")))


def xin(width, b=9, which=0, span=1.0):
    k = b * width
    v = np.mod((np.arange(k) + 1 + 17 * which) * 0.7548776662466927 + 0.07 * which, 1.0) * 2 - 1
    return (v.reshape(b, width) * span).astype(np.float32)


def mlp_grid(tier):
    out = []
    types = ["continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod", "fourier", "product", "switch_continuous", "switch_discontinuous", "baseline"]
    for t in types:
        for h in (0, 1, 2, 3):
            for norm in (None, "max_abs", "max_center", "l2"):
                for act in (None, "relu", "tanh"):
                    out.append(dict(net="mlp", layer_type=t, n=3, in_width=2, out_width=2, hidden_layers=h, hidden_width=3,
                                    in_segments=2 if "disc" not in t else 5, hidden_segments=3, out_segments=4 if "disc" not in t else 7, norm=norm, act=act))
    for t in ("continuous", "discontinuous", "polynomial", "continuous_prod", "fourier", "switch_continuous"):
        for (ni, nh, no), (iw, hw, ow) in itertools.product(((2, 3, 4), (4, 2, 3), (None, None, 2), (3, None, None), (None, 4, None)), ((1, 4, 3), (3, 2, 1), (2, 5, 4))):
            out.append(dict(net="mlp", layer_type=t, n=3, n_in=ni, n_hidden=nh, n_out=no, in_width=iw, out_width=ow, hidden_layers=2, hidden_width=hw,
                            in_segments=5, hidden_segments=2, out_segments=3, norm="max_abs", act=None))
        for h in (1, 2, 3, 4, 6):
            for norm, act in (("max_abs", None), (None, "relu"), ("max_abs", "relu")):
                out.append(dict(net="mlp", layer_type=t, n=3, in_width=2, out_width=2, hidden_layers=h, hidden_width=3, resnet=True,
                                in_segments=2, hidden_segments=3, out_segments=4, norm=norm, act=act))
        for sc in (1.0, 4.0, 3.0):
            for per in (None, 2.0):
                if t == "fourier" or (t.startswith("switch") and per):
                    continue
                out.append(dict(net="mlp", layer_type=t, n=3, in_width=2, out_width=2, hidden_layers=1, hidden_width=3, scale=sc, periodicity=per,
                                in_segments=2, hidden_segments=3, out_segments=4, norm="max_abs", act=None))
        for tin in ("polynomial", "continuous", "discontinuous", "fourier"):
            out.append(dict(net="mlp", layer_type=t, layer_type_in=tin, n=3, n_in=4, in_width=2, out_width=2, hidden_layers=1, hidden_width=3,
                            in_segments=2, hidden_segments=3, out_segments=4, norm="max_abs", act=None))
        for p in (0.3, 0.9):
            out.append(dict(net="mlp", layer_type=t, n=3, in_width=2, out_width=2, hidden_layers=2, hidden_width=3, dropout=p,
                            in_segments=2, hidden_segments=3, out_segments=4, norm="max_abs", act=None))
    for t in ("continuous", "discontinuous", "polynomial", "product", "continuous_prod"):
        for norm, act in ((None, None), ("max_abs", "relu"), ("max_center", None)):
            if norm is None and "prod" in t:
                continue
            for w in (4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 32, 33, 64, 65):
                for j, key in enumerate(("in_width", "hidden_width", "out_width")):
                    a = dict(net="mlp", ladder=1, layer_type=t, n=2 + j, in_width=2, out_width=2, hidden_layers=1 + w % 2, hidden_width=3, in_segments=2, hidden_segments=3, out_segments=4, norm=norm, act=act)
                    a[key] = w
                    out.append(a)
            for h in (4, 5, 6, 7, 8, 9, 12, 16, 17):
                for res in (False, True):
                    out.append(dict(net="mlp", ladder=1, layer_type=t, n=2, in_width=2, out_width=2, hidden_layers=h, hidden_width=3, in_segments=2, hidden_segments=3, out_segments=4,
                                    norm=norm or "max_abs", act=act, resnet=res))
            for n in (5, 6, 7):
                out.append(dict(net="mlp", ladder=1, layer_type=t, n=n, n_in=2, in_width=2, out_width=2, hidden_layers=1, hidden_width=3, in_segments=2, hidden_segments=3, out_segments=4, norm=norm or "max_abs", act=act))
            for j, key in itertools.product((8, 9, 16, 17, 32, 33), ("in_segments", "hidden_segments", "out_segments")):
                if norm != "max_center":
                    out.append(dict(dict(net="mlp", ladder=1, layer_type=t, n=3, in_width=2, out_width=2, hidden_layers=1, hidden_width=3, in_segments=2, hidden_segments=3, out_segments=4, norm=norm or "max_abs", act=act), **{key: j}))
    return out


def c18_tasks(tier):
    g = mlp_grid(tier)
    out = [dict(net="mlp", block=i, cost=5) for i in range(0, len(g), 12)]
    for k in ("list", "multi", "low", "rotation", "conv1d", "conv2d", "deconv", "tail", "sum", "state", "dropout"):
        out += [dict(net=k, part=j, cost=5) for j in range(4)]
    out += [dict(net="life", part=j, cost=9) for j in range(8)]
    return out


def mlp_kwargs(a):
    kw = {k: v for k, v in a.items() if k not in ("net", "norm", "act", "kind", "ladder")}
    if a.get("norm"):
        kw["normalization"] = NORM_CLS[a["norm"]]
    if a.get("act"):
        kw["non_linearity"] = ACT[a["act"]]()
    return kw


def check_mlp(ctx, a):
    ctx.at(config=a)
    net = ctx.impl("constructing HighOrderMLP", HN.HighOrderMLP, **mlp_kwargs(a))
    if a["layer_type"] != "baseline":
        refill(net, 0.15 if "prod" in a["layer_type"] and not a.get("norm") else 0.7)
    steps = mlp_steps(a, a.get("norm"), a.get("act"))

    def predict(w, x):
        return w.chain(steps, x, np.zeros_like(x), np.zeros(len(x), bool))
    net.eval()
    span = 0.5 * a.get("scale", 2.0)
    kept = 0
    for b, which in ((9, 0), (1, 1), (32, 2)):
        y, keep = verify(ctx, f"HighOrderMLP {a['layer_type']}", net, xin(a["in_width"], b, which, span), predict, count(steps), grads=b == 9 and (a.get("dropout") or ctx.tier != "quick") and not a.get("ladder"))
        kept += int(keep.sum())
        ctx.states(b)
        ctx.step(b)
        ctx.trace()
        ctx.outcome(y.tobytes())
    # every layer on its own was compared in any case; a deep or wide network may be decided by rounding
    ctx.require(kept > 0 or a.get("ladder"), "vacuous")
    if not a.get("dropout"):
        net.train()
        verify(ctx, "HighOrderMLP in training mode", net, xin(a["in_width"], 9, 0, span), predict, count(steps), grads=not a.get("ladder"))
        ctx.step(9)
    else:
        net.train()
        torch.manual_seed(0)
        p = a["dropout"]
        outs = [net(torch.tensor(xin(a["in_width"], 4, 0, span))).detach() for _ in range(6)]
        ctx.require(any(not torch.equal(outs[0], o) for o in outs[1:]), "dropout has no effect in training mode")
        net.eval()
        verify(ctx, "HighOrderMLP with dropout in eval mode", net, xin(a["in_width"], 9, 0, span), predict, count(steps))


def c18(task, ctx):
    k = task["net"]
    if k == "mlp":
        g = mlp_grid(ctx.tier)
        for a in g[task["block"]:task["block"] + 12]:
            check_mlp(ctx, a)
        ctx.sample(g[task["block"]])
        return
    part = task["part"]
    globals()["c18_" + k](ctx, part)
    ctx.sample(task)


def construct(ctx, what, cls, **kw):
    """builds the network twice from the same lists: the second one is the one to look at"""
    keep = copy.deepcopy({k: v for k, v in kw.items() if isinstance(v, (list, dict)) and k not in ("normalization", "non_linearity")})
    ctx.impl("constructing " + what, cls, **kw)
    net = ctx.impl("constructing " + what, cls, **kw)
    for k, v in keep.items():
        ctx.require(kw[k] == v, f"constructing {what} changes its argument {k}: {v} becomes {kw[k]}")
    return net


def share(items, part, of=4):
    return [v for j, v in enumerate(items) if j % of == part]


def c18_list(ctx, part):
    combos = []
    T = ["continuous", "discontinuous", "polynomial", "fourier", "product", "continuous_prod", "discontinuous_prod", "baseline"]
    for L in (1, 2, 3):
        for ts in itertools.product(T if L < 3 else T[:4], repeat=L):
            combos.append(ts)
    for ts in share(combos, part):
        L = len(ts)
        for variant in range(3):
            n = [2 + (j + variant) % 3 for j in range(L)]
            seg = [1 + (2 * j + variant) % 4 for j in range(L)]
            width = [2 + (j * 2 + variant) % 3 for j in range(L + 1)]
            norm = [None, "max_abs", "max_center"][variant]
            norms = [NORM_CLS[norm] if norm and j != 1 + variant // 2 else None for j in range(L)] if norm else None
            acts = [None if j % 2 else nn.Tanh() for j in range(L)] if variant == 1 else None
            sc = 2.0 if variant < 2 else 4.0
            per = 2.0 if variant == 1 else None
            ctx.at(types=list(ts), n=n, segments=seg, width=width)
            net = construct(ctx, "HighOrderMLPList", HN.HighOrderMLPList, layer_type=list(ts), n=n, width=width, segments=seg, scale=sc,
                           periodicity=per, normalization=norms, non_linearity=acts)
            refill(net, 0.7)
            steps = [fcm(ts[0], n[0], seg[0], width[0], width[1], sc, per)]
            for j in range(1, L):
                if norms and norms[j]:
                    steps.append(norm)
                if acts and acts[j] is not None:
                    steps.append("tanh")
                steps.append(fcm(ts[j], n[j], seg[j], width[j], width[j + 1], sc, per))
            y, keep = verify(ctx, "HighOrderMLPList", net, xin(width[0], 8, variant, sc / 2), lambda w, x: w.chain(steps, x, np.zeros_like(x), np.zeros(len(x), bool)), count(steps), grads=True)
            ctx.states(8)
            ctx.step(8)
            ctx.trace()
            ctx.outcome(y.tobytes())


def c18_multi(ctx, part):
    cfgs = []
    for t in ("continuous", "discontinuous", "polynomial", "fourier", "continuous_prod", "product"):
        for reps in (1, 2, 3, 4, 5, 6):
            for norm, act in ((None, None), ("max_abs", None), ("max_abs", "relu"), (None, "tanh")):
                for h in (0, 1, 2):
                    for res in (False, True):
                        if res and (h < 2 or norm != "max_abs"):
                            continue
                        if reps > 3 and h > (reps < 5):
                            continue
                        cfgs.append(dict(layer_type=t, n=3, in_width=2, out_width=3, hidden_layers=h, hidden_width=4, replicas=reps, n_in=2, n_out=4, n_hidden=None if h else 3,
                                         in_segments=3, hidden_segments=2, out_segments=4, norm=norm, act=act, resnet=res))
    for a in share(cfgs, part):
        ctx.at(config=a)
        kw = mlp_kwargs(a)
        net = ctx.impl("constructing HighOrderMultiMLP", HN.HighOrderMultiMLP, **kw)
        refill(net, 0.6)
        net.eval()
        t, n = a["layer_type"], a["n"]
        nh = a["n_hidden"] or n
        between = [z for z in (a["norm"], a["act"]) if z]
        first = [fcm(t, 2, 3, 2, 4)] + between
        rep = mlp_steps(dict(layer_type=t, n=n, n_in=nh, n_hidden=nh, n_out=nh, in_width=4, out_width=4, hidden_width=4, hidden_layers=a["hidden_layers"],
                             in_segments=2, hidden_segments=2, out_segments=2, resnet=a["resnet"]), a["norm"], a["act"])
        last = between + [fcm(t, 4, 4, 4, 3)]

        def predict(w, x):
            h, d, bad = w.chain(first, x, np.zeros_like(x), np.zeros(len(x), bool))
            acc, td = 0, 0
            for _ in range(a["replicas"]):
                r, dr, b2 = w.chain(rep, h, d, bad)
                acc, td, bad = acc + r, td + dr + 4 * ref.EPS * np.abs(r), bad | b2
            return w.chain(last, acc, td, bad)
        total = count(first) + a["replicas"] * count(rep) + count(last)
        y, keep = verify(ctx, "HighOrderMultiMLP", net, xin(2, 8, 1), predict, total, grads=True)
        ctx.states(8)
        ctx.step(8)
        ctx.trace()
        ctx.outcome(y.tobytes())


class Masks:
    """the random source of dropout under our control: row r of a batch loses the units given by the bits of r,
    so that the rows of one batch go through every mask"""

    def __init__(self):
        self.calls = []

    def __enter__(self):
        import torch.nn.functional as F
        self.old = F.dropout

        def dropout(input, p=0.5, training=True, inplace=False):
            if not training or p == 0:
                return input
            self.calls.append(float(p))
            return input * self.mask(input.shape[0], input.shape[1]).to(input.dtype) / (1 - p)
        F.dropout = dropout
        return self

    @staticmethod
    def mask(b, w):
        return 1 - ((torch.arange(b)[:, None] >> torch.arange(w)[None, :]) & 1).float()

    def __exit__(self, *a):
        import torch.nn.functional as F
        F.dropout = self.old


def dropped(p):
    def f(h, d):
        m = Masks.mask(*h.shape).double().numpy() / (1 - p)
        return h * m, d * m
    return f


def c18_dropout(ctx, part):
    cfgs = []
    for t, h, p, norm, act, reps in itertools.product(("continuous", "discontinuous", "polynomial", "fourier", "product", "switch_continuous"), (0, 1, 2, 3), (0.25, 0.5, 0.875), (None, "max_abs"), (None, "tanh"), (0, 1, 2, 3)):
        if norm is None and (p > 0.25 or t == "product" or (reps and h > 1)):
            continue  # the values leave the range of float32
        cfgs.append(dict(layer_type=t, n=3, in_width=2, out_width=2, hidden_layers=h, hidden_width=3, dropout=p, in_segments=2, hidden_segments=3, out_segments=4, norm=norm, act=act, **(dict(replicas=reps) if reps else {})))
    for a in share(cfgs, part):
        ctx.at(config=a)
        reps, p, h = a.get("replicas", 0), a["dropout"], a["hidden_layers"]
        net = refill(ctx.impl("constructing", HN.HighOrderMultiMLP if reps else HN.HighOrderMLP, **mlp_kwargs(a)), 0.6 if a["layer_type"] != "product" else 0.3)
        between = [z for z in (a["norm"], a["act"]) if z]

        def mlp(i, o, drop, nin, nseg):
            b = between + ([dropped(p)] if drop else [])
            st = [fcm(a["layer_type"], 3, nin, i, 3)]
            for _ in range(h):
                st += b + [fcm(a["layer_type"], 3, 3, 3, 3)]
            return st + b + [fcm(a["layer_type"], 3, nseg, 3, o)]

        def predict_for(drop):
            if not reps:
                return lambda w, x: w.chain(mlp(2, 2, drop, 2, 4), x, np.zeros_like(x), np.zeros(len(x), bool))
            first = [fcm(a["layer_type"], 3, 2, 2, 3)] + between
            rep = mlp(3, 3, drop, 3, 3)
            last = ([dropped(p)] if drop else []) + between + [fcm(a["layer_type"], 3, 4, 3, 2)]

            def predict(w, x):
                q, d, bad = w.chain(first, x, np.zeros_like(x), np.zeros(len(x), bool))
                acc = 0
                for _ in range(reps):
                    r, _, b2 = w.chain(rep, q, d, bad)
                    acc, bad = acc + r, bad | b2
                return w.chain(last, acc, np.zeros_like(acc), bad)
            return predict
        layers = h + 2 if not reps else reps * (h + 2) + 2
        want = h + 1 if not reps else reps * (h + 1) + 1
        for mode in ("eval", "train", "eval"):
            getattr(net, mode)()
            for which in (0, 1):
                with Masks() as masks:
                    y, keep = verify(ctx, f"{'multi ' if reps else ''}network with dropout, mode {mode}", net, xin(2, 16, which), predict_for(mode == "train"), layers)
                    calls = list(masks.calls)
                    if mode == "train" and which == 0 and (ctx.thorough or reps in (0, 2) and p == (0.5 if a["norm"] else 0.25) and a["layer_type"] in ("continuous", "polynomial", "fourier")):
                        fd.slopes(ctx, "network with dropout", net, [torch.tensor(xin(2, 16, which))])
                ctx.require(len(calls) == (want if mode == "train" else 0), f"dropout is applied {len(calls)} times in mode {mode}, expected {want if mode == 'train' else 0}")
                ctx.require(all(abs(c - p) < 1e-9 for c in calls), f"dropout probabilities {sorted(set(calls))} instead of {p}")
                ctx.step(16)
        ctx.states(1)
        ctx.trace()
        ctx.outcome(y.tobytes())


def c18_low(ctx, part):
    cfgs = list(itertools.product((0, 1, 2, 4), (None, "max_abs", "max_center"), (None, "relu", "tanh"), ((1, 3, 2), (3, 2, 4))))
    for h, norm, act, (i, w_, o) in share(cfgs, part):
        ctx.at(hidden=h, norm=norm, act=act)
        net = ctx.impl("constructing LowOrderMLP", HN.LowOrderMLP, in_width=i, out_width=o, hidden_layers=h, hidden_width=w_,
                       non_linearity=ACT[act]() if act else None, normalization=NORM_CLS[norm] if norm else None)
        between = [z for z in (norm, act) if z]
        steps = [LinearM(i, w_)]
        for _ in range(h):
            steps += between + [LinearM(w_, w_)]
        steps += between + [LinearM(w_, o)]
        y, keep = verify(ctx, "LowOrderMLP", net, xin(i, 9, 0, 2.0), lambda w, x: w.chain(steps, x, np.zeros_like(x), np.zeros(len(x), bool)), count(steps), grads=True)
        ctx.states(9)
        ctx.step(9)
        ctx.trace()
        ctx.outcome(y.tobytes())


def c18_rotation(ctx, part):
    cfgs = list(itertools.product(("continuous", "discontinuous", "polynomial"), (1, 2, 3, 4), (1, 2, 3), (1, 2), ((2.0, None), (2.0, 2.0), (3.0, 2.0), (1.0, None), (1.5, 4.0), (2.0, 1.0))))
    for t, rot, i, h, (sc, per) in share(cfgs, part):
        ctx.at(layer_type=t, rotations=rot, inputs=i, scale=sc, periodicity=per)
        width = i + i * (i - 1) * (rot - 1)
        net = ctx.impl("constructing transform_mlp", HN.transform_mlp, layer_type=t, in_width=i, hidden_width=3, out_width=2, n=3, n_in=2, n_hidden=3, n_out=4,
                       in_segments=2, hidden_segments=3, out_segments=4, hidden_layers=h, rotations=rot, periodicity=per, scale=sc, normalization=HL.MaxAbsNormalization)
        a = dict(scale=sc, layer_type=t, n=3, n_in=2, n_hidden=3, n_out=4, in_width=width, out_width=2, hidden_layers=h, hidden_width=3, in_segments=2,
                 hidden_segments=3, out_segments=4, periodicity=per)
        with torch.no_grad():
            for p in net.parameters():
                if p.requires_grad:
                    p.copy_(torch.tensor(ref.fill(tuple(p.shape), 0.7)))
        steps = [LinearM(i, width)] + mlp_steps(a, "max_abs", None)
        y, keep = verify(ctx, "transform_mlp", net, xin(i, 8, 1), lambda w, x: w.chain(steps, x, np.zeros_like(x), np.zeros(len(x), bool)), count(steps),
                         static=lambda n_: static_order(n_), grads=True)
        lin = [p for p in net.parameters() if not p.requires_grad]
        ctx.require(len(lin) == 1 and lin[0].shape == (width, i), "the rotation must be a fixed layer")
        ctx.states(8)
        ctx.step(8)
        ctx.trace()
        ctx.outcome(y.tobytes())
        if t == "continuous" and sc == 2.0:
            low = ctx.impl("constructing transform_low_mlp", HN.transform_low_mlp, in_width=i, hidden_width=3, out_width=2, hidden_layers=h, non_linearity=nn.ReLU(),
                           normalization=HL.MaxAbsNormalization, rotations=rot)
            st = [LinearM(i, width), LinearM(width, 3)]
            for _ in range(h):
                st += ["max_abs", "relu", LinearM(3, 3)]
            st += ["max_abs", "relu", LinearM(3, 2)]
            verify(ctx, "transform_low_mlp", low, xin(i, 8, 1), lambda w, x: w.chain(st, x, np.zeros_like(x), np.zeros(len(x), bool)), count(st), grads=True)
            ctx.step(8)


def img(shape, which=0, span=1.0):
    k = int(np.prod(shape))
    v = np.mod((np.arange(k) + 1 + 17 * which) * 0.7548776662466927 + 0.07 * which, 1.0) * 2 - 1
    return (v.reshape(shape) * span).astype(np.float32)


def nd_norm(h, d):
    dims = tuple(range(1, h.ndim))
    from mc.chains import max_abs
    return max_abs(h, d, dims=dims)


class NDNorm(nn.Module):
    """called with the number of channels, as the networks do"""

    def __init__(self, channels):
        super().__init__()
        self.f = HL.MaxAbsNormalizationND()

    def forward(self, x):
        return self.f(x)


def conv_cfgs(nd):
    kinds = ("continuous", "discontinuous", "polynomial", "fourier")
    out = []
    for t in kinds:
        for ch, ks in (([1, 2], [2]), ([2, 3, 1], [3, 2]), ([1, 2, 2, 3], [2, 1, 3]), ([3, 1, 2, 1, 2], [1, 2, 2, 1])):
            for norm in (None, "nd"):
                for stride in (None, 1, 2, [1, 2, 1, 1][: len(ks)]):
                    for pool in ("same", None):
                        out.append(dict(types=t, ch=ch, ks=ks, n=3, seg=2, norm=norm, stride=stride, pool=pool, pad=0, per=None))
    out.append(dict(types=["continuous", "polynomial"], ch=[1, 2, 2], ks=[2, 2], n=[2, 4], seg=[3, 1], norm=None, stride=None, pool="same", pad=0, per=None))
    out.append(dict(types=["discontinuous", "fourier"], ch=[2, 1, 2], ks=[1, 3], n=[3, 5], seg=[4, 1], norm="nd", stride=[2, 1], pool=None, pad=1, per=None))
    out.append(dict(types=["polynomial", "continuous", "discontinuous"], ch=[2, 1, 2, 2], ks=[2, 2, 1], n=[3, 2, 2], seg=[1, 4, 3], norm="nd", stride=None, pool="same", pad=1, per=2.0))
    out.append(dict(types="continuous", ch=[1, 2, 2], ks=[2, 2], n=3, seg=2, norm=None, stride=1, pool="same", pad=2, per=2.0))
    out.append(dict(types="continuous", ch=[1, 2, 2], ks=[2, 2], n=3, seg=2, norm=None, stride=1, pool="same", pad=0, per=None, rescale=True))
    return out


def lst(v, k):
    return v if isinstance(v, list) else [v] * k


KIND = {"continuous": "cont", "discontinuous": "disc", "polynomial": "poly", "fourier": "fourier"}


def conv_models(a, nd, transpose=False):
    k = len(a["ch"]) - 1
    ts, ns, sg = lst(a["types"], k), lst(a["n"], k), lst(a["seg"], k)
    st = [1] * k if a["stride"] is None else lst(a["stride"], k)
    return [ConvM(KIND[ts[i]], nd, ns[i], sg[i], a["ch"][i], a["ch"][i + 1], a["ks"][i], per=None if ts[i] == "fourier" else a["per"], stride=st[i], padding=a["pad"],
                  rescale=a.get("rescale", False), transpose=transpose) for i in range(k)]


def conv_net(ctx, nd, part):
    for a in share(conv_cfgs(nd), part):
        ctx.at(config=a, nd=nd)
        k = len(a["ch"]) - 1
        ty = [t + f"{nd}d" for t in a["types"]] if isinstance(a["types"], list) else a["types"] + f"{nd}d"
        pool = f"{nd}d" if a["pool"] == "same" else None
        net = construct(ctx, "HighOrderFullyConvolutionalNetwork", HN.HighOrderFullyConvolutionalNetwork, layer_type=ty, n=a["n"], channels=a["ch"],
                       segments=a["seg"], kernel_size=a["ks"], periodicity=a["per"], normalization=NDNorm if a["norm"] else None, pooling=pool,
                       stride=a["stride"], padding=a["pad"], rescale_output=a.get("rescale", False))
        refill(net, 0.5)
        ctx.require(net.output_size == a["ch"][-1], "output_size is not the number of output channels")
        steps = []
        for m in conv_models(a, nd):
            steps.append(m)
            if a["norm"]:
                steps.append(nd_norm)

        def predict(w, x):
            h, d, bad = w.chain(steps, x, np.zeros_like(x), np.zeros(len(x), bool))
            if pool:
                ax = tuple(range(2, h.ndim))
                h, d = h.mean(ax), d.mean(ax) + 8 * ref.EPS * np.abs(h).max(ax)
            else:
                h, d = h.reshape(len(h), -1), d.reshape(len(d), -1)
            return h, d, bad
        size = (13, 11)[:nd]
        for b in (1, 3):
            x = img((b, a["ch"][0]) + size, b)
            y, keep = verify(ctx, f"convolutional network {nd}d", net, x, predict, k, grads=b == 1)
            ctx.states(b)
            ctx.step(b)
            ctx.trace()
            ctx.outcome(y.tobytes())


def c18_conv1d(ctx, part):
    conv_net(ctx, 1, part)


def c18_conv2d(ctx, part):
    conv_net(ctx, 2, part)


def c18_deconv(ctx, part):
    cfgs = []
    for ch, ks in (([2, 1], [2]), ([3, 2, 1], [3, 2]), ([2, 2, 1, 3], [2, 1, 3])):
        for norm in (None, "nd"):
            for stride in (None, 1, 2, [2, 1, 2, 1]):
                for n, seg in ((3, 2), ([2, 3, 4, 2], [3, 1, 2, 2])):
                    for pad, per in ((0, None), (0, 2.0)):
                        cfgs.append(dict(types="continuous", ch=ch, ks=ks, n=n, seg=seg, norm=norm, stride=stride, pad=pad, per=per))
    for a in share(cfgs, part):
        ctx.at(config=a)
        net = construct(ctx, "HighOrderFullyDeconvolutionalNetwork", HN.HighOrderFullyDeconvolutionalNetwork, layer_type="continuous2d", n=a["n"], channels=a["ch"],
                       segments=a["seg"], kernel_size=a["ks"], periodicity=a["per"], normalization=NDNorm if a["norm"] else None, stride=a["stride"], padding=a["pad"])
        refill(net, 0.5)
        ctx.require(net.in_channels == a["ch"][0], "in_channels is not the first number of channels")
        steps = []
        for m in conv_models(a, 2, True):
            steps.append(m)
            if a["norm"]:
                steps.append(nd_norm)
        for hw in ((1, 1), (2, 3)):
            x = img((2, a["ch"][0]) + hw, 3)
            y, keep = verify(ctx, "deconvolutional network", net, x, lambda w, x: w.chain(steps, x, np.zeros_like(x), np.zeros(len(x), bool)), len(a["ch"]) - 1, grads=True)
            ctx.states(2)
            ctx.step(2)
            ctx.trace()
            ctx.outcome(y.tobytes())


def c18_tail(ctx, part):
    cfgs = []
    for t in ("continuous", "discontinuous", "polynomial", "fourier"):
        for ch, ks in (([1, 2], [2]), ([2, 3, 1], [3, 2]), ([1, 2, 2, 3], [2, 1, 3])):
            for norm in (None, "nd"):
                for stride in (None, 1, 2, [1, 2, 1][: len(ks)]):
                    for focus in (1, 2, [3, 1, 2][: len(ks)], [1, 3, 2][: len(ks)], [1, 2, 3][: len(ks)]):
                        cfgs.append(dict(types=t, ch=ch, ks=ks, n=3, seg=2, norm=norm, stride=stride, focus=focus, pad=0, per=None))
    for a in share(cfgs, part):
        ctx.at(config=a)
        k = len(a["ks"])
        net = construct(ctx, "HighOrderTailFocusNetwork", HN.HighOrderTailFocusNetwork, layer_type=a["types"] + "1d", n=a["n"], channels=a["ch"], segments=a["seg"],
                       kernel_size=a["ks"], normalization=NDNorm if a["norm"] else None, stride=a["stride"], focus=a["focus"])
        refill(net, 0.5)
        focus = lst(a["focus"], k)
        models = conv_models(a, 1)

        def predict(w, x):
            outs = [x[:, :, -focus[0]:].reshape(len(x), -1)]
            ds = [np.zeros_like(outs[0])]
            h, d, bad = x, np.zeros_like(x), np.zeros(len(x), bool)
            for i, m in enumerate(models):
                h, d, bad = w.chain([m] + ([nd_norm] if a["norm"] else []), h, d, bad)
                q = -focus[i + 1] if i + 1 < k else -h.shape[-1]
                outs.append(h[:, :, q:].reshape(len(x), -1))
                ds.append(d[:, :, q:].reshape(len(x), -1))
            return np.concatenate(outs, 1), np.concatenate(ds, 1), bad
        for width in (19, 24):
            x = img((3, a["ch"][0], width), 2)
            y, keep = verify(ctx, "tail focus network", net, x, predict, k, grads=width == 19)
            widths, sizes = ctx.impl("compute_sizes", net.compute_sizes, width)
            ctx.require(sum(sizes) == y.shape[1], f"compute_sizes announces {sum(sizes)} outputs, the network returns {y.shape[1]}")
            h = [width]
            st = [1] * k if a["stride"] is None else lst(a["stride"], k)
            for i in range(k):
                h.append((h[-1] - a["ks"][i]) // st[i] + 1)
            ctx.require(list(widths) == h, f"compute_sizes announces widths {widths}, expected {h}")
            ctx.require(list(sizes) == [a["ch"][i] * f for i, f in enumerate(focus + [h[-1]])], f"compute_sizes announces sizes {sizes}")
            ctx.states(3)
            ctx.step(3)
            ctx.trace()
            ctx.outcome(y.tobytes())


def c18_sum(ctx, part):
    cfgs = list(itertools.product(("cont", "disc", "poly"), ("cont", "poly", "disc"), (1, 2, 3), (1, 3)))
    for ka, kb, n, o in share(cfgs, part):
        A, B = FC(ka, n + 1, 2, 2, o), FC(kb, n, 3, 2, o)
        a, b = refill(A.build(), 0.7), refill(B.build(), 0.7, 0.3)
        net = ctx.impl("constructing SumLayer", HL.SumLayer, layer_list=[a, b])
        x = xin(2, 16, n)
        ctx.at(a=A.name, b=B.name)
        y = ctx.impl("SumLayer forward", net, torch.tensor(x)).detach().double().numpy()
        wa, ta, sa = A.predict(a, x)
        wb, tb, sb = B.predict(b, x)
        keep = ~(sa | sb)
        fd.slopes(ctx, "sum of two layers", net, [torch.tensor(x)])
        ctx.close("sum of two layers", y[keep], (wa + wb)[keep], (ta + tb + 4 * ref.EPS * (abs(wa) + abs(wb)))[keep])
        for layers in (1, 2, 3, 4):
            S = SwitchM(ka if ka != "poly" else "cont", n + 1, 3, 2, o, layers, 2.0)
            s = refill(ctx.impl("constructing SwitchLayer", S.build), 0.9)
            from mc.models import check
            check(ctx, "switch layer", S, s, x)
            fd.slopes(ctx, "switch layer", s, [torch.tensor(x)])
            ctx.step(len(x))
        norm = HL.SwitchLayer(layer_type="continuous", n=3, in_features=2, out_features=3, segments=2, normalization=HL.MaxAbsNormalization())
        S = SwitchM("cont", 3, 2, 2, 3)
        refill(norm, 0.9)
        w, t, s = S.predict(norm, x)
        w, t = FN["max_abs"](w, t)
        fd.slopes(ctx, "switch layer with normalization", norm, [torch.tensor(x)])
        ctx.close("switch layer with normalization", ctx.impl("forward", norm, torch.tensor(x)).detach().double().numpy(), w, t)
        ctx.states(len(x))
        ctx.step(len(x))
        ctx.trace()
        ctx.outcome(y.tobytes())


class Spy(nn.Module):
    """a normalization with state: every place of the network has one of its own"""
    made = []

    def __init__(self, channels=None):
        super().__init__()
        Spy.made.append(self)
        self.channels, self.calls, self.widths = channels, 0, set()

    def forward(self, x):
        self.calls += 1
        self.widths.add(x.shape[1])
        return x * 0.9


def zoo(S):
    """networks of every class with the normalization S: (name, make, shape, normalizations, non linearities, calls, act)"""
    cfgs = []
    mlp = dict(n=3, in_width=2, out_width=3, hidden_width=4, in_segments=2, hidden_segments=3, out_segments=2)
    for t, h, act, drop, res in itertools.product(("continuous", "discontinuous", "polynomial", "fourier", "product", "switch_continuous", "baseline"), (0, 1, 2, 3, 5), (False, True), (0.0, 0.2), (False, True)):
        if res and h < 2:
            continue
        kw = dict(layer_type=t, hidden_layers=h, dropout=drop, resnet=res, **mlp)
        cfgs.append(("mlp", lambda nl, kw=kw: HN.HighOrderMLP(normalization=S, non_linearity=nl, **kw), (2,), h + 1, h + 1, None if res else 1, act))
        if drop == 0 and not res and t in ("continuous", "polynomial"):
            cfgs.append(("low", lambda nl, h=h: HN.LowOrderMLP(in_width=2, out_width=3, hidden_layers=h, hidden_width=4, normalization=S, non_linearity=nl), (2,), h + 1, h + 1, 1, act))
            for rot in (1, 2, 3):
                k2 = dict(layer_type=t, in_width=2, hidden_width=3, out_width=2, n=3, n_in=2, n_hidden=3, n_out=4, in_segments=2, hidden_segments=3, out_segments=4, hidden_layers=h, rotations=rot)
                cfgs.append(("transform", lambda nl, k2=k2: HN.transform_mlp(normalization=S, **k2), (2,), h + 1, 0, 1, False))
                cfgs.append(("transform low", lambda nl, h=h, rot=rot: HN.transform_low_mlp(in_width=2, hidden_width=3, out_width=2, hidden_layers=h, non_linearity=nl, normalization=S, rotations=rot), (2,), h + 1, h + 1, 1, act))
        if drop == 0 and h < 3:
            for r in (1, 2, 3):
                cfgs.append(("multi", lambda nl, kw=kw, r=r: HN.HighOrderMultiMLP(normalization=S, non_linearity=nl, replicas=r, **kw), (2,), r * (h + 1) + 2, r * (h + 1) + 2, None if res else 1, act))
    for L in (1, 2, 3, 4):
        for gap in range(L + 1):
            norms = [None if j == gap else S for j in range(L)]
            cfgs.append(("list", lambda nl, L=L, norms=norms: HN.HighOrderMLPList(layer_type=["continuous"] * L, n=[2] * L, width=[2, 3, 4, 2, 3][:L + 1], segments=[2] * L, normalization=norms, non_linearity=[nl] * L),
                         (2,), sum(1 for j in range(1, L) if j != gap), L - 1, 1, True))
    for k, nd in itertools.product((1, 2, 3, 4), (1, 2)):
        ch = [2, 3, 1, 4, 2][:k + 1]
        cfgs.append((f"conv{nd}d", lambda nl, ch=ch, k=k, nd=nd: HN.HighOrderFullyConvolutionalNetwork(layer_type=f"continuous{nd}d", n=3, channels=ch, segments=2, kernel_size=[2] * k, normalization=S, pooling=f"{nd}d"),
                     (2, 7, 6)[:nd + 1], k, 0, 1, False))
        if nd == 2:
            cfgs.append(("deconv", lambda nl, ch=ch, k=k: HN.HighOrderFullyDeconvolutionalNetwork(layer_type="continuous2d", n=3, channels=ch, segments=2, kernel_size=[2] * k, normalization=S), (2, 2, 3), k, 0, 1, False))
        else:
            for f in (1, 2, [2, 1, 1, 2][:k]):
                cfgs.append(("tail", lambda nl, ch=ch, k=k, f=f: HN.HighOrderTailFocusNetwork(layer_type="continuous1d", n=3, channels=ch, segments=2, kernel_size=[2] * k, focus=f, normalization=S), (2, 9), k, 0, 1, False))
    return cfgs


def c18_state(ctx, part):
    cfgs = zoo(Spy)
    for j, (name, make, shape, norms, acts, calls, act) in enumerate(share(cfgs, part)):
        Spy.made = []
        seen = []

        class Act(nn.Module):
            def forward(self, x):
                seen.append(x.shape[1:])
                return torch.tanh(x)
        ctx.at(network=name, config=j * 4 + part)
        net = ctx.impl(f"constructing the network {name}", make, Act() if act else None)
        for mode in ("train", "eval"):
            getattr(net, mode)()
            for s in Spy.made:
                s.calls, s.widths = 0, set()
            del seen[:]
            ctx.impl("network forward", net, torch.tensor(img((3,) + shape, 1)))
            used = [s for s in Spy.made if s.calls]
            ctx.require(len(used) == norms, f"{name}: {len(used)} normalizations with their own state are used, expected {norms}")
            if calls:
                ctx.require(all(s.calls == calls for s in used), f"{name}: a normalization is applied {max(s.calls for s in used) if used else 0} times in one pass")
                ctx.require(not act or len(seen) == acts, f"{name}: the non linearity is applied {len(seen)} times, expected {acts}")
            for s in used:
                ctx.require(s.channels is None or s.widths == {s.channels}, f"{name}: a normalization for {s.channels} channels receives {s.widths}")
            ids = {id(m) for m in net.modules()}
            ctx.require(all(id(s) in ids for s in used), f"{name}: a normalization is not registered in the network")
            ctx.step()
        ctx.states(1)
        ctx.trace()
        ctx.outcome(name, j, norms)


class Half(nn.Module):
    def __init__(self, channels=None):
        super().__init__()

    def forward(self, x):
        return x * 0.5


LIFE = ("call", "mode", "nograd", "reuse", "own", "weights", "load", "step", "copy", "other", "fail", "batch")


def c18_life(ctx, part):
    """One network through a cyclic word with every ordered pair of uses; after each use it computes what a network that
    was built afresh and given the same weights computes (which the other parts compare with the composition)."""
    nets = [c for c in zoo(Half) if not (c[0] == "mlp" and not c[6])]
    todo = share(nets, part, 8)
    if not ctx.thorough:
        todo = todo[part % 3::3]
    word = [LIFE[i] for i in debruijn(len(LIFE), 2)]
    for name, make, shape, _, _, _, act in todo:
        nl = nn.Tanh() if act else None

        def fresh():
            return ctx.impl(f"constructing the network {name}", make, nl)
        net = refill(fresh(), 0.5)
        net.eval()
        buf = torch.tensor(img((3,) + shape, 0))
        done = []
        for k, op in enumerate(word):
            done.append(op)
            ctx.at(network=name, history=done[-4:], steps=k)
            x = torch.tensor(img((3,) + shape, k % 5))

            def see(x, y):
                twin = fresh()
                twin.load_state_dict(net.state_dict())
                twin.eval()
                with torch.no_grad():
                    want = twin(x.detach().clone())
                w = want.double().numpy()
                ctx.close("a network in use against a fresh one with its weights", y.detach().double().numpy(), w, 1e-4 * (1 + np.abs(w)))
                ctx.step()

            if op == "mode" and not any(isinstance(m, nn.Dropout) and m.p > 0 for m in net.modules()):
                net.train(not net.training)
            elif op == "nograd":
                with torch.no_grad():
                    see(x, ctx.impl("forward", net, x))
            elif op == "reuse":
                with torch.no_grad():
                    buf.copy_(x)
                    see(buf, ctx.impl("forward", net, buf))
            elif op == "own":
                with torch.no_grad():
                    ctx.impl("forward", net, buf).fill_(7.0)
                    see(buf, ctx.impl("forward", net, buf))
            elif op == "weights":
                refill(net, 0.5, 0.01 * k)
            elif op == "load":
                other = refill(fresh(), 0.4, 0.02 * k)
                net.load_state_dict(other.state_dict())
                refill(other, 0.9)
            elif op == "step":
                opt = torch.optim.SGD([p for p in net.parameters() if p.requires_grad], lr=1e-2)
                (ctx.impl("forward", net, x) ** 2).mean().backward()
                for p in net.parameters():
                    if p.grad is not None:
                        p.grad.clamp_(-1, 1)
                opt.step()
                opt.zero_grad()
            elif op == "copy":
                was = net
                net = copy.deepcopy(net)
                refill(was, 0.8)
            elif op == "other":
                o = refill(fresh(), 0.7, 0.3)
                ctx.impl("forward", o, x)
            elif op == "fail":
                try:
                    net(torch.zeros((2, 97) + shape[1:]))
                except Exception:
                    pass
            elif op == "batch":
                big = torch.tensor(img((7,) + shape, k % 3))
                see(big, ctx.impl("forward", net, big))
                see(big[2:3], ctx.impl("forward", net, big[2:3]))
            see(x, ctx.impl("forward", net, x))
        ctx.states(len(word))
        ctx.trace()
        ctx.outcome(name, len(word))


T = ["float32 CPU tensors", "PyTorch trusted"]
PROPS = {
    "C17": Prop("C17", c17_tasks, c17, "all vectors of length 1..4 over a 10 value alphabet (zeros, huge, tiny, equal entries), shapes up to 5 dimensions, batch sizes, every public spelling of each normalization", T),
    "C18": Prop("C18", c18_tasks, c18, "the listed grid of network configurations; every network is executed, its layers recorded in execution order, the whole composition predicted and differentiated along every tensor", T),
}
