"""Reference composition of networks out of layer models."""
import contextlib

import numpy as np
import torch
import torch.nn as nn

from high_order_layers_torch import layers as HL
from mc import fd, ref
from mc.models import FC, ConvM, FourierM, ProductM, SwitchM, refill, state

LAYER = (HL.SwitchLayer, HL.Function, HL.Piecewise, HL.PiecewiseDiscontinuous, HL.PiecewiseND, HL.Product, nn.Linear,
         HL.FourierConvolution, HL.PolynomialConvolution, HL.PiecewisePolynomialConvolution,
         HL.PiecewiseDiscontinuousPolynomialConvolution, HL.PiecewisePolynomialConvolutionTranspose)


@contextlib.contextmanager
def recording(net, log):
    """log the top level layer modules in the order in which they are executed"""
    depth = [0]
    hs = []

    def pre(m, a):
        if depth[0] == 0:
            log.append(m)
        depth[0] += 1

    def post(m, a, o):
        depth[0] -= 1

    for m in net.modules():
        if isinstance(m, LAYER):
            hs.append(m.register_forward_pre_hook(pre))
            hs.append(m.register_forward_hook(post))
    try:
        yield
    finally:
        for h in hs:
            h.remove()


def static_order(net):
    out = []
    inner = set()
    for m in (net.model if hasattr(net, "model") else net).modules():
        if id(m) in inner:
            continue
        if isinstance(m, LAYER):
            out.append(m)
            inner |= {id(q) for q in m.modules()}
    return out


class LinearM:
    """standard linear layer, optionally followed by relu"""

    def __init__(self, i, o, bias=True, relu=False):
        self.name = f"linear({i}->{o})"
        self.xshape = (i,)
        self.relu = relu

    def predict(self, m, x, dx=0.0):
        s = state(m)
        W = s["weight"]
        b = s.get("bias", 0.0)
        x = np.asarray(x, np.float64)
        want = x @ W.T + b
        tol = np.broadcast_to(dx, x.shape) @ np.abs(W).T + (1 + x.shape[1] / 16) * ref.C * ref.EPS * (np.abs(x) @ np.abs(W).T + np.abs(b)) + 1e-30
        if self.relu:
            want = np.maximum(want, 0)
        return want, tol, np.zeros(want.shape, bool)


# pure functions: f(h, dh) -> h, dh
def max_abs(h, d, dims=(1,), eps=1e-6):
    m = np.abs(h).max(axis=dims, keepdims=True)
    dm = d.max(axis=dims, keepdims=True)
    y = h / (m + eps)
    return y, (d + np.abs(y) * dm) / (m - np.minimum(dm, 0.5 * m) + eps) + 4 * ref.EPS * np.abs(y)


def max_center(h, d, eps=1e-6):
    mx, mn = h.max(1, keepdims=True), h.min(1, keepdims=True)
    mid = 0.5 * (mx + mn)
    mag = mx - mid
    dm = d.max(1, keepdims=True)
    y = (h - mid) / (mag + eps)
    big = np.abs(h).max(1, keepdims=True)
    e = d + dm + 4 * ref.EPS * big
    den = np.maximum(mag + eps - 2 * dm - 4 * ref.EPS * big, 0.3 * (mag + eps))
    return y, e * (1 + np.abs(y)) / den + 4 * ref.EPS * np.abs(y)


def l2(h, d, eps=1e-6):
    m = np.sqrt((h ** 2).sum(1, keepdims=True))
    dm = np.sqrt((d ** 2).sum(1, keepdims=True))
    y = h / (m + eps)
    return y, (d + np.abs(y) * dm) / np.maximum(m - dm + eps, 0.3 * (m + eps)) + 8 * ref.EPS * np.abs(y)


def relu(h, d):
    return np.maximum(h, 0), np.where(h < -d, 0.0, d)  # exactly zero when surely negative


def tanh(h, d):
    return np.tanh(h), d + 4 * ref.EPS


def layer_norm(h, d):
    mu = h.mean(-1, keepdims=True)
    v = ((h - mu) ** 2).mean(-1, keepdims=True)
    y = (h - mu) / np.sqrt(v + 1e-5)
    return y, 4 * (d.max(-1, keepdims=True) + 4 * ref.EPS * np.abs(h).max(-1, keepdims=True)) / np.sqrt(v + 1e-5)


FN = dict(max_abs=max_abs, max_center=max_center, l2=l2, relu=relu, tanh=tanh, layer_norm=layer_norm)


def any_rows(skip):
    return skip.reshape(skip.shape[0], -1).any(1)


class Walk:
    """evaluates the documented composition step by step, taking the modules of the layer steps
    from a list.  A layer step executes the real layer on its own (in the first walk its output
    is compared with the reference model, which also decides that it is the layer that the
    configuration asks for).  noise > 0 perturbs every layer output, to measure how strongly
    legitimate rounding differences may show in the result."""

    def __init__(self, mods, ctx=None, noise=0.0, which=0):
        self.mods = list(mods)
        self.used = []
        self.ctx, self.noise, self.which = ctx, noise, which

    def layer(self, model, h, d):
        if len(self.used) >= len(self.mods):
            raise IndexError("fewer layers than expected")
        m = self.mods[len(self.used)]
        self.used.append(m)
        h32 = np.ascontiguousarray(h, dtype=np.float32)
        with torch.no_grad():
            y = m(torch.as_tensor(h32.copy())).detach().double().numpy()
        if self.ctx is not None:
            want, tol, skip = model.predict(m, h32, 0.0)
            if y.shape != want.shape:
                raise ValueError(f"{model.name} gives {y.shape} instead of {want.shape}")
            keep = ~np.broadcast_to(skip, want.shape)
            pre = getattr(model, "relu", False)
            self.ctx.close("layer of the network", np.maximum(y, 0)[keep] if pre else y[keep], want[keep], tol[keep], layer=model.name)
            if pre:
                y = np.maximum(y, 0)
        elif getattr(model, "relu", False):
            y = np.maximum(y, 0)
        if self.noise:
            k = len(self.used) * 7 + self.which
            sign = np.where(np.mod((np.arange(y.size) + 1) * 0.6180339887 * (1 + k % 5) + 0.37 * k, 1.0) < 0.5, -1.0, 1.0).reshape(y.shape)
            if self.which == 0:
                sign = np.ones_like(y)
            big = np.abs(y).reshape(y.shape[0], -1).max(1).reshape((-1,) + (1,) * (y.ndim - 1)) if y.size else 0.0
            y = y + self.noise * sign * big * (y != 0)
        return y, np.zeros_like(y), np.zeros(y.shape[0], bool)

    def chain(self, steps, h, d, bad):
        for s in steps:
            if isinstance(s, str):
                h, d = FN[s](h, d)
            elif isinstance(s, tuple) and s[0] == "res":
                a, ta, sk = self.layer(s[1], h, d)
                h, d, bad = a + h, np.zeros_like(h), bad | sk
            elif hasattr(s, "predict"):
                h, d, sk = self.layer(s, h, d)
                bad = bad | sk
            else:
                h, d = s(h, d)
        return h, d, bad


NOISE = 2e-6
MARGIN = 8.0


def observe(ctx, net, x):
    log = []
    xt = torch.as_tensor(np.ascontiguousarray(x, dtype=np.float32))
    keep = xt.clone()
    with recording(net, log):
        y = ctx.impl("network forward", net, xt)
    ctx.same("the input of the network was modified", xt, keep)
    return y.detach().double().numpy(), log


def verify(ctx, what, net, x, predict, layers, static=None, grads=False):
    """predict(walk, x) -> value, _, _.  layers: number of distinct layers executed."""
    y, log = observe(ctx, net, x)
    order = log
    if len(log) != layers:
        order = static(net) if static else static_order(net)
    ctx.require(len(order) == layers, f"{what}: network executes {len(log)} layers, expected {layers}")
    ctx.require(len({id(m) for m in order}) == layers, f"{what}: layers are shared, expected {layers} distinct layers")
    xd = np.asarray(x, np.float64)
    try:
        want, _, _ = predict(Walk(order, ctx), xd)
        noisy = [predict(Walk(order, None, e, k), xd)[0] for k in range(5) for e in (NOISE, -NOISE)]
    except (IndexError, ValueError, KeyError, RuntimeError) as e:
        ctx.fail(f"{what}: the layers do not fit the configuration: {type(e).__name__}: {e}")
    if y.shape != want.shape:
        ctx.fail(f"{what}: output shape {y.shape}, expected {want.shape}")
    if not len(y):
        return y, np.ones(0, bool)
    dev = np.max([np.abs(v - want) for v in noisy], 0).reshape(len(y), -1).max(1)
    big = np.abs(want).reshape(len(y), -1).max(1)
    keep = dev * MARGIN <= 0.05 * big + 1e-6  # rows that rounding does not decide
    tol = (dev * MARGIN + 1e-5 * big + 1e-6).reshape((-1,) + (1,) * (want.ndim - 1))
    tol = np.broadcast_to(tol, want.shape)
    ctx.close(what, y[keep], want[keep], tol[keep])
    if grads:
        fd.slopes(ctx, what, net, [torch.as_tensor(np.ascontiguousarray(x, dtype=np.float32))])
    return y, keep
