"""The derivatives that a network reports, against differences of what it computes.

A double precision copy of the network is evaluated at all points p, p +- h v, p +- h v / 4 for
every parameter and input tensor p and a fixed family of directions v (one that moves every entry,
and single entries).  Where the differences agree among each other, so that the function is smooth
there, the derivative along v that backpropagation reports must be that difference.  The single
precision network must report the same gradients, up to what rounding of its inputs can do.
"""
import contextlib
import copy

import numpy as np
import torch

H = 1e-6


@contextlib.contextmanager
def doubles():
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


def wave(shape, k=0):
    n = int(np.prod(shape)) if len(shape) else 1
    v = np.mod(np.sin((np.arange(n) + 1.0 + 131 * k) * 12.9898) * 43758.5453, 1.0)
    return np.where(v < 0.5, -0.4 - v, 0.2 + v).reshape(shape)


def directions(shape, entries):
    n = int(np.prod(shape)) if len(shape) else 1
    out = [wave(shape)]
    if n > 1:
        for j in sorted({int(round(q)) for q in np.linspace(0, n - 1, entries)} if entries > 1 else []):
            e = np.zeros(n)
            e[j] = 1.0
            out.append(e.reshape(shape))
    return out


def scalar(y):
    ys = y if isinstance(y, (tuple, list)) else [y]
    return sum((v * torch.as_tensor(wave(tuple(v.shape), 3 + i), dtype=v.dtype)).sum() for i, v in enumerate(ys) if torch.is_tensor(v) and v.is_floating_point())


def tensors(net, inputs):
    return [(n, p) for n, p in net.named_parameters() if p.requires_grad] + [(f"input {i}", x) for i, x in enumerate(inputs) if torch.is_tensor(x) and x.requires_grad]


def gradients(net, inputs, forward, seed):
    torch.manual_seed(seed)
    ts = tensors(net, inputs)
    L = scalar(forward(net, *inputs))
    g = torch.autograd.grad(L, [t for _, t in ts], allow_unused=True) if L.requires_grad else [None] * len(ts)
    return L, [(n, t, torch.zeros_like(t) if v is None else v) for (n, t), v in zip(ts, g)]


def prepare(inputs, dtype):
    return [x.detach().clone().to(dtype).requires_grad_(True) if torch.is_tensor(x) and x.is_floating_point() else x for x in inputs]


def slopes(ctx, what, net, inputs, forward=None, entries=None, seed=0, single=True):
    """-> number of derivatives compared"""
    entries = entries or (2 if ctx.tier == "quick" else 8)
    forward = forward or (lambda m, *a: m(*a))
    keep_mode = net.training
    compared = 0
    torch.manual_seed(seed)
    forward(net, *prepare(inputs, torch.float32))  # whatever is created lazily belongs to the network as it is used
    with doubles():
        big = copy.deepcopy(net).double()
        big.train(keep_mode)
        xs = prepare(inputs, torch.float64)
        try:
            L, grads = gradients(big, xs, forward, seed)
        except RuntimeError as e:
            if "dtype" in str(e) or "type" in str(e) and "ouble" in str(e):
                return -1  # no double precision version: not promised
            ctx.fail(f"{what}: differentiating the network raises {type(e).__name__}: {e}")

        def value():
            torch.manual_seed(seed)
            with torch.no_grad():
                return float(scalar(forward(big, *xs)))
        base = float(L)
        top = max([float(g.abs().max()) for _, _, g in grads if g.numel()] or [0.0])
        for name, t, g in grads:
            size = float(g.abs().max()) if g.numel() else 0.0
            for v in directions(tuple(t.shape), entries):
                vt = torch.as_tensor(v, dtype=t.dtype)
                orig = t.detach().clone()

                def at(h):
                    with torch.no_grad():
                        t.copy_(orig + h * vt)
                    try:
                        return value()
                    finally:
                        with torch.no_grad():
                            t.copy_(orig)
                step = H * max(1.0, float(orig.abs().max()) if orig.numel() else 1.0)
                up, down, up4, down4 = at(step), at(-step), at(step / 4), at(-step / 4)
                fwd, bwd = (up - base) / step, (base - down) / step
                mid, mid4 = (up - down) / (2 * step), (up4 - down4) / (step / 2)
                rounding = 4e-15 * (abs(base) + abs(up) + abs(down)) / step * 4
                sc = abs(mid) + abs(mid4)
                slack = 2e-4 * sc + rounding
                ctx.step(5)
                if not np.isfinite([up, down, up4, down4, base]).all() or abs(mid - mid4) > slack or abs(fwd - bwd) > 2e-3 * sc + 2 * rounding + 1e-9 or rounding > 0.05 * (top + 1e-30):
                    continue  # a kink, a jump or too much rounding: not decided
                got = float((g * vt).sum())
                compared += 1
                lim = 1e-3 * sc + 4 * rounding + 1e-7 * (size + top)
                if not abs(got - mid) <= lim:
                    ctx.fail(f"{what}: the derivative by {name} that backpropagation reports is {got}, the function changes by {mid} (tolerance {lim})", tensor=name)
        if single:
            noisy = []
            for k, e in enumerate((2e-6, -1e-5, 4e-5)):
                other = copy.deepcopy(big)
                with torch.no_grad():
                    for p in other.parameters():
                        p.add_(torch.as_tensor(wave(tuple(p.shape), k)) * e * max(float(p.abs().max()), 1e-3) if p.numel() else 0.0)
                ys = prepare([x.detach() + torch.as_tensor(wave(tuple(x.shape), k + 1)) * e if torch.is_tensor(x) and x.is_floating_point() else x for x in xs], torch.float64)
                noisy.append([g for _, _, g in gradients(other, ys, forward, seed)[1]])
    if single:
        L32, g32 = gradients(net, prepare(inputs, torch.float32), forward, seed)
        if abs(float(L32) - base) > 1e-4 * abs(base) + 1e-6:
            g32 = []  # an ill conditioned network
        for j, ((name, t, g), (_, _, s)) in enumerate(zip(grads, g32)):
            if not g.numel():
                continue
            spread = max(float((n[j] - g).abs().max()) for n in noisy)
            size = float(g.abs().max())
            if spread > 0.02 * size + 1e-6:
                continue  # rounding decides on which side of a kink or jump the network is
            ctx.close(f"{what}: gradient by {name} in single precision", s.double().numpy(), g.numpy(), 16 * spread + 2e-3 * size + 1e-3 * top + 1e-5)
            compared += 1
    ctx.outcome(compared)
    return compared
