"""Histories of calls and of what the owners of the tensors do in between.

`explore` walks every history up to a depth over the operations below on a callable (a function or a module) that has
no state of its own, and compares every call with the reference. A tensor belongs to the caller: changing an input or a
result in place, building another instance, or calling with other shapes, precisions and modes must not be seen later.
"""
import itertools

import numpy as np
import torch

OPS = ("call", "inplace", "scribble", "grad", "nograd", "double", "view", "again", "mode", "empty")


def explore(ctx, what, make, inputs, want, depth=2, ops=OPS, long=None):
    """make() -> callable; inputs: list of float32 arrays; want(x64) -> (value, tolerance)"""
    acts = [(o, i) for o in ops for i in (range(len(inputs)) if o in ("call", "inplace", "double", "view", "grad") else (0,))]

    def words():
        for d in range(1, depth + 1):
            yield from itertools.product(acts, repeat=d)

    for word in words():
        ctx.at(history=[f"{o} {i}" for o, i in word])
        f = make()
        xs = [torch.tensor(v) for v in inputs]
        held = []

        def call(x, note):
            before = x.detach().clone()
            y = ctx.impl(what, f, x)
            ctx.require(torch.equal(x.detach(), before), f"{what}: the input was modified")
            w, t = want(before.double().numpy())
            ctx.close(f"{what} ({note})", y.detach().double().numpy(), w, t)
            ctx.step()
            if y.numel() and y.data_ptr() != x.data_ptr():
                held.append((y, y.detach().clone()))
            return y

        for op, i in word + tuple(("call", j) for j in range(len(inputs))):
            x = xs[i]
            if op == "call":
                call(x, "after this history")
            elif op == "inplace":
                with torch.no_grad():
                    x.mul_(-0.5).add_(0.125)
                call(x, "input changed in place")
            elif op == "scribble":
                while held:
                    y, _ = held.pop()
                    with torch.no_grad():
                        y.detach().fill_(9.0)
            elif op == "grad":
                z = x.detach().clone().requires_grad_(True)
                y = call(z, "with gradients")
                (y * y).sum().backward()
            elif op == "nograd":
                with torch.no_grad():
                    for v in xs:
                        call(v, "without gradients")
            elif op == "double":
                call(x.double(), "double precision")
            elif op == "view":
                wide = torch.zeros(x.shape + (2,))
                wide[..., 0] = x
                call(wide[..., 0], "a view with stride")
            elif op == "again":
                f = make()
            elif op == "mode":
                for m in (f, getattr(f, "__self__", None)):
                    if isinstance(m, torch.nn.Module):
                        m.train(not m.training)
            elif op == "empty":
                try:
                    f(torch.zeros((0,) + tuple(x.shape[1:])))
                except Exception:
                    pass
        for y, was in held:
            ctx.require(torch.equal(y.detach(), was), f"{what}: a result handed out earlier changed")
        ctx.states(1)
        ctx.trace()
        ctx.outcome(was.numpy().round(4).tobytes() if held else word)
