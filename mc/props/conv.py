"""C14 convolutions and C15 transposed convolutions."""
import itertools

import numpy as np
import torch

from mc import ref, twin
from mc.core import Prop
from mc.models import ConvM, check, refill
from mc.props import ladder

CACHE = {}


def img(shape, span, which=0):
    k = int(np.prod(shape))
    v = np.mod((np.arange(k) + 1 + 29 * which) * 0.7548776662466927 + 0.13 * which, 1.0) * 2 - 1
    return (v.reshape(shape) * span).astype(np.float32)


def shapes(tier, transpose):
    """geometry: (c, o, k, stride, padding, dilation, groups, mode, output_padding)"""
    out = []
    q = tier == "quick"
    for c, o, k in itertools.product((1, 2, 3), (1, 2, 4), (1, 2, 3)):
        for s, p, d in itertools.product((1, 2, 3), (0, 1, 2), (1, 2)):
            if q and (c + o + k + s + p + d) % 3:
                continue
            if transpose:
                for op in range(0, max(s, d) if not q else min(2, max(s, d))):
                    if op < max(s, d):
                        out.append((c, o, k, s, p, d, 1, "zeros", op))
            else:
                out.append((c, o, k, s, p, d, 1, "zeros", 0))
                if p and k <= 2 and not d > 1:
                    out += [(c, o, k, s, p, d, 1, m, 0) for m in ("reflect", "replicate", "circular")]
    if not transpose:
        for g, c, o in ((2, 2, 2), (2, 4, 2), (3, 3, 6), (2, 2, 4)):
            out += [(c, o, 2, 1, 1, 1, g, "zeros", 0), (c, o, 3, 2, 0, 1, g, "zeros", 0)]
    return out


def c14_tasks(tier):
    out = []
    for nd in (1, 2):
        for kind in ("poly", "cont", "disc", "fourier"):
            for j in range(4):
                out.append(dict(kind=kind, nd=nd, part="geometry", j=j, cost=10))
            out.append(dict(kind=kind, nd=nd, part="basis", cost=8))
            out.append(dict(kind=kind, nd=nd, part="images", cost=8))
            out += [dict(kind=kind, nd=nd, part="ladder", ladder=p, cost=6) for p in ladder.CONV_PARTS]
    return out


def c15_tasks(tier):
    out = [dict(kind="cont", nd=2, part="geometry", j=j, transpose=True, cost=10) for j in range(8)]
    out += [dict(kind="cont", nd=2, part=p, transpose=True) for p in ("basis", "images")]
    out += [dict(kind="cont", nd=2, part="ladder", ladder=p, transpose=True) for p in ladder.CONV_PARTS if p != "groups"]
    return out


def sizes_ok(nd, size, k, p, d, mode):
    for s in size[:nd]:
        if s + 2 * p < d * (k - 1) + 1:
            return False
        if mode == "reflect" and p >= s:
            return False
        if mode == "circular" and p > s:
            return False
    return True


def out_size(size, k, s, p, d, op, transpose):
    if transpose:
        return tuple((z - 1) * s - 2 * p + d * (k - 1) + op + 1 for z in size)
    return tuple((z + 2 * p - d * (k - 1) - 1) // s + 1 for z in size)


def run(task, ctx):
    kind, nd, part = task["kind"], task["nd"], task["part"]
    tr = bool(task.get("transpose"))
    if part == "ladder":
        return ladder.conv(ctx, kind, nd, task["ladder"], tr)
    if part == "geometry":
        grid = shapes(ctx.tier, tr)
        parts = 8 if tr else 4
        for q, (c, o, k, s, p, d, g, mode, op) in enumerate(grid):
            if q % parts != task["j"]:
                continue
            for r, (n, segs, length, per, rescale) in enumerate(((3, 2, 2.0, None, False), (2, 3, 3.0, None, True), (4, 1, 2.0, 2.0, False), (1 if kind != "cont" else 2, 4, 1.0, None, False))):
                if kind == "fourier" and per is not None:
                    per = None
                if g > 1 and rescale:
                    rescale = False
                size = ((5, 4), (4, 6), (3, 3), (7, 5))[(q + r) % 4][:nd]
                if tr:
                    size = ((1, 1), (2, 3), (3, 2), (2, 2))[(q + r) % 4][:nd]
                    if min(out_size(size, k, s, p, d, op, True)) < 1:
                        continue
                elif not sizes_ok(nd, size, k, p, d, mode):
                    continue
                M = ConvM(kind, nd, n, segs, c, o, k, length, per, rescale, s, p, d, g, mode, size=size, transpose=tr, output_padding=op)
                ctx.at(layer=M.name, size=list(size))
                m = refill(ctx.impl(f"constructing {M.name}", M.build), 0.8)
                x = img((2, c) + size, M.span, q)
                y, keep = check(ctx, "convolution", M, m, x)
                ctx.require(y.shape == (2, o) + out_size(size, k, s, p, d, op, tr), f"output shape {y.shape}")
                ctx.require(keep.any(), "vacuous: no output compared")
                ctx.step(2)
                ctx.states(2)
                ctx.trace()
                ctx.outcome(np.round(y, 3).tobytes())
    elif part == "basis":
        # 1x1 kernels with identity weights expose every basis function of every channel; all half floats
        top = 7 if not ctx.thorough else 10
        for n in range(1 if kind not in ("cont",) else 2, top):
            for segs in (1, 2, 3, 5, 8) if kind in ("cont", "disc") else (1,):
                for length, per in ((2.0, None), (3.0, None), (2.0, 2.0), (0.5, None)):
                    if kind == "fourier" and per:
                        continue
                    nb = n if kind in ("poly", "fourier") else ref.num_weights(kind, n, segs)
                    M = ConvM(kind, nd, n, segs, 1, nb, 1, length, per, size=(3,) * nd, transpose=tr)
                    m = ctx.impl("constructing", M.build)
                    with torch.no_grad():
                        w = m.conv.weight
                        ctx.require(w.shape[1 if not tr else 0] == nb, f"{w.shape[1 if not tr else 0]} basis functions instead of {nb}")
                        w.copy_(torch.eye(nb).reshape((nb, nb) + (1,) * nd))
                    ctx.at(layer=M.name)
                    xs = ref.all_half(-2 * length, 2 * length)[::(37 if not ctx.thorough else 7)]
                    xs = np.unique(np.concatenate([xs, ref.special_points(max(n, 2), segs, length, outside=(1.1, 2.0)) if kind != "fourier" else xs]))
                    k = (len(xs) + 8) // 9 * 9
                    xs = np.resize(xs, k)
                    x = xs.reshape((-1, 1) + ((9,) if nd == 1 else (3, 3))).astype(np.float32)
                    y, keep = check(ctx, "basis functions of the convolution", M, m, x)
                    ctx.step(k)
                    ctx.states(k)
                    ctx.trace()
                    ctx.outcome(np.round(y[:8], 3).tobytes())
    else:
        # every image over a small alphabet: which pixel and channel meets which weight
        for (n, segs), (c, o, k) in itertools.product(((2, 2), (3, 1), (2, 3)), ((1, 2, 2), (2, 1, 2), (1, 1, 3))):
            if kind == "fourier" and n == 2:
                n = 5
            size = ((4,) if nd == 1 else (2, 2)) if k == 2 else ((4,) if nd == 1 else (3, 2))
            if k == 3 and nd == 2:
                k, size = 2, (3, 2)
            M = ConvM(kind, nd, n, segs, c, o, k, size=size, transpose=tr)
            m = refill(ctx.impl("constructing", M.build), 1.0)
            pix = c * int(np.prod(size))
            A = (-0.9, 0.1, 0.55) if pix <= 6 else (-0.6, 0.8)
            x = np.array(list(itertools.product(A, repeat=pix)), np.float32).reshape((-1, c) + size)
            ctx.at(layer=M.name, images=len(x))
            for b in range(0, len(x), 256):
                y, keep = check(ctx, "image", M, m, x[b:b + 256])
            ctx.step(len(x))
            ctx.states(len(x))
            ctx.trace()
            ctx.outcome(np.round(y, 3).tobytes())
            # batches: sample independence and batch sizes
            for b in (1, 2, 3, 17):
                check(ctx, "batch", M, m, img((b, c) + size, 1.0, b))
                ctx.step(b)
    ctx.sample(task)


T = ["float32 CPU tensors", "PyTorch's convolution is trusted (float64 convolution of reference features is the oracle)"]
PROPS = {
    "C14": Prop("C14", *twin.extend("C14", c14_tasks, run), "grid over kind, dimension, n, segments, channels, kernel, stride, padding, dilation, groups, padding mode, rescaling, length, periodicity; all half precision inputs in steps through identity kernels; all images over a small alphabet", T),
    "C15": Prop("C15", *twin.extend("C15", c15_tasks, run), "the same grid for the transposed convolution, including output padding", T),
}
