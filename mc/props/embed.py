"""C21: rotations, mesh positions, embeddings."""
import itertools
import math

import numpy as np
import torch

from high_order_layers_torch import positional_embeddings as PE
from high_order_layers_torch.layers import fixed_rotation_layer
from high_order_layers_torch.utils import positions_from_mesh
from mc import ref
from mc.core import Prop
from mc.models import FC, FourierM, check, refill


def c21_tasks(tier):
    out = [dict(part="rotation", n=n) for n in (1, 2, 3, 4, 5)]
    out += [dict(part="mesh", w=w) for w in (2, 3, 4, 5, 8, 13)]
    out += [dict(part="sinus", dims=d) for d in ("small", "large")]
    out += [dict(part="layers", kind=k) for k in ("cont", "disc", "fourier")]
    out += [dict(part="owned", what=k) for k in ("rotation", "mesh", "sinus")]
    return out


OWNED = ("call", "scribble", "inplace", "other", "widen", "again")


def owned(task, ctx):
    """Every history of calls up to a depth: what a caller does to the tensors it owns (the inputs it
    passed, the results it received, another instance) never changes what a later call returns."""
    what = task["what"]
    if what == "rotation":
        sizes = [(n, r, m) for n in (2, 3) for r in (1, 2, 3) for m in (True, False)]
    elif what == "mesh":
        sizes = [(w, h, r, m) for w, h in ((2, 3), (3, 3), (4, 2)) for r in (1, 2) for m in (True, False)]
    else:
        sizes = [2, 4, 8, 16]
    X = {}

    def fresh(size):
        """An object with .call(x) -> list of tensors."""
        if what == "rotation":
            n, r, m = size
            layer, _ = ctx.impl("fixed_rotation_layer", fixed_rotation_layer, n, rotations=r, normalize=m)
            return layer, lambda x: [ctx.impl("forward", layer, x)]
        if what == "mesh":
            w, h, r, m = size
            return None, lambda x: ctx.impl("positions_from_mesh", positions_from_mesh, width=w, height=h, rotations=r, device="cpu", normalize=m)
        e = ctx.impl("constructing", PE.ClassicSinusoidalEmbedding, size)
        return e, lambda x: [ctx.impl("embedding", e, x)]

    def inp(size, k):
        n = size[0] if what == "rotation" else 1
        v = ref.fill((3, n), 1.0, 0.37 * k)
        return torch.tensor(v if what == "rotation" else v[:, 0])

    def expect(size, x):
        x = x.double().numpy()
        if what == "sinus":
            half = size // 2
            f = np.array([10000.0 ** (-k / max(half - 1, 1)) for k in range(half)])
            a = x[..., None] * f
            return [np.concatenate([np.sin(a), np.cos(a)], -1)]
        return None

    for size in sizes:
        # the first call of the whole history is judged by the other parts; later ones must agree with it
        _, f = fresh(size)
        with torch.no_grad():
            first = [t.double().numpy().copy() for t in f(torch.eye(size[0]) if what == "rotation" else inp(size, 0))]
        for depth in range(1, 4 if not ctx.thorough else 5):
            for hist in itertools.product(OWNED, repeat=depth):
                ctx.at(size=size, history=list(hist))
                obj, f = fresh(size)
                x = inp(size, 0)
                got, keep = None, []

                def see(got, x):
                    if what == "rotation":
                        want = [x.double().numpy() @ first[0]]
                    elif what == "mesh":
                        want = first
                    else:
                        want = expect(size, x)
                    ctx.require(len(got) == len(want), f"{len(got)} results")
                    for g, w in zip(got, want):
                        ctx.close("result after this history", g.detach().double().numpy(), w, 2e-5 * (1 + np.abs(w).max()))

                with torch.no_grad():
                    for op in hist + ("call",):
                        if op in ("call", "again"):
                            if op == "again":
                                obj, f = fresh(size)
                            got = list(f(x))
                            see(got, x)
                            keep.append((got, [g.clone() for g in got], x))
                        elif op == "scribble":
                            for g in got or ():
                                if g.is_inference() is False:
                                    g.mul_(-3.0).add_(7.0)
                            keep = [k for k in keep if k[0] is not got]
                        elif op == "inplace":
                            x.mul_(0.5).add_(0.125)
                        elif op == "other":
                            for s2 in sizes:
                                if s2 != size:
                                    o2, f2 = fresh(s2)
                                    for g in list(f2(inp(s2, 1))):
                                        g.zero_()
                        elif op == "widen" and what != "mesh":
                            o2, f2 = fresh(size)
                            o2.double()
                            for q in list(o2.parameters()) + list(o2.buffers()):
                                q.data.mul_(2.0)
                        ctx.step()
                    # results handed out earlier stay what they were
                    for g, was, _ in keep:
                        for a, b in zip(g, was):
                            ctx.require(torch.equal(a, b), "a result handed out earlier changed")
                ctx.states(1)
                ctx.trace()
        ctx.outcome(b"".join(np.round(v, 4).tobytes() for v in first))


def rotation(task, ctx):
    n = task["n"]
    for rot, norm in itertools.product(range(1, 9 if not ctx.thorough else 33), (True, False)):
        ctx.at(n=n, rotations=rot, normalize=norm)
        layer, width = ctx.impl("fixed_rotation_layer", fixed_rotation_layer, n, rotations=rot, normalize=norm)
        ctx.require(width == n + n * (n - 1) * (rot - 1), f"announced width {width}")
        rows = []
        for i in range(n):
            rows.append(np.eye(n)[i])
        for i, j in itertools.combinations(range(n), 2):
            for r in range(1, rot):
                th = math.pi / 2 * r / rot
                c, s = math.cos(th), math.sin(th)
                z = (c + s) if norm else 1.0
                a, b = np.zeros(n), np.zeros(n)
                a[i], a[j] = c / z, s / z
                b[i], b[j] = s / z, -c / z
                rows += [a, b]
        rows = np.array(rows)
        ctx.require(not any(p.requires_grad for p in layer.parameters()), "the rotation is trainable")
        # observe through forward: unit vectors give the rows
        with torch.no_grad():
            got = ctx.impl("forward", layer, torch.eye(n)).double().numpy().T
        ctx.require(got.shape == (width, n), f"output width {got.shape}")
        ctx.require(len(rows) == width, "reference width")
        left = list(range(width))
        for r in rows:
            k = [q for q in left if np.abs(got[q] - r).max() < 1e-6]
            ctx.require(k, f"no output computes the direction {r.tolist()}")
            left.remove(k[0])
        X = np.array(list(itertools.product((-1.0, -0.3, 0.0, 1.0), repeat=n)), np.float32)
        with torch.no_grad():
            y = ctx.impl("forward", layer, torch.tensor(X)).double().numpy()
        ctx.close("rotation", y, X.astype(float) @ got.T, 1e-5)
        # differentiable: the gradient is the transposed rotation, for any leading shape and memory layout
        xt = torch.tensor(X, requires_grad=True)
        c = ref.fill((len(X), width), 1.0)
        g, = torch.autograd.grad((ctx.impl("forward", layer, xt) * torch.tensor(c)).sum(), xt)
        ctx.close("derivative of the rotation", g.double().numpy(), c.astype(float) @ got, 1e-5 * width)
        z = ctx.impl("forward", layer, torch.tensor(X).reshape(2, -1, n)).detach().double().numpy()
        ctx.close("rotation of a batch of sequences", z.reshape(-1, width), y, 1e-6)
        if norm:
            ctx.require(np.abs(y).max() <= 1 + 1e-6, "normalized rotation leaves [-1, 1]")
            ctx.require(np.allclose(np.abs(y).max(0), 1, atol=1e-5), "normalized rotation does not fill [-1, 1]")
        ctx.step(len(X))
        ctx.states(len(X))
        ctx.trace()
        ctx.outcome(got.tobytes())
    for bad in (0, -1):
        ctx.rejects(f"rotations={bad}", lambda: fixed_rotation_layer(n, rotations=bad))
        ctx.step()


def mesh(task, ctx):
    w = task["w"]
    for h, rot, norm in itertools.product((2, 3, 4, 5, 7, 13), range(1, 6 if not ctx.thorough else 17), (True, False)):
        ctx.at(width=w, height=h, rotations=rot, normalize=norm)
        out = ctx.impl("positions_from_mesh", positions_from_mesh, width=w, height=h, rotations=rot, device="cpu", normalize=norm)
        ctx.require(len(out) == 2 * rot, f"{len(out)} axes instead of {2 * rot}")
        xv, yv = np.meshgrid(np.arange(w), np.arange(h), indexing="ij")
        half = 1.0 if norm else max(w, h) / 2
        for i in range(rot):
            th = math.pi / 2 * i / rot
            a = math.cos(th) * xv + math.sin(th) * yv
            b = math.cos(th) * yv - math.sin(th) * xv
            for k, v in enumerate((a, b)):
                want = ((v - v.min()) / (v.max() - v.min()) * 2 - 1) * half
                got = out[2 * i + k].double().numpy()
                ctx.require(got.shape == (w, h), f"mesh of shape {got.shape}")
                alt = [-want] if (k == 1 and i > 0) else None
                if alt is not None and np.abs(got + want).max() < np.abs(got - want).max():
                    want = -want
                ctx.close("axis of the mesh", got, want, 2e-5 * half)
        ctx.step(w * h * rot)
        ctx.states(w * h)
        ctx.trace()
        ctx.outcome(out[-1].numpy().tobytes())


def sinus(task, ctx):
    dims = range(2, 33, 2) if task["dims"] == "small" else (64, 128, 256, 512)
    for d in dims:
        e = ctx.impl("constructing", PE.ClassicSinusoidalEmbedding, d)
        half = d // 2
        f = np.array([10000.0 ** (-k / max(half - 1, 1)) for k in range(half)])
        xs = np.concatenate([np.arange(-20, 21) * 0.5, [0.0, 1e-6, 100.0, 1000.0, -37.25, 999.5]]).astype(np.float32)
        for shape in ((len(xs),), (len(xs), 1), (1, len(xs)), (2, 3), (5, 4), (4, 4), (3, 4, 2), (2, 2, 2, 3), (7, 5)):
            x = np.resize(xs, shape)
            ctx.at(dim=d, shape=list(shape))
            y = ctx.impl("embedding", e, torch.tensor(x)).double().numpy()
            a = x.astype(float)[..., None] * f
            want = np.concatenate([np.sin(a), np.cos(a)], -1)
            ctx.close("sinusoidal embedding", y, want, 1e-6 + 4 * ref.EPS * (1 + np.concatenate([np.abs(a), np.abs(a)], -1)) * 4)
            ctx.step(len(xs))
            ctx.states(len(xs))
            ctx.trace()
            ctx.outcome(y.tobytes())
        # positions are often integers; other precisions; derivative by the position
        ints = np.concatenate([np.arange(-9, 40), [100, 255, 256, 257, 1000, 4095]])
        for dt in (torch.int64, torch.int32, torch.int16, torch.float64):
            for shape in ((len(ints),), (len(ints), 1), (2, 3), (3, 4, 2)):
                x = np.resize(ints, shape)
                ctx.at(dim=d, shape=list(shape), dtype=str(dt))
                y = ctx.impl("embedding", e, torch.tensor(x).to(dt)).double().numpy()
                a = x.astype(float)[..., None] * f
                ctx.close("sinusoidal embedding", y, np.concatenate([np.sin(a), np.cos(a)], -1), 1e-6 + 4 * ref.EPS * (1 + np.concatenate([np.abs(a), np.abs(a)], -1)) * 4)
                ctx.step(x.size)
                ctx.states(x.size)
                ctx.trace()
        # positions that only double precision can hold: the first frequency is exactly one, its columns are decidable
        far = np.concatenate([s * (2.0 ** k + np.array([1.0, 3.0, 0.5, 0.25])) for k in (22, 24, 26, 30) for s in (1, -1)] + [np.array([1e8 + 0.25, 12345678.9])])
        for shape in ((len(far),), (2, 5), (3, 2, 2)):
            x = np.resize(far, shape)
            ctx.at(dim=d, shape=list(shape), dtype="torch.float64", far=True)
            y = ctx.impl("embedding", e, torch.tensor(x)).double().numpy()
            ctx.require(y.shape == shape + (d,), f"embedding of shape {y.shape}, expected {shape + (d,)}")
            ctx.close("sine of the first frequency at a double position", y[..., 0], np.sin(x), 2e-6)
            ctx.close("cosine of the first frequency at a double position", y[..., half], np.cos(x), 2e-6)
            ctx.step(x.size)
            ctx.states(x.size)
        for shape in ((7,), (2, 3)):
            x = torch.tensor(np.resize(xs[::5], shape), requires_grad=True)
            c = torch.tensor(ref.fill(shape + (d,), 1.0))
            ctx.at(dim=d, shape=list(shape), derivative=True)
            g, = torch.autograd.grad((ctx.impl("embedding", e, x) * c).sum(), x)
            a = x.detach().double().numpy()[..., None] * f
            want = (np.concatenate([f * np.cos(a), -f * np.sin(a)], -1) * c.double().numpy()).sum(-1)
            ctx.close("derivative of the sinusoidal embedding", g.double().numpy(), want, 1e-5 + 4e-6 * np.abs(a).sum(-1))
            ctx.step()
        ctx.rejects("odd dimension", lambda: PE.ClassicSinusoidalEmbedding(d + 1))
        ctx.step()


def layers(task, ctx):
    k = task["kind"]
    for n, segs, i, o, length, per in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2), (1, 3), (2.0, 4.0, 1.0), (None, 2.0)):
        if k == "fourier":
            if segs > 1 or per:
                continue
            M = FourierM(n, i, o, length)
            m = ctx.impl("embedding", PE.FourierSeriesEmbedding, n=n, in_features=i, out_features=o, length=length)
        elif k == "cont":
            M = FC("cont", n, segs, i, o, length, per)
            m = ctx.impl("embedding", PE.PiecewisePolynomialEmbedding, n=n, in_features=i, out_features=o, segments=segs, length=length, periodicity=per)
        else:
            M = FC("disc", n, segs, i, o, length, per)
            m = ctx.impl("embedding", PE.PiecewiseDiscontinuousPolynomialEmbedding, n=n, in_features=i, out_features=o, segments=segs, length=length, periodicity=per)
        ctx.at(embedding=M.name)
        refill(m, 0.9)
        x = M.x(40, n)
        y, _ = check(ctx, "embedding", M, m, x)
        ctx.step(40)
        ctx.states(40)
        ctx.trace()
        ctx.outcome(np.round(y, 4).tobytes())
        if k != "fourier":
            for mag in (0.1, 3.0):
                f = PE.PiecewisePolynomialEmbedding if k == "cont" else PE.PiecewiseDiscontinuousPolynomialEmbedding
                q = ctx.impl("embedding", f, n=n, in_features=i, out_features=o, segments=segs, weight_magnitude=mag, length=length, periodicity=per)
                top = max(float(w.detach().abs().max()) for w in [q.w] + [f(n=n, in_features=i, out_features=o, segments=segs, weight_magnitude=mag, length=length, periodicity=per).w for _ in range(8)])
                ctx.require(top <= mag / i * (1 + 1e-6), "weight_magnitude does not limit the initial weights")
                ctx.require(top >= 0.2 * mag / i, "weight_magnitude does not scale the initial weights")
                refill(q, 0.9)
                check(ctx, "embedding with every option", M, q, x)
                ctx.step(2)


def c21(task, ctx):
    globals()[task["part"]](task, ctx)
    ctx.sample(task)


T = ["float32 CPU tensors", "meshes have at least two points in each direction"]
PROPS = {"C21": Prop("C21", c21_tasks, c21, "all numbers of inputs, rotations, mesh sizes and dimensions in the stated ranges", T)}
