"""C05 (purity over histories) and C19 (parameters, state dict)."""
import copy
import io
import itertools
import pickle

import numpy as np
import torch

from mc import ref
from mc.core import Prop, Violation
from mc.models import FC, ConvM, FourierM, NDM, ProductM, SwitchM, check, refill
from mc.props import conc


def subjects():
    """pairs (A, B): same constructor, different configuration, so shared caches collide"""
    s = {}
    for kind in ("poly", "cont", "disc"):
        for prod in (False, True):
            k = kind + ("_prod" if prod else "")
            s[k] = (FC(kind, 3, 2, 2, 2, prod=prod), FC(kind, 3, 2, 2, 2, length=3.0, prod=prod))
            s[k + "/segments"] = (FC(kind, 3, 3, 2, 3, prod=prod), FC(kind, 3, 5, 2, 3, prod=prod))
            s[k + "/n"] = (FC(kind, 2, 4, 3, 2, prod=prod), FC(kind, 4, 4, 3, 2, prod=prod))
            s[k + "/periodic"] = (FC(kind, 3, 2, 2, 2, per=2.0, prod=prod), FC(kind, 3, 2, 2, 2, per=1.0, prod=prod))
    s["product"] = (ProductM(3, 2), ProductM(3, 2, alpha=0.5))
    s["product/periodic"] = (ProductM(3, 2, per=2.0), ProductM(3, 2, per=1.0, bias=False))
    s["fourier"] = (FourierM(4, 2, 2), FourierM(4, 2, 2, length=1.0))
    s["fourier/n"] = (FourierM(3, 2, 2), FourierM(5, 2, 2))
    s["switch_cont"] = (SwitchM("cont", 3, 2, 2, 2), SwitchM("cont", 3, 3, 2, 2, layers=3))
    s["switch_disc"] = (SwitchM("disc", 3, 2, 2, 2), SwitchM("disc", 2, 4, 2, 2))
    s["nd"] = (NDM("poly", (2, 3), None, 2, 2), NDM("poly", (2, 3), None, 2, 2, length=1.0))
    s["pwnd"] = (NDM("pw", (2, 3), (2, 3), 2, 2), NDM("pw", (2, 3), (3, 2), 2, 2))
    for kind in ("poly", "cont", "disc", "fourier"):
        for nd in (1, 2):
            s[f"conv{nd}d/{kind}"] = (ConvM(kind, nd, 3, 2, 2, 2, 2, size=(5, 4)[:nd]), ConvM(kind, nd, 3, 2, 2, 2, 2, length=3.0, size=(5, 4)[:nd]))
        if kind in ("cont", "disc"):
            s[f"conv2d/{kind}/segments"] = (ConvM(kind, 2, 2, 3, 1, 2, 2, size=(4, 4)), ConvM(kind, 2, 2, 4, 1, 2, 2, size=(4, 4), per=2.0))
    s["transpose"] = (ConvM("cont", 2, 3, 2, 2, 2, 2, size=(3, 3), transpose=True), ConvM("cont", 2, 3, 2, 2, 2, 2, length=3.0, size=(3, 3), transpose=True))
    return s


OPS = ["fwd2", "fwd5", "rows", "noncontig", "buffer", "step", "assign", "load", "deepcopy", "pickle", "mode", "fwdB", "stepB", "newB", "nogbuf", "infer", "data", "replace", "funcall"]


CORE = ["fwd2", "buffer", "nogbuf", "step", "assign", "data", "deepcopy", "load", "mode", "fwdB", "stepB", "newB"]
SHORT = ["fwd2", "fwd5", "buffer", "step", "assign", "deepcopy", "fwdB", "stepB", "nogbuf", "data"]
SETS = dict(all=OPS, core=CORE, short=SHORT)


def c05_tasks(tier):
    out = []
    for name in subjects():
        if tier == "thorough":
            out += [dict(subject=name, depth=3, ops="all", first=first, cost=4) for first in OPS]
            out += [dict(subject=name, depth=4, ops="short", first=first, cost=10) for first in SHORT]
        else:
            out.append(dict(subject=name, depth=2, ops="all", cost=3))
            out.append(dict(subject=name, depth=3, ops="short" if "/" in name else "core", cost=8))
        out.append(dict(subject=name, rows=1, cost=3))
        out.append(dict(subject=name, many=1, cost=3))
    for name in crowds():
        out.append(dict(crowd=name, cost=2))
    return out + conc.tasks(tier)


class World:
    def __init__(self, ctx, A, B):
        self.ctx, self.A, self.B = ctx, A, B
        self.a = refill(ctx.impl("constructing", A.build), 0.8)
        self.b = refill(ctx.impl("constructing", B.build), 0.8, 0.3)
        self.buf = torch.tensor(A.x(3, 5))
        self.k = 0

    def sgd(self, model, m, x):
        ctx = self.ctx
        m.zero_grad(set_to_none=True)
        y = ctx.impl("forward", m, torch.tensor(x))
        check(ctx, "training forward", model, m, x, y=y)
        before = {k: v.detach().clone() for k, v in m.named_parameters()}
        ctx.impl("backward", (y * y).mean().backward)
        moved = False
        with torch.no_grad():
            for k, p in m.named_parameters():
                if p.grad is None:
                    continue
                ctx.require(bool(torch.isfinite(p.grad).all()), f"gradient of {k} is not finite")
                ctx.same(f"backward changed parameter {k}", p.detach(), before[k])
                p -= 0.05 * p.grad
                moved |= bool((p.grad != 0).any())
        ctx.require(moved, "no parameter received a gradient")

    def do(self, op):
        ctx, A, B = self.ctx, self.A, self.B
        self.k += 1  # fresh data for every operation
        if op == "fwd2":
            check(ctx, "forward", A, self.a, A.x(2, self.k))
        elif op == "fwd5":
            check(ctx, "forward", A, self.a, A.x(5, 2 + self.k))
        elif op == "infer":
            was = self.a.training
            self.a.eval()
            with torch.inference_mode():
                check(ctx, "forward in inference mode", A, self.a, A.x(2, 3 + self.k))
            self.a.train(was)
        elif op == "nogbuf":
            with torch.no_grad():
                self.buf.copy_(torch.tensor(A.x(3, 16 + self.k)))
                keep = self.buf.clone()
                y = ctx.impl("forward without gradients", self.a, self.buf)
            check(ctx, "forward of a reused input tensor without gradients", A, self.a, keep.numpy(), y=y)
            ctx.same("the input was modified", self.buf, keep)
        elif op == "rows":
            # same rows, other order and another batch size
            x = A.x(5, 2 + self.k)[[3, 0, 0]]
            check(ctx, "forward of permuted rows", A, self.a, x)
        elif op == "noncontig":
            x = torch.tensor(A.x(4, 4 + self.k))
            xt = x.transpose(0, -1).contiguous().transpose(0, -1)
            y = ctx.impl("forward of a non contiguous input", self.a, xt)
            check(ctx, "forward of a non contiguous input", A, self.a, x.numpy(), y=y)
            ctx.same("the input was modified", xt, x)
        elif op == "buffer":
            # the caller reuses one input tensor
            with torch.no_grad():
                self.buf.copy_(torch.tensor(A.x(3, 6 + self.k)))
            keep = self.buf.clone()
            y = ctx.impl("forward", self.a, self.buf)
            check(ctx, "forward of a reused input tensor", A, self.a, keep.numpy(), y=y)
            ctx.same("the input was modified", self.buf, keep)
        elif op == "step":
            self.sgd(A, self.a, A.x(3, 7 + self.k))
        elif op == "assign":
            refill(self.a, 0.6, 0.41)
        elif op == "load":
            other = refill(ctx.impl("constructing", A.build), 0.7, 0.77)
            ctx.impl("load_state_dict", self.a.load_state_dict, other.state_dict())
        elif op == "deepcopy":
            old = self.a
            self.a = ctx.impl("deepcopy", copy.deepcopy, self.a)
            with torch.no_grad():  # the copy must not depend on the original any more
                for p in old.parameters():
                    p.fill_(9.0)
        elif op == "pickle":
            f = io.BytesIO()
            ctx.impl("saving", torch.save, self.a, f)
            f.seek(0)
            self.a = ctx.impl("loading", torch.load, f, weights_only=False)
        elif op == "data":
            # changing the values behind autograd's back
            for p in self.a.parameters():
                p.data.mul_(-0.5).add_(0.03)
        elif op == "replace":
            for mod in self.a.modules():
                for k, p in list(mod._parameters.items()):
                    if p is not None:
                        setattr(mod, k, torch.nn.Parameter(p.detach() * 0.7 - 0.05))
        elif op == "funcall":
            other = {k: (p.detach() * -0.8 + 0.02) for k, p in self.a.named_parameters()}
            x = A.x(3, 21 + self.k)
            y = ctx.impl("functional call", torch.func.functional_call, self.a, other, (torch.tensor(x),))
            twin = copy.deepcopy(self.a)
            with torch.no_grad():
                for k, p in twin.named_parameters():
                    p.copy_(other[k])
            check(ctx, "functional call with other weights", A, twin, x, y=y)
        elif op == "mode":
            self.a.train(not self.a.training)
        elif op == "fwdB":
            check(ctx, "forward of the other layer", B, self.b, B.x(2, 1))
        elif op == "stepB":
            self.sgd(B, self.b, B.x(3, 7 + self.k))
        elif op == "newB":
            self.b = refill(ctx.impl("constructing", B.build), 0.5, 0.2)
        else:
            raise KeyError(op)


LEN = (2.0, 2.1, 2.4, 2.5, 1.0, 1.5, 3.0, 4.0, 0.5, 2, 4)


def crowds():
    """many configurations of the same kind of layer, alive at the same time"""
    out = {}
    for kind in ("poly", "cont", "disc"):
        for prod in (False, True):
            k = kind + ("_prod" if prod else "")
            out[k + " lengths"] = [FC(kind, n, 2, 2, 2, length=L, prod=prod) for n in (2, 3, 4, 7) for L in LEN]
            out[k + " sizes"] = [FC(kind, n, s, i, o, prod=prod) for n in (2, 3, 5) for s in (1, 2, 4, 5) for i, o in ((1, 2), (2, 1), (3, 4), (4, 3))]
            out[k + " periods"] = [FC(kind, 3, 2, 2, 2, length=L, per=p, prod=prod) for p in (None, 2.0, 1.0, 2.4, 3.0, 0.5) for L in (2.0, 3.0)]
    out["product"] = [ProductM(i, o, bias, alpha, per) for i, o in ((2, 3), (3, 2)) for bias in (True, False) for alpha in (1.0, 0.5) for per in (None, 2.0, 1.0)]
    out["fourier"] = [FourierM(n, 2, 2, L) for n in (1, 3, 4, 5, 6) for L in LEN]
    out["nd"] = [NDM("poly", ns, None, 2, 2, L) for ns in ((2, 3), (3, 2), (2, 2), (4, 2), (2, 3, 2)) for L in LEN]
    out["pwnd"] = [NDM("pw", ns, sg, 2, 2, L) for ns, sg in (((2, 3), (2, 3)), ((2, 3), (3, 2)), ((3, 2), (2, 3)), ((2, 2), (4, 1))) for L in LEN]
    out["switch"] = [SwitchM(kind, n, s, 2, 2, layers, sc) for kind in ("cont", "disc") for n, s in ((2, 3), (3, 2)) for layers in (1, 2, 3) for sc in (2.0, 2.4, 1.0)]
    for nd in (1, 2):
        for kind in ("poly", "cont", "disc", "fourier"):
            out[f"conv{nd}d {kind}"] = [ConvM(kind, nd, n, s, 1, 2, 2, length=L, size=(4, 3)[:nd], padding=p) for n, s in ((2, 3), (3, 2), (4, 2)) for L in (2.0, 2.4, 1.0, 3.0) for p in (0, 1)]
    out["transpose"] = [ConvM("cont", 2, n, s, 1, 2, 2, length=L, size=(3, 2), stride=p, transpose=True) for n, s in ((2, 3), (3, 2), (4, 2)) for L in (2.0, 2.4, 1.0, 3.0) for p in (1, 2)]
    return out


def crowd(task, ctx):
    ms = crowds()[task["crowd"]]
    orders = [list(range(len(ms))), list(range(len(ms)))[::-1], sorted(range(len(ms)), key=lambda j: j * 0.618033988 % 1)]
    for o, order in enumerate(orders):
        live = {}
        for j in order:
            ctx.at(order=o, building=ms[j].name)
            live[j] = refill(ctx.impl("constructing", ms[j].build), 0.7, 0.01 * j)
            check(ctx, "output of a new layer among others", ms[j], live[j], ms[j].x(3, j))
            ctx.step(2)
        for j in order[::-1] + order:
            ctx.at(order=o, using=ms[j].name)
            check(ctx, "output of a layer among others", ms[j], live[j], ms[j].x(3, j + 1))
            ctx.step()
            ctx.state(o, j)
        ctx.trace()


def c05(task, ctx):
    if task.get("crowd"):
        return crowd(task, ctx)
    if task.get("threads"):
        return conc.threads(task, ctx)
    if task.get("faults"):
        return conc.faults(task, ctx)
    A, B = subjects()[task["subject"]]
    if task.get("rows"):
        return rows(task, ctx, A)
    if task.get("many"):
        return many(task, ctx, A)
    depth = task["depth"]
    ops = SETS[task["ops"]]
    firsts = [task["first"]] if task.get("first") else ops
    for f in firsts:
        for tail in itertools.product(ops, repeat=depth - 1):
            seq = (f,) + tail
            ctx.at(subject=task["subject"], history=list(seq))
            w = World(ctx, A, B)
            for op in seq:
                w.do(op)
                ctx.step()
            # final observation of both layers, always the same inputs
            ya, _ = check(ctx, "output after the history", A, w.a, A.x(2, 1))
            yb, _ = check(ctx, "output of the other layer after the history", B, w.b, B.x(2, 1))
            ctx.state(ya.tobytes(), yb.tobytes(), w.a.training)
            ctx.outcome(ya.tobytes())
            ctx.trace()
    ctx.sample(dict(subject=task["subject"], last_history=list(seq)))


def many(task, ctx, A):
    """a long life: many calls, modes and weight changes of one layer"""
    m = refill(ctx.impl("constructing", A.build), 0.8)
    x0, x1 = A.x(2, 1), A.x(3, 2)
    N = 1050 if not ctx.thorough else 5000
    first = None
    for k in range(N):
        ctx.at(subject=task["subject"], call=k)
        m.train(k % 3 != 0)
        with torch.set_grad_enabled(k % 2 == 0):
            y = ctx.impl("forward", m, torch.tensor(x0)).detach()
            z = ctx.impl("forward", m, torch.tensor(x1 if k % 5 else x0)).detach()
        if k == 0:
            check(ctx, "output after many calls", A, m, x0, y=y)
            first, same = y, y
            tol = 1e-6 * float(y.abs().max()) + 1e-12
        ctx.require(bool((y - first).abs().max() <= tol), f"the output changed after {k} calls")
        ctx.step(2)
    check(ctx, "output after many calls", A, m, x1)
    for k in range(60):
        ctx.at(subject=task["subject"], change=k)
        with torch.no_grad():
            for p in m.parameters():
                p.mul_(-0.98)
        check(ctx, "output after many changes of the weights", A, m, x1)
        ctx.step()
        ctx.state(k)
    ctx.trace()
    ctx.outcome(y.numpy().tobytes())
    ctx.sample(dict(subject=task["subject"], calls=2 * N))


def rows(task, ctx, A):
    """every row of a batch is computed on its own; every batch size; memory layouts"""
    m = refill(ctx.impl("constructing", A.build), 0.8)
    N = 1100 if ctx.thorough or "conv" not in task["subject"] and "transpose" not in task["subject"] else 300
    S = 64
    X = A.x(N, 11)
    single = []
    for r in range(S):
        ctx.at(row=r)
        g, keep = check(ctx, "single row", A, m, X[r:r + 1])
        single.append(g[0])
        ctx.step()
    single = np.stack(single)
    want, tol, skip = A.predict(m, X)
    for b in list(range(1, 66)) + [b for e in (96, 100, 128, 160, 192, 200, 256, 320, 384, 400, 500, 512, 640, 768, 800, 1000, 1024) for b in (e - 1, e, e + 1)] + [N]:
        if b > N:
            continue
        for start in sorted({0, 1, N - b}):
            if start + b > N:
                continue
            ctx.at(batch=b, start=start)
            x = torch.tensor(X[start:start + b])
            with torch.set_grad_enabled(start == 0):
                y = ctx.impl("forward", m, x).detach().double().numpy()
            ctx.require(y.shape == want[start:start + b].shape, f"output shape {y.shape} for a batch of {b}")
            k = ~skip[start:start + b]
            ctx.close("row of a batch", y[k], want[start:start + b][k], tol[start:start + b][k])
            if start + b <= S:
                ctx.close("row of a batch against the row alone", y[k], single[start:start + b][k], 2 * tol[start:start + b][k])
            ctx.step()
            ctx.trace()
            ctx.state(b, start)
    N = S
    # duplicated rows give equal results, neighbours do not matter
    for r in range(8):
        x = np.stack([X[r], X[(r + 1) % N], X[r], X[(r + 9) % N]])
        y = ctx.impl("forward", m, torch.tensor(x)).detach().double().numpy()
        if not skip[r].any():
            ctx.close("duplicated rows", y[0], y[2], 2 * tol[r])
        ctx.step()
    # views: strided, expanded, sliced batches
    x = torch.tensor(X[:12])
    views = {
        "strided batch": (x[::2], X[:12:2]),
        "sliced batch": (x[3:7], X[3:7]),
        "expanded": (x[:1].expand(5, *x.shape[1:]), np.repeat(X[:1], 5, 0)),
        "flipped": (x.flip(0), X[:12][::-1].copy()),
        "transposed": (x.transpose(0, -1).contiguous().transpose(0, -1), X[:12]),
        "channel stride": (torch.stack([x, x + 9], -1)[..., 0], X[:12]),
    }
    for name, (v, vx) in views.items():
        ctx.at(view=name)
        y = ctx.impl(f"forward ({name})", m, v)
        check(ctx, f"{name}", A, m, vx, y=y)
        ctx.step()
        ctx.trace()
    # wide value range in the same batch: a huge row does not disturb another row
    x = np.concatenate([X[:2], X[2:4] * 50, X[4:6]])
    check(ctx, "mixed magnitudes", A, m, x)
    ctx.step()
    ctx.outcome(single.tobytes())
    ctx.sample(dict(subject=task["subject"], batch_sizes=117))


# ---------------------------------------------------------------- C19
def fc_count(t, n, s, i, o):
    if t == "product":
        return i * o + o
    if t == "baseline":
        return i * o + o
    if t == "fourier":
        return n * i * o
    if t.startswith("switch_"):
        return 2 * fc_count(t[7:], n, s, i, o)
    kind = {"continuous": "cont", "discontinuous": "disc", "polynomial": "poly"}[t.replace("_prod", "")]
    return ref.num_weights(kind, n, s) * i * o


def mlp_count(t, n, widths, segs):
    return sum(fc_count(t, nn_, s, a, b) for nn_, s, a, b in zip(n, segs, widths[:-1], widths[1:]))


def conv_count(t, n, segs, ch, ks, nd):
    k = {"continuous": "cont", "discontinuous": "disc", "polynomial": "poly"}
    return sum((n if t == "fourier" else ref.num_weights(k[t], n, s)) * a * b * z ** nd for s, a, b, z in zip(segs, ch[:-1], ch[1:], ks))


def c19_layers():
    """name -> (model, expected number of trainable values)"""
    out = {}
    for t in ("cont", "disc", "poly"):
        T_ = {"poly": "polynomial", "cont": "continuous", "disc": "discontinuous"}[t]
        for prod in (False, True):
            for n, s, i, o in ((2, 3, 1, 1), (3, 2, 2, 3), (4, 1, 3, 2), (5, 4, 1, 2)):
                for kw in (dict(), dict(length=3.0), dict(per=2.0)):
                    if kw and n != 3:
                        continue
                    m = FC(t, n, s, i, o, prod=prod, **kw)
                    out[m.name] = (m, fc_count(T_, n, s, i, o))
    for i, o, b in ((1, 1, True), (3, 2, True), (2, 3, False)):
        m = ProductM(i, o, bias=b)
        out[m.name] = (m, i * o + (o if b else 0))
    for n, i, o in ((1, 1, 1), (4, 2, 3), (5, 3, 1)):
        m = FourierM(n, i, o)
        out[m.name] = (m, n * i * o)
    for t in ("cont", "disc"):
        for layers in (1, 2, 3):
            m = SwitchM(t, 3, 2, 2, 2, layers=layers)
            out[m.name] = (m, layers * ref.num_weights(t, 3, 2) * 4)
    for ns in ((2, 3), (3, 3, 2), (2, 2, 2, 2)):
        m = NDM("poly", ns, None, 2, 2)
        out[m.name] = (m, int(np.prod(ns)) * 4)
        sg = tuple(1 + (j + 1) % 3 for j in range(len(ns)))
        m = NDM("pw", ns, sg, 2, 2)
        out[m.name] = (m, int(np.prod([s * n for n, s in zip(ns, sg)])) * 4)
    for t in ("cont", "disc", "poly", "fourier"):
        for nd in (1, 2):
            for k, g in ((2, 1), (1, 1), (3, 2)):
                m = ConvM(t, nd, 3, 2, 2, 4, k, size=(6, 5)[:nd], groups=g)
                nb = 3 if t == "fourier" else ref.num_weights(t, 3, 2)
                out[m.name] = (m, nb * 2 * 4 * k ** nd // g)
    m = ConvM("cont", 2, 3, 2, 2, 3, 2, size=(4, 4), transpose=True)
    out[m.name] = (m, ref.num_weights("cont", 3, 2) * 2 * 3 * 4)
    return out


def warm(build, shape):
    """lazily created values exist after the first call"""
    def make():
        m = build()
        with torch.no_grad():
            m(torch.zeros((2,) + shape))
        return m
    return make


def c19_nets():
    """name -> (build, input shape, expected trainable values, expected frozen values, trainable tensors)"""
    import torch.nn as nn
    from high_order_layers_torch import layers as HL
    from high_order_layers_torch import networks as HN
    out = {}
    for t in ("continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod", "fourier", "product", "switch_continuous", "switch_discontinuous", "baseline"):
        for h in (0, 2):
            for norm in (None, HL.MaxAbsNormalization):
                kw = dict(layer_type=t, n=3, n_in=2, n_out=4, in_width=2, out_width=3, hidden_width=4, hidden_layers=h, in_segments=2, hidden_segments=3, out_segments=2, normalization=norm)
                c = mlp_count(t, [2] + [3] * h + [4], [2] + [4] * (h + 1) + [3], [2] + [3] * h + [2])
                out[f"mlp {t} hidden={h} norm={norm is not None}"] = (lambda kw=kw: HN.HighOrderMLP(**kw), (2,), c, 0)
    for t in ("continuous", "discontinuous", "polynomial"):
        kw = dict(layer_type=t, n=3, in_width=2, out_width=3, hidden_width=4, hidden_layers=3, in_segments=2, hidden_segments=3, out_segments=2, normalization=HL.MaxAbsNormalization, resnet=True)
        out[f"resnet {t}"] = (lambda kw=kw: HN.HighOrderMLP(**kw), (2,), mlp_count(t, [3] * 5, [2, 4, 4, 4, 4, 3], [2, 3, 3, 3, 2]), 0)
        for r in (1, 3):
            kw = dict(layer_type=t, n=3, in_width=2, out_width=3, hidden_width=4, hidden_layers=1, in_segments=2, hidden_segments=3, out_segments=2, replicas=r)
            c = fc_count(t, 3, 2, 2, 4) + r * 3 * fc_count(t, 3, 3, 4, 4) + fc_count(t, 3, 2, 4, 3)
            out[f"multi {t} x{r}"] = (lambda kw=kw: HN.HighOrderMultiMLP(**kw), (2,), c, 0)
        for rot in (1, 2, 3):
            kw = dict(layer_type=t, in_width=2, hidden_width=3, out_width=2, n=3, n_in=2, n_hidden=3, n_out=4, in_segments=2, hidden_segments=3, out_segments=4, hidden_layers=1, rotations=rot)
            w = 2 + 2 * (rot - 1)
            out[f"transform {t} x{rot}"] = (lambda kw=kw: HN.transform_mlp(**kw), (2,), mlp_count(t, [2, 3, 4], [w, 3, 3, 2], [2, 3, 4]), w * 2)
    for t, norm in itertools.product(("continuous", "polynomial", "fourier", "baseline"), (HL.LazyLayerNormLastDim, nn.LazyBatchNorm1d)):
        kw = dict(layer_type=t, n=3, n_in=2, n_out=4, in_width=2, out_width=3, hidden_width=4, hidden_layers=2, in_segments=2, hidden_segments=3, out_segments=2, normalization=norm)
        c = mlp_count(t, [2, 3, 3, 4], [2, 4, 4, 4, 3], [2, 3, 3, 2])
        out[f"mlp {t} {norm.__name__}"] = (warm(lambda kw=kw: HN.HighOrderMLP(**kw), (2,)), (2,), c + 3 * 8, 0)
        kw = dict(layer_type=t, n=3, in_width=2, out_width=3, hidden_width=4, hidden_layers=1, in_segments=2, hidden_segments=3, out_segments=2, replicas=2, normalization=norm)
        c = fc_count(t, 3, 2, 2, 4) + 2 * 3 * fc_count(t, 3, 3, 4, 4) + fc_count(t, 3, 2, 4, 3)
        out[f"multi {t} {norm.__name__}"] = (warm(lambda kw=kw: HN.HighOrderMultiMLP(**kw), (2,)), (2,), c + 6 * 8, 0)
    out["low layer norm"] = (warm(lambda: HN.LowOrderMLP(in_width=2, out_width=3, hidden_layers=2, hidden_width=4, non_linearity=nn.Tanh(), normalization=HL.LazyLayerNormLastDim), (2,)), (2,), 12 + 20 + 20 + 15 + 24, 0)
    for b in (True, False):
        out[f"layer norm bias={b}"] = (warm(lambda b=b: HL.LazyLayerNormLastDim(bias=b), (4,)), (4,), 8 if b else 4, 0)
        out[f"layer norm by name bias={b}"] = (warm(lambda b=b: HL.normalization_layers["layer_norm"](bias=b), (2, 3)), (2, 3), 6 if b else 3, 0)
    out["prelu"] = (lambda: HN.HighOrderMLP(layer_type="continuous", n=3, in_width=2, out_width=3, hidden_layers=2, hidden_width=4, in_segments=2, hidden_segments=3, out_segments=2, non_linearity=nn.PReLU()), (2,),
                    mlp_count("continuous", [3] * 4, [2, 4, 4, 4, 3], [2, 3, 3, 2]) + 1, 0)
    out["list"] = (lambda: HN.HighOrderMLPList(layer_type=["continuous", "polynomial", "discontinuous"], n=[3, 2, 4], width=[2, 3, 4, 2], segments=[2, 1, 3]), (2,),
                   fc_count("continuous", 3, 2, 2, 3) + fc_count("polynomial", 2, 1, 3, 4) + fc_count("discontinuous", 4, 3, 4, 2), 0)
    out["low"] = (lambda: HN.LowOrderMLP(in_width=2, out_width=3, hidden_layers=2, hidden_width=4, non_linearity=nn.Tanh()), (2,), 12 + 20 + 20 + 15, 0)
    out["transform low"] = (lambda: HN.transform_low_mlp(in_width=2, hidden_width=3, out_width=2, hidden_layers=1, non_linearity=nn.Tanh(), normalization=None, rotations=2), (2,), 15 + 12 + 8, 8)
    for t in ("continuous", "discontinuous", "polynomial", "fourier"):
        for nd in (1, 2):
            kw = dict(layer_type=f"{t}{nd}d", n=3, channels=[2, 3, 2], segments=2, kernel_size=[2, 3], pooling=f"{nd}d")
            out[f"conv{nd}d {t}"] = (lambda kw=kw: HN.HighOrderFullyConvolutionalNetwork(**kw), (2, 7, 6)[:nd + 1], conv_count(t, 3, [2, 2], [2, 3, 2], [2, 3], nd), 0)
        for norm in (None, nn.BatchNorm1d):
            kw = dict(layer_type=f"{t}1d", n=3, channels=[2, 3, 2], segments=2, kernel_size=[2, 3], focus=[2, 1], normalization=norm)
            out[f"tail {t} norm={norm is not None}"] = (lambda kw=kw: HN.HighOrderTailFocusNetwork(**kw), (2, 9), conv_count(t, 3, [2, 2], [2, 3, 2], [2, 3], 1) + (2 * (3 + 2) if norm else 0), 0)
    kw = dict(layer_type="continuous2d", n=3, channels=[2, 3, 2], segments=2, kernel_size=[2, 3])
    out["conv2d batchnorm"] = (lambda kw=kw: HN.HighOrderFullyConvolutionalNetwork(normalization=nn.BatchNorm2d, **kw), (2, 7, 6), conv_count("continuous", 3, [2, 2], [2, 3, 2], [2, 3], 2) + 10, 0)
    out["deconv2d"] = (lambda kw=kw: HN.HighOrderFullyDeconvolutionalNetwork(**kw), (2, 2, 3), conv_count("continuous", 3, [2, 2], [2, 3, 2], [2, 3], 2), 0)
    out["sum"] = (lambda: HL.SumLayer(layer_list=[FC("cont", 3, 2, 2, 3).build(), FC("disc", 2, 3, 2, 3).build()]), (2,), fc_count("continuous", 3, 2, 2, 3) + fc_count("discontinuous", 2, 3, 2, 3), 0)
    return out


C19_OPS = ["save", "load", "fresh", "sgd", "adam", "lion", "sparse", "copy", "perturb"]

C19_SHORT = ["save", "load", "fresh", "sgd", "sparse", "copy"]


def c19_tasks(tier):
    L, N = c19_layers(), c19_nets()
    out = [dict(part="layer", name=k) for k in L]
    out += [dict(part="net", name=k, cost=4) for k in N]
    out.append(dict(part="lazy"))
    out += [dict(part="shapes", subject=k, cost=6) for k in c19_shapes("quick")]
    out += [dict(part="options", type=t, cost=2) for t in C19_TYPES]
    return out


C19_TYPES = ("continuous", "continuous_prod", "discontinuous", "discontinuous_prod", "polynomial", "polynomial_prod", "fourier", "product",
             "switch_continuous", "switch_discontinuous", "continuous_nd", "polynomial_2d", "polynomial_3d", "polynomial_4d", "baseline", "baseline_relu")


def c19_options(task, ctx):
    """how the values start and other options decide their size, never which of them are trained, saved and copied"""
    import copy
    from high_order_layers_torch.layers import high_order_fc_layers
    t = task["type"]
    nd = {"continuous_nd": 2, "polynomial_2d": 2, "polynomial_3d": 3, "polynomial_4d": 4}.get(t)
    opts = [dict(initialize=v, weight_magnitude=w) for v in ("uniform", "constant_random") for w in (0.5, 1.0, 2.0)] + [dict(weight_magnitude=0.25), dict(initialize="uniform")]
    if not nd:
        opts += [dict(initialize="uniform", periodicity=2.0), dict(initialize="uniform", length=3.0)]
    for (i, o), n, s, opt in itertools.product(((1, 1), (1, 3), (2, 1), (2, 3), (3, 2)), (2, 3), (1, 2), opts):
        kw = dict(layer_type=t, n=[n] * nd if nd else n, segments=[s] * nd if nd else s, in_features=i, out_features=o)
        ctx.at(layer=kw, options=opt)
        torch.manual_seed(3)
        a = ctx.impl("constructing", high_order_fc_layers, **kw)
        torch.manual_seed(3)
        m = ctx.impl("constructing", high_order_fc_layers, **kw, **opt)

        def plan(z):
            return [(k, tuple(v.shape), v.requires_grad, v.is_leaf) for k, v in real_params(z)]
        ctx.require(plan(a) == plan(m), f"trainable values {plan(m)} with the options, {plan(a)} without")
        ctx.require(all(p[2] and p[3] for p in plan(m)), f"not everything is trainable: {plan(m)}")
        ctx.require(set(m.state_dict()) == set(a.state_dict()), "the options change what the state dict holds")
        shape = (i, nd) if nd else (i,)
        x = grid_input(shape, 6, 0.9, 3)
        before = snap(m)
        y = ctx.impl("forward", m, x)
        ctx.require(y.requires_grad, "the output is not differentiable by the values")
        ctx.impl("backward", (y * grid_input(tuple(y.shape[1:]), 6, 1.0, 4)).sum().backward)
        for k, p in real_params(m):
            ctx.require(p.grad is not None and tuple(p.grad.shape) == tuple(p.shape), f"{k} receives no gradient")
            ctx.require("relu" in t or bool((p.grad != 0).any()), f"{k} receives no gradient")
        c = copy.deepcopy(m)
        torch.manual_seed(4)
        f = ctx.impl("constructing", high_order_fc_layers, **kw, **opt)
        ctx.impl("restoring", f.load_state_dict, before)
        torch.optim.SGD([p for _, p in real_params(m)], lr=0.5).step()
        if "relu" not in t:
            for k, p in real_params(m):
                ctx.require(not torch.equal(p.detach(), before[k]), f"{k} does not change in training")
        want = [y.detach()]
        agree(ctx, "output of a copy after the original was trained", outputs(ctx, c, [x]), want)
        agree(ctx, "output after restoring a saved state", outputs(ctx, f, [x]), want)
        ctx.step(3)
        ctx.states(1)
        ctx.trace()
        ctx.outcome(t, i, o, n, s)
    ctx.sample(task)


def c19_shapes(tier):
    """subject -> list of (model, expected number of trainable values): every small configuration"""
    w = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    out = {}
    for t, T_ in (("cont", "continuous"), ("disc", "discontinuous"), ("poly", "polynomial")):
        for prod in (False, True):
            out[f"{T_} prod={prod}"] = [(FC(t, n, s, i, o, prod=prod), fc_count(T_, n, s, i, o))
                                        for n in (2, 3, 4) for s in ((1,) if t == "poly" else w) for i in w for o in w]
    out["product"] = [(ProductM(i, o, bias=b), i * o + o * b) for i in w for o in w for b in (True, False)]
    out["fourier"] = [(FourierM(n, i, o), n * i * o) for n in (1, 2, 3, 4) for i in w for o in w]
    for t in ("cont", "disc"):
        out[f"switch {t}"] = [(SwitchM(t, n, s, i, o, layers=k), k * ref.num_weights(t, n, s) * i * o) for n in (2, 3) for s in (1, 2) for i in w for o in w for k in (1, 2, 3)]
    for t in ("cont", "disc", "poly", "fourier"):
        for nd in (1, 2):
            out[f"conv{nd}d {t}"] = [(ConvM(t, nd, n, s, i, o, k, size=(4, 3)[:nd]), (n if t == "fourier" else ref.num_weights(t, n, s)) * i * o * k ** nd)
                                     for n in (2, 3) for s in ((2,) if t in ("poly", "fourier") else (1, 2)) for i in (1, 2) for o in (1, 2, 3) for k in (1, 2)]
    out["nd poly"] = [(NDM("poly", ns, None, i, o), int(np.prod(ns)) * i * o) for ns in ((2, 2), (2, 3), (3, 2), (2, 2, 2)) for i in w for o in w]
    out["nd pieces"] = [(NDM("pw", ns, sg, i, o), int(np.prod([s * n for n, s in zip(ns, sg)])) * i * o) for ns, sg in (((2,), (2,)), ((2, 2), (1, 2)), ((2, 3), (2, 2))) for i in w for o in w]
    return out


def c19_shape(task, ctx):
    """saving, restoring, copying and training for every small configuration"""
    for model, expect in c19_shapes("thorough" if ctx.thorough else "quick")[task["subject"]]:
        ctx.at(subject=model.name)

        def fresh(k=0):
            torch.manual_seed(100 + k)
            return ctx.impl("constructing", model.build)

        def fill(mm, shift=0.0):
            with torch.no_grad():
                for j, (k, p) in enumerate(real_params(mm)):
                    if p.requires_grad:
                        p.copy_(torch.tensor(ref.fill(tuple(p.shape), 0.8, shift + 0.137 * j)))
            return mm
        m = fresh()
        train = sum(p.numel() for _, p in real_params(m) if p.requires_grad)
        ctx.require(train == expect, f"{train} trainable values, expected {expect}")
        span = 0.5 * model.a[5] if isinstance(model, FC) and model.a[6] is None else model.span
        xs = [grid_input(model.xshape, 5, span, 7), grid_input(model.xshape, 1, span, 8)]
        for seq in (("save", "fresh"), ("sgd", "save", "perturb", "load"), ("copy", "sgd"), ("save", "sparse", "fresh", "copy")):
            ctx.at(subject=model.name, history=list(seq))
            c19_history(ctx, seq, fresh, fill, model.xshape, span, xs)
    ctx.sample(task)


def real_params(m):
    """trainable values; the unused scratch parameter of some layers is not part of the function"""
    return [(k, p) for k, p in m.named_parameters() if k.split(".")[-1] != "result"]


def grid_input(shape, b, span, which=0):
    v = np.random.RandomState(1000 + which).uniform(-1, 1, (b,) + tuple(shape))
    return torch.tensor((v * span).astype(np.float32))


def snap(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def outputs(ctx, m, xs):
    mode = m.training
    m.eval()
    with torch.no_grad():
        r = [ctx.impl("forward", m, x.clone()).clone() for x in xs]
    m.train(mode)
    return r


def agree(ctx, what, a, b):
    for u, v in zip(a, b):
        big = float(v.abs().max()) if v.numel() else 0.0
        ctx.close(what, u.double().numpy(), v.double().numpy(), 2e-6 * (big + 1e-3))


def c19_lazy(ctx):
    """a saved layer norm goes into a new instance, before and after its first call"""
    from high_order_layers_torch import layers as HL
    for b, called in itertools.product((True, False), repeat=2):
        x = grid_input((4,), 5, 1.0, 1)
        a = HL.LazyLayerNormLastDim(bias=b)
        a(x)
        with torch.no_grad():
            for j, p in enumerate(a.parameters()):
                p.copy_(torch.tensor(ref.fill(tuple(p.shape), 1.0, 0.3 * j)))
        c = HL.LazyLayerNormLastDim(bias=b)
        if called:
            c(x)
        ctx.at(bias=b, called=called)
        try:
            c.load_state_dict(a.state_dict())
        except RuntimeError as e:
            if called:
                ctx.fail(f"loading a saved layer norm: {e}")
            ctx.finding("lazy-layer-norm-load", "LazyLayerNormLastDim creates its parameters at the first call, an instance that was never called cannot be restored from a state dict")
            continue
        agree(ctx, "output after restoring a saved state", outputs(ctx, c, [x]), outputs(ctx, a, [x]))
        ctx.step()
        ctx.trace()
        ctx.state(b, called)
        ctx.outcome(b, called)
    ctx.sample(dict(part="lazy"))


def c19(task, ctx):
    if task["part"] == "lazy":
        return c19_lazy(ctx)
    if task["part"] == "shapes":
        return c19_shape(task, ctx)
    if task["part"] == "options":
        return c19_options(task, ctx)
    if task["part"] == "layer":
        model, expect = c19_layers()[task["name"]]
        build, shape, frozen, span = model.build, model.xshape, 0, model.span
        if isinstance(model, FC) and model.a[6] is None:
            span = 0.5 * model.a[5]
        big = 256 if len(shape) < 2 else 1024
    else:
        build, shape, expect, frozen = c19_nets()[task["name"]]
        model, span, big = None, 1.0, 48
    ctx.at(subject=task["name"])

    def fresh(k=0):
        torch.manual_seed(100 + k)
        return ctx.impl("constructing", build)

    m = fresh()
    train = sum(p.numel() for _, p in real_params(m) if p.requires_grad)
    ice = sum(p.numel() for _, p in real_params(m) if not p.requires_grad)
    ctx.require(train == expect, f"{train} trainable values, expected {expect}")
    ctx.require(ice == frozen, f"{ice} frozen values, expected {frozen}")
    names = [k for k, _ in m.named_parameters()]
    ctx.require(len(set(names)) == len(names), "a parameter has two names")
    sd = m.state_dict()
    for k, p in real_params(m):
        ctx.require(k in sd and sd[k].shape == p.shape, f"parameter {k} is not part of the state dict")
    ctx.step()
    # every trainable value takes part in training
    scale = 0.8 if model is not None else 0.25

    def fill(mm, shift=0.0):
        with torch.no_grad():
            for j, (k, p) in enumerate(real_params(mm)):
                if p.requires_grad:
                    p.copy_(torch.tensor(ref.fill(tuple(p.shape), scale, shift + 0.137 * j)))
        return mm
    fill(m)
    acc = {k: torch.zeros_like(p, dtype=torch.float64) for k, p in real_params(m)}
    for which in range(3):
        m.zero_grad(set_to_none=True)
        y = ctx.impl("forward", m, grid_input(shape, big, span, which))
        c = grid_input(tuple(y.shape[1:]), big, 1.0, which + 5)
        ctx.impl("backward", (y * c).sum().backward)
        for k, p in real_params(m):
            if p.requires_grad:
                ctx.require(p.grad is not None, f"{k} receives no gradient")
                ctx.require(bool(torch.isfinite(p.grad).all()), f"gradient of {k} is not finite")
                acc[k] += p.grad.double().abs()
            else:
                ctx.require(p.grad is None, f"the fixed values {k} receive a gradient")
        ctx.step()
    for k, p in real_params(m):
        if p.requires_grad:
            if model is not None:
                ctx.require(bool((acc[k] > 0).all()), f"{int((acc[k] == 0).sum())} of {acc[k].numel()} values of {k} never receive a gradient")
            else:
                ctx.require(bool((acc[k] > 0).any()), f"{k} never receives a gradient")
    m.zero_grad(set_to_none=True)
    # histories of training, saving, loading and copying
    xs = [grid_input(shape, 5, span, 7), grid_input(shape, 1, span, 8)]
    if ctx.thorough:
        seqs = list(itertools.product(C19_OPS, repeat=3)) + list(itertools.product(C19_SHORT, repeat=4))
    else:
        seqs = list(itertools.product(C19_OPS, repeat=2)) + list(itertools.product(C19_SHORT, repeat=3))
    for seq in seqs:
        if not useful(seq):
            continue
        ctx.at(subject=task["name"], history=list(seq))
        c19_history(ctx, seq, fresh, fill, shape, span, xs)
    ctx.sample(dict(subject=task["name"], trainable=train))


def useful(seq):
    # "load" and "fresh" need a saved state; two adjacent saves are one
    if ("load" in seq or "fresh" in seq) and "save" not in seq:
        return False
    return not any(a == b == "save" for a, b in zip(seq, seq[1:]))


def c19_history(ctx, seq, fresh, fill, shape, span, xs):
    from lion_pytorch import Lion
    from high_order_layers_torch.sparse_optimizers import SparseLion
    a = fill(fresh())
    saved = saved_out = None
    k = 0
    for op in seq:
        k += 1
        if op == "save":
            f = io.BytesIO()
            ctx.impl("saving the state dict", torch.save, a.state_dict(), f)
            saved, saved_out = f, outputs(ctx, a, xs)
        elif op in ("load", "fresh"):
            if saved is None:
                return
            saved.seek(0)
            sd = ctx.impl("reading the state dict", torch.load, saved)
            if op == "fresh":
                a = fresh(k)
            ctx.impl("load_state_dict", a.load_state_dict, sd)
            agree(ctx, "output after restoring a saved state", outputs(ctx, a, xs), saved_out)
        elif op in ("sgd", "adam", "lion", "sparse"):
            opt = {"sgd": lambda p: torch.optim.SGD(p, lr=0.01), "adam": lambda p: torch.optim.Adam(p, lr=0.01), "lion": lambda p: Lion(p, lr=0.01), "sparse": lambda p: SparseLion(p, lr=0.01)}[op]
            opt = ctx.impl("constructing the optimizer", opt, a.parameters())
            before = {n: p.detach().clone() for n, p in real_params(a)}
            y = ctx.impl("forward", a, grid_input(shape, 6, span, k))
            ctx.impl("backward", (y * grid_input(tuple(y.shape[1:]), 6, 1.0, 3)).sum().backward)
            torch.nn.utils.clip_grad_norm_([p for p in a.parameters() if p.grad is not None], 1.0)
            ctx.impl("optimizer step", opt.step)
            for n, p in real_params(a):
                if p.requires_grad:
                    hot = p.grad != 0
                    moved = p.detach() != before[n]
                    tiny = p.grad.abs() < 1e-4
                    ctx.require(bool((moved | ~hot | tiny).all()), f"values of {n} with a gradient did not change in a training step")
                else:
                    ctx.same(f"fixed values {n} changed in training", p.detach(), before[n])
            a.zero_grad(set_to_none=True)
        elif op == "copy":
            old, a = a, ctx.impl("deepcopy", copy.deepcopy, a)
            agree(ctx, "output of a deep copy", outputs(ctx, a, xs), outputs(ctx, old, xs))
            with torch.no_grad():
                for p in old.parameters():
                    p.fill_(7.0)
        elif op == "perturb":
            fill(a, 0.31 * k)
        ctx.step()
        # the state dict determines the behaviour: an instance that never shared this history agrees
        out = outputs(ctx, a, xs)
        twin = fresh(50 + k)
        ctx.impl("load_state_dict", twin.load_state_dict, snap(a))
        agree(ctx, "an instance restored from the state dict disagrees", outputs(ctx, twin, xs), out)
        if ctx.state(*[o.numpy().tobytes() for o in out]):
            ctx.outcome(out[0].numpy().tobytes())
    ctx.trace()


T = ["float32 CPU tensors", "PyTorch trusted"]
PROPS = {
    "C05": Prop("C05", c05_tasks, c05, "stateless exploration: all operation sequences of the stated depth over the 15 operation alphabet, for every pair of live layers that differ in one configuration value; plus all batch sizes 1..33 and memory layouts; controlled scheduler: all two thread schedules with one preemption per line (per instruction for base layers) or two per line (six layers); every allocating operation of a call fails once", T + ["PyTorch operations are atomic"]),
    "C19": Prop("C19", c19_tasks, c19, "all histories of {save, load, fresh instance + load, SGD/Adam/Lion/SparseLion step, deepcopy, perturb} of the stated depth for every listed layer and network; parameter counts and gradient coverage of every single trainable value", T),
}
