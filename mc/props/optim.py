"""C20: SparseLion."""
import copy
import io
import itertools

import numpy as np
import torch

from high_order_layers_torch.sparse_optimizers import SparseLion
from mc import ref
from mc.core import Prop
from mc.models import FC, refill

GRADS = [0.0, 1.0, -2.5, -0.0, 1e-8, -3e4, 0.03, -1e-40]
GRADS_T = GRADS + [-1e-30, 7.0]
HYPER = [dict(lr=1e-2, betas=(0.9, 0.99), weight_decay=0.0), dict(lr=0.1, betas=(0.9, 0.99), weight_decay=0.5), dict(lr=1e-4, betas=(0.5, 0.25), weight_decay=1e-2),
         dict(lr=0.05, betas=(0.0, 0.9), weight_decay=0.1), dict(lr=0.05, betas=(0.95, 0.0), weight_decay=0.0), dict(lr=1.0, betas=(0.9, 1.0), weight_decay=0.25)]


class RefLion:
    """reference for one tensor, elementwise; float64"""

    def __init__(self, p):
        self.p = p.detach().double().numpy().copy()
        self.m = np.zeros_like(self.p)
        self.err = np.zeros_like(self.p)
        self.merr = np.zeros_like(self.p)
        self.unsure = np.zeros(self.p.shape, bool)

    def step(self, g, lr, betas, weight_decay):
        g = np.asarray(g, np.float64)
        act = g != 0
        b1, b2 = betas
        u = b1 * self.m + (1 - b1) * g
        uerr = b1 * self.merr + 4 * ref.EPS * (np.abs(b1 * self.m) + np.abs((1 - b1) * g)) + 3e-45
        # a cancellation that rounding decides: the sign may legitimately differ
        self.unsure |= act & (np.abs(u) <= uerr) & (u != 0)
        new = self.p * (1 - lr * weight_decay) - lr * np.sign(u)
        self.err = np.where(act, self.err + 4 * ref.EPS * (np.abs(self.p) + np.abs(new) + lr), self.err)
        self.p = np.where(act, new, self.p)
        m2 = b2 * self.m + (1 - b2) * g
        self.merr = np.where(act, b2 * self.merr + 4 * ref.EPS * (np.abs(b2 * self.m) + np.abs((1 - b2) * g)) + 3e-45, self.merr)
        self.m = np.where(act, m2, self.m)


def c20_tasks(tier):
    out = [dict(part="elements", hyper=h, cost=10) for h in range(len(HYPER))]
    out += [dict(part="dense", hyper=h) for h in range(len(HYPER))]
    out += [dict(part="histories", first=f, cost=5) for f in OPS]
    out += [dict(part="long", hyper=h) for h in range(len(HYPER))] + [dict(part="sizes"), dict(part="shapes")]
    out += [dict(part="misc"), dict(part="layers")] + [dict(part="groups", given=g) for g in range(8)]
    return out


def compare(ctx, what, p, r):
    ok = ~r.unsure
    ctx.close(what, p.detach().double().numpy()[ok], r.p[ok], r.err[ok] + 1e-30)


def stepped(ctx, opt):
    """one step; the gradients stay what they were (they may be used or accumulated into afterwards)"""
    ps = [p for g in opt.param_groups for p in g["params"]]
    keep = [None if p.grad is None else (p.grad, p.grad.clone()) for p in ps]
    r = ctx.impl("step", opt.step)
    for p, k in zip(ps, keep):
        if k is None:
            ctx.require(p.grad is None, "step created a gradient")
        else:
            ctx.require(p.grad is k[0] and bool(((p.grad == k[1]) | (k[1] != k[1])).all()), "step modified the gradient")
        ctx.require(p.requires_grad, "step changed requires_grad")
    return r


def elements(task, ctx):
    """element j of one parameter runs through the j-th gradient history: all histories at once"""
    h = HYPER[task["hyper"]]
    G = GRADS if not ctx.thorough else GRADS_T
    depth = 5 if not ctx.thorough else 6
    K = len(G)
    N = K ** depth
    digits = np.array(np.unravel_index(np.arange(N), (K,) * depth))
    for shape, start in (((N,), "distinct"), ((K, N // K), "zero"), ((N // K, K, 1), "distinct")):
        p0 = np.zeros(N, np.float32) if start == "zero" else ref.fill((N,), 2.0)
        p = torch.nn.Parameter(torch.tensor(p0.reshape(shape)))
        opt = ctx.impl("constructing SparseLion", SparseLion, [p], **h)
        r = RefLion(p)
        for t in range(depth):
            ctx.at(hyper=h, shape=list(shape), step=t)
            g = torch.tensor(np.array(G, np.float32)[digits[t]].reshape(shape))
            p.grad = g.clone()
            before = p.detach().clone()
            stepped(ctx, opt)
            ctx.same("step modified the gradient", p.grad, g)
            idle = g == 0
            ctx.require(torch.equal(p.detach()[idle].view(torch.int32), before[idle].view(torch.int32)), "a weight with zero gradient was changed")
            r.step(g.numpy(), **h)
            compare(ctx, "weights after a gradient history", p, r)
            ctx.step(N)
        ctx.states(N)
        ctx.trace(N)
        ctx.outcome(p.detach().numpy().tobytes())
        ctx.require(r.unsure.mean() < 0.05, "vacuous: too many undecided updates")
    # the momentum is as unaffected as the weight: after an idle phase the next update is the same
    for idle in (1, 2, 5):
        a = torch.nn.Parameter(torch.tensor([0.5, -0.25]))
        b = torch.nn.Parameter(torch.tensor([0.5, -0.25]))
        oa, ob = SparseLion([a], **h), SparseLion([b], **h)
        for g1, g2 in itertools.product((3.0, -0.01), repeat=2):
            for opt, q, wait in ((oa, a, 0), (ob, b, idle)):
                q.grad = torch.full((2,), g1)
                opt.step()
                for _ in range(wait):
                    q.grad = torch.zeros(2)
                    opt.step()
                q.grad = torch.full((2,), g2)
                opt.step()
            ctx.same("idle steps changed the optimizer", b.detach(), a.detach())
            ctx.step(2 + idle)
    ctx.sample(dict(hyper=h, histories=N, depth=depth))


def dense(task, ctx):
    """when no gradient is zero it is Lion"""
    from lion_pytorch import Lion

    h = HYPER[task["hyper"]]
    G = [g for g in GRADS if g != 0] + [-0.7]
    for depth in (1, 2, 3, 4, 5):
        K = len(G)
        N = K ** min(depth, 4)
        digits = np.array(np.unravel_index(np.arange(N), (K,) * min(depth, 4)))
        p = torch.nn.Parameter(torch.tensor(ref.fill((N,), 1.5)))
        q = torch.nn.Parameter(p.detach().clone())
        a, b = SparseLion([p], **h), Lion([q], lr=h["lr"], betas=h["betas"], weight_decay=h["weight_decay"])
        r = RefLion(p)
        for t in range(depth):
            g = torch.tensor(np.array(G, np.float32)[digits[t % len(digits)]])
            p.grad, q.grad = g.clone(), g.clone()
            stepped(ctx, a)
            b.step()
            r.step(g.numpy(), **h)
            ok = ~r.unsure
            ctx.at(hyper=h, depth=depth, step=t)
            ctx.close("agrees with the dense optimizer", p.detach().double().numpy()[ok], q.detach().double().numpy()[ok], (2 * r.err + 1e-30)[ok])
            ctx.step(N)
        ctx.states(N)
        ctx.trace(N)
        ctx.outcome(p.detach().numpy().tobytes())
    ctx.sample(task)


OPS = ["gA", "gB", "gAB", "zero", "none", "noneA", "lr", "save", "addgroup", "closure", "copy"]


def histories(task, ctx):
    depth = 3 if not ctx.thorough else 4
    for tail in itertools.product(OPS, repeat=depth):
        hist = (task["first"],) + tail
        ctx.at(history=list(hist))
        ps = [torch.nn.Parameter(torch.tensor(ref.fill((3,), 1.0))), torch.nn.Parameter(torch.tensor(ref.fill((2, 2), 1.0, 0.3)))]
        hy = [dict(lr=0.1, betas=(0.9, 0.6), weight_decay=0.1), dict(lr=0.02, betas=(0.95, 0.5), weight_decay=0.0)]
        opt = SparseLion([dict(params=[ps[0]], **hy[0]), dict(params=[ps[1]], **hy[1])])
        rs = [RefLion(p) for p in ps]
        k = 0
        for op in hist:
            k += 1
            grads = [None] * len(ps)
            if op in ("gA", "gAB", "closure"):
                grads[0] = torch.tensor([0.0, 1.0 * (-1) ** k, 0.5 * k])
            if op in ("gB", "gAB", "closure", "noneA"):
                grads[1] = torch.tensor([[1.0 + k, 0.0], [-2.0 * (-1) ** (k // 2), 0.25 * (-1) ** k]])
            if op == "zero":
                grads = [torch.zeros_like(p) for p in ps]
            if op in ("gA", "gB", "gAB", "closure"):
                for j in range(len(ps)):
                    if grads[j] is None and op != "gB" and op != "gA":
                        grads[j] = torch.full_like(ps[j], 0.5)
            if op == "lr":
                hy[0]["lr"] *= 0.5
                opt.param_groups[0]["lr"] = hy[0]["lr"]
                continue
            if op == "addgroup":
                if len(ps) < 3:
                    ps.append(torch.nn.Parameter(torch.tensor(ref.fill((2,), 1.0, 0.7))))
                    hy.append(dict(lr=0.3, betas=(0.1, 0.2), weight_decay=0.3))
                    rs.append(RefLion(ps[-1]))
                    ctx.impl("add_param_group", opt.add_param_group, dict(params=[ps[-1]], **hy[-1]))
                continue
            if op == "save":
                f = io.BytesIO()
                torch.save(opt.state_dict(), f)
                f.seek(0)
                groups = [dict(params=[p], lr=9.0) for p in ps]
                opt = SparseLion(groups)
                ctx.impl("load_state_dict", opt.load_state_dict, torch.load(f, weights_only=False))
                continue
            if op == "copy":
                st = copy.deepcopy(opt.state_dict())
                ctx.impl("load_state_dict", opt.load_state_dict, st)
                continue
            for p, g in zip(ps, grads):
                p.grad = None if g is None else g.clone()
            before = [p.detach().clone() for p in ps]
            if op == "closure":
                calls = []

                def closure():
                    calls.append(torch.is_grad_enabled())
                    for p, g in zip(ps, grads):
                        p.grad = None if g is None else g.clone()
                    return torch.tensor(1.25)
                for p in ps:
                    p.grad = None
                loss = ctx.impl("step with closure", opt.step, closure)
                ctx.require(calls == [True], f"the closure was called {len(calls)} times / without gradients enabled")
                ctx.require(loss is not None and float(loss) == 1.25, "step does not return the loss of the closure")
            else:
                ret = stepped(ctx, opt)
                ctx.require(ret is None, "step without closure returns something")
            for j, (p, g, r) in enumerate(zip(ps, grads, rs)):
                if g is None:
                    ctx.same(f"parameter {j} without gradient was changed", p.detach(), before[j])
                else:
                    r.step(g.numpy(), **hy[j])
                compare(ctx, f"parameter after the history", p, r)
            ctx.step()
        ctx.state(*[p.detach().numpy().tobytes() for p in ps])
        ctx.trace()
        ctx.outcome(ps[0].detach().numpy().tobytes())
    ctx.sample(dict(first=task["first"], depth=depth + 1))


def groups(task, ctx):
    """which hyper parameters a group gives and which it takes from the constructor"""
    names = [k for j, k in enumerate(("lr", "betas", "weight_decay")) if task["given"] >> j & 1]
    G = [1.0, -1.0, 0.0, -0.4, 3.0, 0.1]
    depth = 4
    N = len(G) ** depth
    digits = np.array(np.unravel_index(np.arange(N), (len(G),) * depth))
    for default in (dict(), dict(lr=0.05, betas=(0.8, 0.3), weight_decay=0.2)):
        base = dict(dict(lr=1e-4, betas=(0.9, 0.99), weight_decay=0.0), **default)
        own = [dict(lr=0.3, betas=(0.95, 0.4), weight_decay=0.5), dict(lr=0.01, betas=(0.5, 0.9), weight_decay=0.05), dict(lr=0.02, betas=(0.1, 0.0), weight_decay=1.0)]
        ps = [torch.nn.Parameter(torch.tensor(ref.fill((N,), 1.0, 0.2 * j))) for j in range(4)]
        gs = [dict(params=[ps[j]], **{k: own[j][k] for k in names}) for j in range(3)] + [dict(params=[ps[3]])]
        hy = [dict(base, **{k: own[j][k] for k in names}) for j in range(3)] + [base]
        ctx.at(given=names, defaults=default)
        opt = ctx.impl("constructing SparseLion", SparseLion, gs, **default)
        rs = [RefLion(p) for p in ps]
        for t in range(depth):
            g = torch.tensor(np.array(G, np.float32)[digits[t]])
            for p in ps:
                p.grad = g.clone()
            stepped(ctx, opt)
            for j, (p, r) in enumerate(zip(ps, rs)):
                r.step(g.numpy(), **hy[j])
                compare(ctx, f"parameter group {j}", p, r)
            ctx.step(4 * N)
        ctx.states(4 * N)
        ctx.trace(4 * N)
        ctx.outcome(ps[0].detach().numpy().tobytes())
    ctx.sample(task)


def long(task, ctx):
    """every element follows a pattern of its own over many steps: any pair of (period, phase) of activity"""
    h = HYPER[task["hyper"]]
    pats = [(p, q) for p in range(1, 9) for q in range(p)] + [(50, 3), (101, 100), (260, 0)]
    N = len(pats)
    p = torch.nn.Parameter(torch.tensor(ref.fill((N,), 2.0)))
    opt = SparseLion([p], **h)
    r = RefLion(p)
    for t in range(1100 if not ctx.thorough else 5000):
        g = np.array([(1.0 + 0.1 * ((t * 7 + j) % 13)) * (-1) ** ((t // 3 + j) % 2) if t % per == ph else 0.0 for j, (per, ph) in enumerate(pats)], np.float32)
        p.grad = torch.tensor(g)
        before = p.detach().clone()
        ctx.at(hyper=h, step=t)
        stepped(ctx, opt)
        idle = torch.tensor(g == 0)
        ctx.require(torch.equal(p.detach()[idle], before[idle]), "a weight with zero gradient was changed")
        r.step(g, **h)
        compare(ctx, "weights after a long history", p, r)
        # continue from what is there: rounding does not accumulate
        r.p = np.where(r.unsure, r.p, p.detach().double().numpy())
        r.err[:] = 0
        ctx.step(N)
    ctx.require(r.unsure.mean() < 0.5, "vacuous: too many undecided updates")
    ctx.states(N)
    ctx.trace(N)
    ctx.outcome(p.detach().numpy().tobytes())
    ctx.sample(task)


def shapes(task, ctx):
    """every shape of up to four dimensions of 1 to 3, every kind of starting values, every kind of gradient"""
    for rank in range(5):
        for shape in itertools.product((1, 2, 3), repeat=rank):
            k = int(np.prod(shape))
            for start, kind, h in itertools.product(("zero", "constant", "distinct", "half"), ("full", "half", "one", "alternate"), (HYPER[0], HYPER[1])):
                v = {"zero": np.zeros(k), "constant": np.full(k, -0.75), "distinct": ref.fill((k,), 1.0), "half": ref.fill((k,), 1.0) * (np.arange(k) % 2)}[start]
                p = torch.nn.Parameter(torch.tensor(v.astype(np.float32).reshape(shape)))
                opt = SparseLion([p], **h)
                r = RefLion(p)
                ctx.at(shape=list(shape), start=start, gradients=kind, hyper=h)
                for t in range(4):
                    g = ((np.arange(k) * 3 + t * 2) % 5 - 1.5) * (-1) ** (t // 2)
                    if kind == "half":
                        g = g * (np.arange(k) >= k // 2)
                    elif kind == "one":
                        g = g * (np.arange(k) == t % k)
                    elif kind == "alternate":
                        g = g * ((np.arange(k) + t) % 2 == 0)
                    g = g.astype(np.float32).reshape(shape)
                    p.grad = torch.tensor(g)
                    stepped(ctx, opt)
                    r.step(g, **h)
                    compare(ctx, "weights after steps", p, r)
                    ctx.step()
                ctx.trace()
                ctx.states(1)
            ctx.outcome(shape, p.detach().numpy().tobytes())
    ctx.sample(task)


def sizes(task, ctx):
    for N in list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 65536, 65537, 1000003]:
        for shape in ((N,), (N, 2), (2, N), (1, N, 3)):
            if int(np.prod(shape)) > 300000 and len(shape) > 1:
                continue
            h = HYPER[N % 5]
            k = int(np.prod(shape))
            p = torch.nn.Parameter(torch.tensor(ref.fill(shape, 1.0)))
            opt = SparseLion([p], **h)
            r = RefLion(p)
            ctx.at(shape=list(shape), hyper=h)
            for t in range(3):
                g = (((np.arange(k) * 5 + t * 3) % 7 - 3) * (((np.arange(k) // 3 + t) % 4) != 0)).astype(np.float32).reshape(shape)
                p.grad = torch.tensor(g)
                stepped(ctx, opt)
                r.step(g, **h)
                compare(ctx, "tensor size", p, r)
                ctx.step()
            ctx.trace()
            ctx.states(1)
            ctx.outcome(p.detach().numpy().ravel()[:32].tobytes())
    for count in (5, 8, 9, 16, 17, 33, 64, 65):  # many parameters, in one and in several groups
        for per in (1, 3, count):
            ps = [torch.nn.Parameter(torch.tensor(ref.fill((2,), 1.0, 0.1 * j))) for j in range(count)]
            rs = [RefLion(p) for p in ps]
            groups = [dict(params=ps[j:j + per], lr=0.01 * (1 + j), weight_decay=0.1 * (j % 3)) for j in range(0, count, per)]
            lrs = [0.01 * (1 + j - j % per) for j in range(count)]
            wds = [0.1 * ((j - j % per) % 3) for j in range(count)]
            opt = SparseLion(groups)
            ctx.at(parameters=count, per_group=per)
            for t in range(4):
                for j, p in enumerate(ps):
                    g = np.array([((j + t) % 3) - 1.0, 0.5 + j], np.float32)
                    if (j + t) % 4 == 0:
                        p.grad = None
                        continue
                    p.grad = torch.tensor(g)
                    rs[j].step(g, lr=lrs[j], betas=(0.9, 0.99), weight_decay=wds[j])
                stepped(ctx, opt)
                for p, r in zip(ps, rs):
                    compare(ctx, "many parameters", p, r)
                ctx.step()
            ctx.trace()
            ctx.states(1)
    ctx.sample(task)


def misc(task, ctx):
    p = lambda: [torch.nn.Parameter(torch.ones(2))]
    for lr in (0.0, -1.0):
        ctx.rejects(f"lr={lr}", lambda: SparseLion(p(), lr=lr), (AssertionError, ValueError))
        ctx.step()
    for b in ((1.1, 0.9), (0.9, -0.1), (-1, 0.5), (0.5, 2.0)):
        ctx.rejects(f"betas={b}", lambda: SparseLion(p(), lr=0.1, betas=b), (AssertionError, ValueError))
        ctx.step()
    # memory layouts, scalars, empty tensors, double precision
    h = HYPER[1]
    makers = {
        "transposed": lambda: torch.tensor(ref.fill((3, 4), 1.0)).t(),
        "strided": lambda: torch.tensor(ref.fill((6, 4), 1.0))[::2],
        "scalar": lambda: torch.tensor(0.7),
        "double": lambda: torch.tensor(ref.fill((5,), 1.0)).double(),
        "empty": lambda: torch.zeros(0),
        "4d": lambda: torch.tensor(ref.fill((2, 3, 2, 2), 1.0)),
    }
    for name, mk in makers.items():
        q = torch.nn.Parameter(mk())
        opt = SparseLion([q], **h)
        r = RefLion(q)
        ctx.at(parameter=name)
        for k in range(4):
            g = torch.tensor(np.resize(np.array([0.0, 1.0, -2.0, 0.5, 0.0, 0.1 * (k + 1)]), q.shape), dtype=q.dtype)
            q.grad = g.clone()
            stepped(ctx, opt)
            r.step(g.double().numpy(), **h)
            compare(ctx, f"{name} parameter", q, r)
            ctx.step()
        ctx.trace()
        ctx.state(name)
        ctx.outcome(q.detach().double().numpy().tobytes())
    # elements do not disturb each other, even if one of them is not finite
    for bad in (float("inf"), float("-inf"), float("nan")):
        q = torch.nn.Parameter(torch.tensor([1.0, 2.0, 3.0]))
        opt = SparseLion([q], **h)
        r = RefLion(torch.tensor([1.0, 2.0, 3.0]))
        for k in range(3):
            q.grad = torch.tensor([0.5, bad, 0.0])
            stepped(ctx, opt)
            r.step(np.array([0.5, 1.0, 0.0]), **h)
            ctx.close("element next to a non finite gradient", q.detach().double().numpy()[[0, 2]], r.p[[0, 2]], r.err[[0, 2]] + 1e-30)
            ctx.step()
    # same parameter list order: shared hyper parameters, several tensors in one group
    qs = [torch.nn.Parameter(torch.tensor(ref.fill((3,), 1.0, 0.1 * j))) for j in range(4)]
    rs = [RefLion(q) for q in qs]
    opt = SparseLion(qs, **h)
    for k in range(5):
        for j, (q, r) in enumerate(zip(qs, rs)):
            if (k + j) % 3 == 0:
                q.grad = None
                continue
            g = torch.tensor([0.0, 1.0 + j, -0.5 * (k + 1)])
            q.grad = g.clone()
            r.step(g.numpy(), **h)
        stepped(ctx, opt)
        for q, r in zip(qs, rs):
            compare(ctx, "one of several parameters", q, r)
        ctx.step()
    ctx.sample(task)


def layers(task, ctx):
    """training piecewise layers: only the weights of the pieces that saw data move"""
    for kind, n, segs in itertools.product(("cont", "disc"), (2, 3), (2, 4, 7)):
        M = FC(kind, n, segs, 2, 2)
        for seq in itertools.product((0, 1, segs - 1), repeat=3):
            m = refill(M.build(), 0.5)
            opt = SparseLion([m.w], lr=0.01, weight_decay=0.1)
            w0 = m.w.detach().clone()
            touched = torch.zeros_like(w0, dtype=torch.bool)
            ctx.at(layer=M.name, pieces=list(seq))
            for s in seq:
                x = torch.full((1, 2), -1 + (2 * s + 0.9) / segs)
                opt.zero_grad()
                y = m(x)
                ((y - 3.0) ** 2).sum().backward()
                first = s * (n - 1) if kind == "cont" else s * n
                touched[:, :, first:first + n] = True
                stepped(ctx, opt)
                ctx.step()
                ctx.require(torch.equal(m.w.detach()[~touched], w0[~touched]), "weights of pieces without data moved")
                ctx.require(bool((m.w.detach()[touched] != w0[touched]).all()), "weights of a piece with data did not move")
            ctx.trace()
            ctx.state(kind, n, segs, seq)
            ctx.outcome(m.w.detach().numpy().tobytes())
    ctx.sample(task)


def c20(task, ctx):
    globals()[task["part"]](task, ctx)


T = ["float32/float64 CPU tensors", "PyTorch and lion_pytorch trusted"]
PROPS = {
    "C20": Prop("C20", c20_tasks, c20, "all gradient histories of one weight over the gradient alphabet up to the stated depth (run in parallel as the elements of one tensor) for 6 hyper parameter sets; all operation histories (gradients, missing gradients, learning rate change, save/load, new group, closure) up to the stated depth over two parameter groups", T),
}
