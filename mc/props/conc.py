"""C05: calls in several threads (all schedules up to a preemption bound) and calls that fail
(at every step), on the real layers and networks."""
import copy

import numpy as np
import torch

from mc import ref, sched
from mc.models import refill


class Net:
    """a network, with the interface of the layer models"""
    span = 1.0

    def __init__(self, name, build, xshape):
        self.name, self.build, self.xshape = name, build, xshape

    def x(self, b, which=0):
        v = np.mod((np.arange(b * int(np.prod(self.xshape))) + 1 + 31 * which) * 0.7548776662466927 + 0.11 * which, 1.0) * 2 - 1
        return v.reshape((b,) + self.xshape).astype(np.float32)


def nets():
    from torch import nn

    from high_order_layers_torch import layers as HL
    from high_order_layers_torch import networks as HN
    base = dict(n=3, in_width=2, out_width=2, hidden_width=3, hidden_layers=1, in_segments=2, hidden_segments=3, out_segments=2)
    out = {}
    for t in ("continuous", "discontinuous", "polynomial", "switch_continuous", "continuous_prod", "fourier", "product"):
        for norm in (None, HL.MaxAbsNormalization, HL.L2Normalization):
            a = Net(f"mlp {t} {getattr(norm, '__name__', None)}", lambda t=t, norm=norm: HN.HighOrderMLP(layer_type=t, normalization=norm, **base), (2,))
            b = Net("other", lambda t=t, norm=norm: HN.HighOrderMLP(layer_type=t, normalization=norm, **{**base, "hidden_segments": 4, "n": 2}), (2,))
            out[a.name] = (a, b)
    a = Net("resnet", lambda: HN.HighOrderMLP(layer_type="continuous", normalization=HL.MaxAbsNormalization, resnet=True, **base), (2,))
    out["resnet"] = (a, a)
    a = Net("multi", lambda: HN.HighOrderMultiMLP(layer_type="continuous", replicas=2, **{**base, "hidden_layers": 0}), (2,))
    out["multi"] = (a, a)
    a = Net("transform", lambda: HN.transform_mlp(layer_type="continuous", rotations=2, n_in=2, n_hidden=3, n_out=3, **{**base, "hidden_layers": 1}), (2,))
    out["transform"] = (a, a)
    a = Net("list", lambda: HN.HighOrderMLPList(layer_type=["continuous", "polynomial"], n=[3, 2], width=[2, 3, 2], segments=[2, 1]), (2,))
    out["list"] = (a, a)
    for t in ("continuous", "polynomial", "discontinuous"):
        kw = dict(n=3, channels=[2, 2, 2], segments=2, kernel_size=[2, 2])
        a = Net(f"conv {t}", lambda t=t, kw=kw: HN.HighOrderFullyConvolutionalNetwork(layer_type=t + "2d", **kw), (2, 5, 4))
        b = Net("other", lambda t=t, kw=kw: HN.HighOrderFullyConvolutionalNetwork(layer_type=t + "2d", **{**kw, "n": 2}), (2, 5, 4))
        out[a.name] = (a, b)
        a = Net(f"tail {t}", lambda t=t, kw=kw: HN.HighOrderTailFocusNetwork(layer_type=t + "1d", focus=[2, 1], **kw), (2, 9))
        out[a.name] = (a, a)
    a = Net("deconv", lambda: HN.HighOrderFullyDeconvolutionalNetwork(layer_type="continuous2d", n=3, channels=[2, 2, 2], segments=2, kernel_size=[2, 2]), (2, 2, 2))
    out["deconv"] = (a, a)
    return out


def subject(name):
    from mc.props.hist import subjects
    return nets()[name[4:]] if name.startswith("net ") else subjects()[name]


def names():
    from mc.props.hist import subjects
    return list(subjects()) + ["net " + k for k in nets()]


def tasks(tier):
    """bound 1 at every line (everything), bound 1 at every instruction, bound 2 at every line"""
    out = []
    for k in names():
        net, base = k.startswith("net "), "/" not in k and not k.startswith("net ")
        out.append(dict(subject=k, faults=1, cost=20 if net else 3))
        out.append(dict(subject=k, threads="line", bound=1, cost=30 if net else 4))
        if base or tier == "thorough":
            out.append(dict(subject=k, threads="opcode", bound=1, cost=40 if "switch" in k or net else 10))
        if base and "switch" not in k and (tier == "thorough" or k in ("poly", "cont", "disc", "product", "fourier", "nd")):
            out.append(dict(subject=k, threads="line", bound=2, cost=25))
    return out


def fresh(ctx, A, shift=0.0):
    m = ctx.impl(f"constructing {A.name}", A.build)
    if not isinstance(A, Net):
        return refill(m, 0.8, shift)
    with torch.no_grad():
        for j, p in enumerate(p for p in m.parameters() if p.requires_grad):
            p.copy_(torch.tensor(ref.fill(tuple(p.shape), 0.4, shift + 0.137 * j)))
    return m


def forward(m, x, mode):
    """what one thread does"""
    if mode == "no_grad":
        with torch.no_grad():
            return [m(x).clone()]
    y = m(x)
    ps = [p for k, p in m.named_parameters() if p.requires_grad and k.split(".")[-1] != "result"]
    g = torch.autograd.grad((y * y).sum(), ps, allow_unused=True)
    return [y.detach().clone()] + [torch.zeros(1) if v is None else v.clone() for v in g]


def agree(ctx, what, got, want):
    ctx.require(len(got) == len(want), what)
    for a, b in zip(got, want):
        ctx.require(a.shape == b.shape, f"{what}: shape {tuple(a.shape)} instead of {tuple(b.shape)}")
        big = float(b.abs().max()) if b.numel() else 0.0
        ctx.close(what, a.double().numpy(), b.double().numpy(), 2e-6 * (big + 1e-3))


def state(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def unchanged(ctx, what, m, keep):
    now = m.state_dict()
    ctx.require(list(now) == list(keep), f"{what} changed the state dict")
    for k, v in keep.items():
        if k.split(".")[-1] != "result":
            ctx.same(f"{what} changed {k}", now[k].detach(), v)


def threads(task, ctx):
    A, B = subject(task["subject"])
    fine = task["threads"] == "opcode"
    a, b = fresh(ctx, A), fresh(ctx, B, 0.3)
    keep = state(a)
    plans = 0
    for mode in ("no_grad", "grad"):
        xs = [torch.tensor(A.x(2, 1)), torch.tensor(A.x(2, 3)), torch.tensor(A.x(3, 5))]
        xb = torch.tensor(B.x(2, 2))
        alone = [ctx.impl("forward", forward, a, x, mode) for x in xs]
        aloneb = ctx.impl("forward", forward, b, xb, mode)
        other = {
            "the same layer": (lambda: forward(a, xs[1], mode), alone[1]),
            "the same layer, another batch size": (lambda: forward(a, xs[2], mode), alone[2]),
            "another layer": (lambda: forward(b, xb, mode), aloneb),
            "a copy": (lambda: forward(copy.deepcopy(a), xs[1], mode), alone[1]),
        }
        if isinstance(A, Net) and ctx.tier == "quick":
            other = {k: other[k] for k in (("the same layer", "another layer") if mode == "no_grad" else ("the same layer",))}
        few = ctx.tier == "quick" and (fine or task["bound"] > 1)
        if few and mode == "grad":
            continue
        if few:
            other = {k: other[k] for k in (("the same layer", "another layer") if fine else ("the same layer",))}
        f0 = lambda: forward(a, xs[0], mode)
        for what, (f1, want1) in other.items():
            ctx.at(subject=task["subject"], mode=mode, other=what)
            n0 = sched.count(f0, fine).steps
            n1 = sched.count(f1, fine).steps
            if task["bound"] == 1:
                todo = [[(0, k), (1, None), (0, None)] for k in range(1, n0 + 1)]
                if what != "the same layer":
                    todo += [[(1, k), (0, None), (1, None)] for k in range(1, n1 + 1)]
            else:
                todo = [[(0, k), (1, j), (0, None), (1, None)] for k in range(1, n0 + 1) for j in range(1, n1 + 1)]
            for plan in todo:
                ctx.at(subject=task["subject"], mode=mode, other=what, schedule=plan)
                ws = sched.interleave([f0, f1], plan, fine)
                for w, want in zip(ws, (alone[0], want1)):
                    if w.error is not None:
                        ctx.fail(f"a call fails while another thread uses {what}: {type(w.error).__name__}: {w.error}")
                    agree(ctx, f"output while another thread uses {what}", w.value, want)
                plans += 1
                ctx.step(len(plan))
                ctx.trace()
            ctx.states(len(todo))
            ctx.outcome(mode, what, n0, n1)
        unchanged(ctx, "calling the layer in threads", a, keep)
    ctx.sample(dict(subject=task["subject"], granularity=task["threads"], preemptions=task["bound"], schedules=plans))


def bad_inputs(A):
    """inputs that a call may refuse (or not)"""
    s = A.xshape
    out = {
        "one feature too many": torch.zeros((2, s[0] + 1) + s[1:]),
        "no sample": torch.zeros((0,) + s),
        "integers": torch.ones((2,) + s, dtype=torch.long),
        "double precision": torch.full((2,) + s, 0.3, dtype=torch.float64),
        "no batch": torch.full(s, 0.2),
        "one dimension too many": torch.zeros((2,) + s + (3,)),
        "nan": torch.full((2,) + s, float("nan")),
        "inf": torch.full((2,) + s, float("inf")),
        "not a tensor": None,
    }
    if s[0] > 1:
        out["one feature too few"] = torch.zeros((2, s[0] - 1) + s[1:])
    return out


def faults(task, ctx):
    A, B = subject(task["subject"])
    a, b = fresh(ctx, A), fresh(ctx, B, 0.3)
    keep, keepb = state(a), state(b)
    xs = [torch.tensor(A.x(2, 1)), torch.tensor(A.x(3, 3))]
    xb = torch.tensor(B.x(2, 2))
    for training in (True,) if isinstance(A, Net) and ctx.tier == "quick" else (True, False):
        a.train(training)
        want = {(j, mode): ctx.impl("forward", forward, a, x, mode) for j, x in enumerate(xs) for mode in ("grad", "no_grad")}
        wantb = ctx.impl("forward", forward, b, xb, "grad")

        def after(what):
            ctx.require(torch.is_grad_enabled() and not torch.is_inference_mode_enabled(), f"{what} leaves another gradient mode behind")
            ctx.require(torch.get_default_dtype() == torch.float32, f"{what} leaves another default precision behind")
            ctx.require(all(m.training == training for m in a.modules()), f"{what} changes the mode of the layer")
            unchanged(ctx, what, a, keep)
            for (j, mode), w in want.items():
                agree(ctx, f"output after {what}", ctx.impl(f"forward after {what}", forward, a, xs[j], mode), w)
            agree(ctx, f"output of another layer after {what}", ctx.impl("forward", forward, b, xb, "grad"), wantb)
            unchanged(ctx, what, b, keepb)
            ctx.step(6)
            ctx.trace()

        for mode in ("grad", "no_grad"):
            call = lambda: forward(a, xs[0], mode)
            n = sched.operations(call)
            for k in range(n):
                ctx.at(subject=task["subject"], training=training, mode=mode, failing_operation=k)
                v, error, hit = sched.failing(call, k)
                if error is None:
                    agree(ctx, "output of a call that recovers from a failing operation", v, want[0, mode])
                elif not hit:
                    ctx.fail(f"a call fails the second time with {type(error).__name__}: {error}")
                ctx.state(mode, k, hit, training)
                after("a call that ran out of memory")
        for name, bad in bad_inputs(A).items():
            for mode in ("grad", "no_grad"):
                ctx.at(subject=task["subject"], training=training, bad=name, mode=mode)
                try:
                    with torch.set_grad_enabled(mode == "grad"):
                        a(bad)
                    r = "accepted"
                except Exception as e:  # noqa
                    r = "refused"
                ctx.outcome(name, r)
                ctx.state(mode, name, training)
                after("a call with an unusual input")
    ctx.sample(dict(subject=task["subject"], faults=True))
