"""C24 factories and validation, C25 training glue."""
import copy
import itertools
import os
import tempfile

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F

from high_order_layers_torch import layers as HL
from high_order_layers_torch import networks as HN
from mc import ref
from mc.chains import LinearM, verify
from mc.core import Prop
from mc.models import ConvM, FC, FourierM, NDM, ProductM, SwitchM, check, refill
from mc.props.nets import KIND, count, fcm, img, lst, mlp_steps, xin

# ---------------------------------------------------------------- C24
FC_NAMES = ["baseline_relu", "baseline", "continuous", "continuous_prod", "discontinuous", "discontinuous_prod", "polynomial", "polynomial_prod", "product",
            "fourier", "switch_continuous", "switch_discontinuous", "polynomial_2d", "polynomial_3d", "polynomial_4d", "polynomial_5d", "continuous_nd"]
CONV_NAMES = [k + d for d in ("1d", "2d") for k in ("continuous", "discontinuous", "polynomial", "fourier")]


def c24_tasks(tier):
    out = [dict(part="fc", name=k) for k in FC_NAMES]
    out += [dict(part="conv", name=k) for k in CONV_NAMES] + [dict(part="conv", name="continuous2d", transpose=True)]
    out += [dict(part="options", name=k) for k in FC_NAMES + CONV_NAMES] + [dict(part="options", name="continuous2d", transpose=True)]
    out += [dict(part="order", name=k) for k in FC_NAMES + CONV_NAMES + ["transpose"]]
    out += [dict(part="unknown", family=f) for f in ("fc", "conv", "transpose", "network")]
    out += [dict(part="invalid", net=k) for k in ("list", "rotation", "conv", "deconv", "tail", "nd", "refine")]
    return out


def edits(name):
    """all names one edit away"""
    s = {name + c for c in "12d_ x"} | {c + name for c in "_ x"} | {name.upper(), name.capitalize(), name + "s", name[::-1], ""}
    for i in range(len(name)):
        s.add(name[:i] + name[i + 1:])
        s.add(name[:i] + name[i + 1:i + 2] + name[i:i + 1] + name[i + 2:])
        s.add(name[:i] + "z" + name[i + 1:])
    return s - {name}


class ReluM(LinearM):
    """the registry entry that holds a linear layer and a relu"""

    def __init__(self, i, o):
        super().__init__(i, o, relu=True)

    def predict(self, m, x, dx=0.0):
        lin = [q for q in m.modules() if isinstance(q, nn.Linear)]
        return super().predict(lin[0], x, dx)


def c24_fc(ctx, name):
    grid = itertools.product((2, 3, 4), (1, 2, 3), (1, 2, 3), (1, 2), (2.0, 3.0), (None, 2.0))
    for n, s, i, o, length, per in grid:
        if name.startswith("switch") and per is not None:
            continue
        # the full set of options that networks hand to every kind of layer
        kw = dict(n=n, in_features=i, out_features=o, segments=s, rescale_output=False, scale=length, length=length, periodicity=per, device="cpu")
        ctx.at(name=name, options={k: v for k, v in kw.items()})
        if name.endswith("_nd") or name[-1] == "d" and name[-2].isdigit():
            if per is not None or i > 2:
                continue
            d = 2 if name.endswith("nd") else int(name[-2])
            if d > 3 and (n > 2 or s > 1 or i > 1):
                continue
            ns = (n,) * d
            model = NDM("pw", ns, (s,) * d, i, o, length) if name.endswith("nd") else NDM("poly", ns, None, i, o, length)
            if name.endswith("nd"):
                kw["dimensions"] = d
        elif name == "baseline_relu":
            model = ReluM(i, o)
        else:
            model = fcm(name, n, s, i, o, length, per)
        m = ctx.impl(f"constructing {name}", HL.high_order_fc_layers, layer_type=name, **kw)
        ctx.require(isinstance(m, nn.Module), f"{name} is not a module")
        refill(m, 0.7)
        x = (np.random.RandomState(n * 7 + s).uniform(-1, 1, (12,) + tuple(model.xshape)) * length / 2).astype(np.float32)
        y, _ = check(ctx, f"layer of type {name}", model, m, x)
        ctx.states(len(x))
        ctx.step(len(x))
        ctx.trace()
        ctx.outcome(y.tobytes())
    ctx.sample(dict(name=name))


def c24_conv(ctx, name, transpose):
    t, nd = name[:-2], int(name[-2])
    for n, s, c, o, k, st, pad in itertools.product((2, 3), (1, 3), (1, 2), (1, 2), (1, 2, 3), (1, 2), (0, 1)):
        if transpose and pad >= k:
            continue
        kw = dict(n=n, in_channels=c, out_channels=o, kernel_size=k, segments=s, rescale_output=False, periodicity=None, stride=st, padding=pad)
        ctx.at(name=name, options=kw)
        f = HL.high_order_convolution_transpose_layers if transpose else HL.high_order_convolution_layers
        m = ctx.impl(f"constructing {name}", f, layer_type=name, **kw)
        refill(m, 0.7)
        model = ConvM(KIND[t], nd, n, s, c, o, k, stride=st, padding=pad, size=(5, 4)[:nd], transpose=transpose)
        y, _ = check(ctx, f"convolution of type {name}", model, m, img((2, c) + (5, 4)[:nd], k))
        ctx.states(2)
        ctx.step(2)
        ctx.trace()
        ctx.outcome(y.tobytes())
    ctx.sample(dict(name=name))


def c24_options(ctx, name, transpose):
    """options that only some of the kinds have, in every combination"""
    if name in CONV_NAMES:
        t, nd = name[:-2], int(name[-2])
        f = HL.high_order_convolution_transpose_layers if transpose else HL.high_order_convolution_layers
        for j, (length, per, resc, dil, mode, op, mag) in enumerate(itertools.product((2.0, 3.0), (None, 2.0), (False, True), (1, 2), ("zeros", "reflect", "circular"), (0, 1), (0.5, 4.0))):
            if (transpose and mode != "zeros") or (op and not transpose) or (per and t == "fourier"):
                continue
            n, s, c, o, k, st = 2 + j % 3, 1 + j % 4, 1 + j % 2, 2, 2, 2
            kw = dict(n=n, segments=s, in_channels=c, out_channels=o, kernel_size=k, stride=st, padding=1, length=length, rescale_output=resc, dilation=dil, padding_mode=mode, weight_magnitude=mag)
            if per:
                kw["periodicity"] = per
            if transpose:
                kw["output_padding"] = op
            ctx.at(name=name, options=kw)
            m = ctx.impl(f"constructing {name}", f, layer_type=name, **kw)
            w = float(m.state_dict()["conv.weight"].abs().max())
            ctx.require(w <= mag / (c * k ** nd) * (1 + 1e-6), f"initial weight {w} above the limit of weight_magnitude={mag}")
            refill(m, 0.7)
            model = ConvM(KIND[t], nd, n, s, c, o, k, length=length, per=per, rescale=resc, stride=st, padding=1, dilation=dil, mode=mode, size=(5, 4)[:nd], transpose=transpose, output_padding=op)
            y, _ = check(ctx, f"convolution of type {name}", model, m, img((2, c) + (5, 4)[:nd], k, 1.0))
            ctx.states(2)
            ctx.step(2)
            ctx.trace()
            ctx.outcome(y.tobytes())
    elif name == "product":
        for bias, alpha, per, i, o in itertools.product((True, False), (1.0, 0.5, 0.0, 2.0), (None, 2.0, 0.5), (1, 2, 4), (1, 3)):
            m = ctx.impl("constructing product", HL.high_order_fc_layers, layer_type=name, in_features=i, out_features=o, bias=bias, alpha=alpha, periodicity=per)
            model = ProductM(i, o, bias, alpha, per)
            ctx.at(layer=model.name)
            refill(m, 0.7)
            y, _ = check(ctx, "product layer", model, m, model.x(9))
            ctx.states(9)
            ctx.step(9)
            ctx.trace()
            ctx.outcome(y.tobytes())
    elif name.startswith("switch"):
        for layers, scale, norm, s, i, o in itertools.product((1, 2, 3), (2.0, 1.0, 4.0), (None, "max_abs", "max_center"), (1, 3), (1, 2), (1, 3)):
            nm = {None: None, "max_abs": HL.MaxAbsNormalization, "max_center": HL.MaxCenterNormalization}[norm]
            m = ctx.impl(f"constructing {name}", HL.high_order_fc_layers, layer_type=name, n=3, segments=s, in_features=i, out_features=o, num_input_layers=layers, scale=scale, normalization=nm() if nm else None)
            model = SwitchM({"continuous": "cont", "discontinuous": "disc"}[name[7:]], 3, s, i, o, layers, scale)
            ctx.at(layer=model.name, normalization=norm)
            refill(m, 0.9)
            ctx.require((m.in_features, m.out_features) == (i, o), "announced sizes")
            x = model.x(9, 1)
            w, tol, skip = model.predict(m, x)
            if norm:
                from mc.chains import FN
                w, tol = FN[norm](w, tol)
            keep = ~skip.any(1)
            y = ctx.impl("forward", m, torch.tensor(x)).detach().double().numpy()
            ctx.close(f"{name}", y[keep], w[keep], tol[keep] + 1e-6)
            ctx.states(9)
            ctx.step(9)
            ctx.trace()
            ctx.outcome(y.tobytes())
    else:
        kinds = {"continuous": "cont", "discontinuous": "disc", "polynomial": "poly"}
        base = name.replace("_prod", "")
        if base not in kinds:
            ctx.trace()
            ctx.step()
            ctx.states(1)
            ctx.outcome(name)
            ctx.sample(dict(name=name))
            return
        for mag, init, n, s, i, o, length, per in itertools.product((0.1, 1.0, 5.0), ("constant_random", "uniform"), (2, 4), (1, 3), (1, 3), (1, 2), (2.0, 0.5), (None, 1.5)):
            kw = dict(n=n, segments=s, in_features=i, out_features=o, length=length, periodicity=per, weight_magnitude=mag, initialize=init)
            ctx.at(name=name, options=kw)
            m = ctx.impl(f"constructing {name}", HL.high_order_fc_layers, layer_type=name, **kw)
            w = m.state_dict()["w"].double().numpy()
            const = bool((w == w[..., :1]).all())
            ctx.require(const == (init == "constant_random"), f"initialize={init} gives {'constant' if const else 'varying'} links")
            if base != "discontinuous" or const:
                ctx.require(np.abs(w).max() <= mag / i * (1 + 1e-6), f"initial weight {np.abs(w).max()} above weight_magnitude/in_features={mag / i}")
            if base != "discontinuous" or const:
                tops = [np.abs(HL.high_order_fc_layers(layer_type=name, **kw).state_dict()["w"].numpy()).max() for _ in range(12)]
                ctx.require(max(tops) >= 0.2 * mag / i, "weight_magnitude has no effect")
            refill(m, 0.7)
            model = FC(kinds[base], n, s, i, o, length, per, name.endswith("_prod"))
            y, _ = check(ctx, f"layer of type {name}", model, m, model.x(9, n))
            ctx.states(9)
            ctx.step(9)
            ctx.trace()
            ctx.outcome(y.tobytes())
    ctx.sample(dict(name=name))


ND = ("2d", "3d", "4d", "5d", "nd")
EXTRA = {"product": dict(bias=False, alpha=0.5, periodicity=2.0), "fourier": dict(length=3.0), "switch": dict(scale=3.0, num_input_layers=3), "nd": dict(length=3.0), "baseline": {},
         "fc": dict(length=3.0, periodicity=1.5, weight_magnitude=5.0, initialize="uniform"),
         "conv": dict(length=3.0, periodicity=1.5, rescale_output=True, stride=2, padding=1, padding_mode="circular", dilation=2, weight_magnitude=5.0)}


def extras(name):
    """the optional settings of a registered type, each with a value that is not its default"""
    if name in CONV_NAMES or name == "transpose":
        e = dict(EXTRA["conv"])
        if name.startswith("fourier"):
            del e["periodicity"]
        if name == "transpose":
            del e["padding_mode"]
        return e
    if name[-2:] in ND:
        return EXTRA["nd"]
    return EXTRA.get(name) or EXTRA["baseline" if name.startswith("baseline") else "switch" if name.startswith("switch") else "fc"]


def produce(ctx, name, opts):
    """Build a type with some of its optional settings and the model of what was asked for."""
    ctx.at(name=name, options=opts)
    if name in CONV_NAMES or name == "transpose":
        tr = name == "transpose"
        t = "continuous2d" if tr else name
        nd = int(t[-2])
        f = HL.high_order_convolution_transpose_layers if tr else HL.high_order_convolution_layers
        m = ctx.impl(f"constructing {name}", f, layer_type=t, n=3, segments=2, in_channels=2, out_channels=2, kernel_size=2, **opts)
        a = {dict(periodicity="per", rescale_output="rescale", padding_mode="mode").get(k, k): v for k, v in opts.items() if k != "weight_magnitude"}
        w = m.state_dict()["conv.weight"].abs().max() * 2 * 2 ** nd
        mag = opts.get("weight_magnitude", 1.0)
        ctx.require(float(w) <= mag * (1 + 1e-6), f"initial weights of magnitude {float(w)}, asked for {mag}")
        return m, ConvM(KIND[t[:-2]], nd, 3, 2, 2, 2, 2, size=(5, 4)[:nd], transpose=tr, **a)
    kw = dict(n=2 if name[-2:] in ND else 3, segments=2, in_features=2, out_features=2)
    if name.endswith("_nd"):
        kw["dimensions"] = 2
    m = ctx.impl(f"constructing {name}", HL.high_order_fc_layers, layer_type=name, **kw, **opts)
    if name == "product":
        return m, ProductM(2, 2, opts.get("bias", True), opts.get("alpha", 1.0), opts.get("periodicity"))
    if name == "baseline_relu":
        return m, ReluM(2, 2)
    if name.startswith("switch"):
        return m, SwitchM({"continuous": "cont", "discontinuous": "disc"}[name[7:]], 3, 2, 2, 2, opts.get("num_input_layers", 2), opts.get("scale", 2.0))
    if name.endswith("_nd"):
        return m, NDM("pw", (2, 2), (2, 2), 2, 2, opts.get("length", 2.0))
    if name[-2:] in ND:
        return m, NDM("poly", (2,) * int(name[-2]), None, 2, 2, opts.get("length", 2.0))
    if extras(name) is EXTRA["fc"]:
        w = m.state_dict()["w"].double().numpy()
        const = bool((w == w[..., :1]).all())
        ctx.require(const == ("initialize" not in opts), f"initial links are {'constant' if const else 'varying'}")
        if const or not name.startswith("disc"):
            top, mag = np.abs(w).max() * 2, opts.get("weight_magnitude", 1.0)
            ctx.require(top <= mag * (1 + 1e-6), f"initial weights of magnitude {top}, asked for {mag}")
    return m, fcm(name, 3, 2, 2, 2, opts.get("length", 2.0), opts.get("periodicity"))


def c24_order(ctx, name):
    """Every ordered pair of constructions: what was asked for earlier, of this type or of another, is never
    taken over by a later request that leaves it out, and a later request changes no earlier layer."""
    ex = extras(name)
    some = [{k: ex[k] for k in c} for r in range(len(ex) + 1) for c in itertools.combinations(ex, r)]
    if len(some) > 16:
        some = [c for c in some if len(c) in (0, 1, len(ex) - 1, len(ex))]
    pairs = [(name, a, b) for a in some for b in some]
    pairs += [(other, a, b) for other in FC_NAMES + CONV_NAMES + ["transpose"] if other != name for b in ({}, ex) for a in ({}, extras(other), {})]

    def see(what, m, M):
        x = img((2,) + tuple(M.xshape), 1, 1.0) if isinstance(M, ConvM) else (np.random.RandomState(3).uniform(-1, 1, (5,) + tuple(M.xshape))).astype(np.float32)
        y, _ = check(ctx, what, M, m, x)
        ctx.states(len(x))
        ctx.step()
        return y

    for other, a, b in pairs:
        first, A = produce(ctx, other, a)
        refill(first, 0.7)
        second, B = produce(ctx, name, b)
        ctx.at(name=name, options=b, after=other, with_options=a)
        refill(second, 0.6, 0.3)
        y = see(f"layer of type {name} built after a {other}", second, B)
        see(f"layer of type {other} when a {name} was built after it", first, A)
        ctx.trace()
        ctx.outcome(np.round(y, 4).tobytes())
    ctx.sample(dict(name=name))


def c24_unknown(ctx, family):
    fc = dict(n=3, in_features=2, out_features=2, segments=2)
    cv = dict(n=3, in_channels=1, out_channels=1, kernel_size=2, segments=2)
    if family in ("fc", "conv", "transpose"):
        call, known, kw, base = {"fc": (HL.high_order_fc_layers, HL.fc_layers, fc, FC_NAMES), "conv": (HL.high_order_convolution_layers, HL.convolutional_layers, cv, CONV_NAMES),
                                 "transpose": (HL.high_order_convolution_transpose_layers, HL.convolutional_transpose_layers, cv, ["continuous2d"])}[family]
        names = set().union(*[edits(b) for b in base]) | set(FC_NAMES) | set(CONV_NAMES) | {"linear", "relu", "auto", "mlp"}
        for bad in sorted(names):
            if bad in known:
                continue
            ctx.at(layer_type=bad)
            ctx.rejects(f"layer type {bad!r}", lambda: call(layer_type=bad, **kw))
            ctx.state(bad)
            ctx.step()
            ctx.trace()
            ctx.outcome(bad)
    else:
        mlp = dict(n=3, in_width=2, out_width=2, hidden_layers=1, hidden_width=2, in_segments=2, out_segments=2, hidden_segments=2)
        for bad in ("continous", "", "Polynomial", "continuous2d", "linear"):
            calls = {
                "HighOrderMLP": lambda: HN.HighOrderMLP(layer_type=bad, **mlp),
                "HighOrderMLP input": lambda: HN.HighOrderMLP(layer_type="continuous", layer_type_in=bad, **mlp),
                "HighOrderMultiMLP": lambda: HN.HighOrderMultiMLP(layer_type=bad, replicas=2, **mlp),
                "transform_mlp": lambda: HN.transform_mlp(layer_type=bad, n_in=2, n_hidden=2, n_out=2, rotations=2, **mlp),
                "switch": lambda: HL.SwitchLayer(layer_type=bad, n=3, in_features=1, out_features=1, segments=2),
            }
            for L in (1, 2, 3):
                for j in range(L):
                    ts = ["continuous"] * L
                    ts[j] = bad
                    calls[f"HighOrderMLPList {L} {j}"] = lambda ts=ts, L=L: HN.HighOrderMLPList(layer_type=ts, n=[2] * L, width=[2] * (L + 1), segments=[2] * L)
                    for cls in (HN.HighOrderFullyConvolutionalNetwork, HN.HighOrderTailFocusNetwork, HN.HighOrderFullyDeconvolutionalNetwork):
                        cb = bad if bad != "continuous2d" else "continuous3d"
                        good = "continuous2d" if cls is not HN.HighOrderTailFocusNetwork else "continuous1d"
                        t2 = [good] * L
                        t2[j] = cb
                        extra = dict(focus=1) if cls is HN.HighOrderTailFocusNetwork else {}
                        calls[f"{cls.__name__} {L} {j}"] = lambda cls=cls, t2=t2, L=L, extra=extra: cls(layer_type=t2, n=[2] * L, channels=[1] * (L + 1), segments=[2] * L, kernel_size=[1] * L, **extra)
            for k, f in calls.items():
                if bad == "" and k == "HighOrderMLP input":
                    continue  # empty means: the same as the other layers
                ctx.at(layer_type=bad, network=k)
                ctx.rejects(f"{k} with layer type {bad!r}", f)
                ctx.state(bad, k)
                ctx.step()
                ctx.trace()
                ctx.outcome(bad, k)
    ctx.sample(dict(family=family))


def tries(ctx, f):
    try:
        f()
        return False
    except Exception:  # noqa
        return True


def c24_invalid(ctx, net):
    R = (0, 1, 2, 3, 4)
    if net == "list":
        for a, w in itertools.product((1, 2, 3, 4), R):
            ctx.at(layer_types=a, widths=w)
            f = lambda: HN.HighOrderMLPList(layer_type=["continuous"] * a, n=[2] * a, width=[2] * w, segments=[2] * a)
            if w == a + 1:
                m = ctx.impl("constructing HighOrderMLPList", f)
                ctx.require(m(torch.zeros(3, 2)).shape == (3, 2), "wrong output shape")
            else:
                ctx.rejects(f"{a} layers with {w} widths", f)
            ctx.state(a, w)
            ctx.step()
            ctx.trace()
            ctx.outcome(a, w)
    elif net == "rotation":
        for n, r, norm in itertools.product((1, 2, 3, 4), (-3, -1, 0, 1, 2, 3), (True, False)):
            ctx.at(n=n, rotations=r)
            f = lambda: HL.fixed_rotation_layer(n=n, rotations=r, normalize=norm)
            if r < 1:
                ctx.rejects(f"rotations={r}", f)
            else:
                layer, width = ctx.impl("fixed_rotation_layer", f)
                ctx.require(layer(torch.zeros(2, n)).shape == (2, width), "announced width differs")
            ctx.state(n, r, norm)
            ctx.step()
            ctx.trace()
            ctx.outcome(n, r)
    elif net in ("conv", "deconv", "tail"):
        cls = {"conv": HN.HighOrderFullyConvolutionalNetwork, "deconv": HN.HighOrderFullyDeconvolutionalNetwork, "tail": HN.HighOrderTailFocusNetwork}[net]
        t = "continuous1d" if net == "tail" else "continuous2d"
        extra = dict(focus=1) if net == "tail" else {}
        for c, s, k, ty, n in itertools.product((0, 1, 2, 3), (1, 2, 3), (1, 2, 3), (1, 2, 3), (1, 2, 3)):
            ctx.at(network=net, channels=c, segments=s, kernel_size=k, layer_type=ty, n=n)
            f = lambda: cls(layer_type=[t] * ty, n=[2] * n, channels=[1] * c, segments=[2] * s, kernel_size=[1] * k, **extra)
            if c < 2:
                ctx.rejects(f"{c} channels", f)
            elif s == k == ty == n == c - 1:
                ctx.impl("constructing", f)
            elif min(s, k, ty, n) < c - 1:
                ctx.require(tries(ctx, f), f"lists that are too short were accepted: channels {c}, segments {s}, kernel_size {k}, layer_type {ty}, n {n}")
            elif not tries(ctx, f):
                ctx.finding(f"{net}-list-lengths", f"lists of different lengths were accepted: channels {c}, segments {s}, kernel_size {k}, layer_type {ty}, n {n}")
            ctx.state(c, s, k, ty, n)
            ctx.step()
            ctx.trace()
            ctx.outcome(net, c, s, k, ty, n)
    elif net == "nd":
        make = lambda **kw: HL.high_order_fc_layers(layer_type="continuous_nd", in_features=1, out_features=1, **kw)
        for n, s in itertools.product((2, 3), (1, 2)):
            ctx.at(n=n, segments=s)
            ctx.rejects("a scalar n without a number of dimensions", lambda: make(n=n, segments=s))
            ctx.rejects("a scalar n without a number of dimensions", lambda: make(n=n, segments=[s, s]))
            for a, b in itertools.product((1, 2, 3), (1, 2, 3)):
                f = lambda: make(n=[n] * a, segments=[s] * b)
                if a == b:
                    m = ctx.impl("constructing", f)
                    ctx.require(m(torch.zeros(4, 1, a)).shape == (4, 1), "wrong output shape")
                else:
                    ctx.rejects(f"{a} orders with {b} segment counts", f)
                ctx.state(n, s, a, b)
                ctx.step()
                ctx.trace()
                ctx.outcome(a, b)
    else:
        # p refinement needs the same number of segments on both sides
        for kind, prod in itertools.product(("cont", "disc"), (False, True)):
            for a, b in itertools.product((1, 2, 3, 4), repeat=2):
                A, B = FC(kind, 2, a, 1, 1, prod=prod).build(), FC(kind, 3, b, 1, 1, prod=prod).build()
                ctx.at(kind=kind, segments=[a, b])
                if a == b:
                    ctx.impl("p refinement", A.interpolate, B)
                else:
                    before = B.state_dict()["w"].clone()
                    ctx.rejects(f"p refinement from {a} to {b} segments", lambda: A.interpolate(B))
                    ctx.same("a rejected refinement changed the weights", B.state_dict()["w"], before)
                ctx.state(kind, prod, a, b)
                ctx.step()
                ctx.trace()
                ctx.outcome(a, b)
    ctx.sample(dict(net=net))


def c24(task, ctx):
    p = task["part"]
    if p == "fc":
        c24_fc(ctx, task["name"])
    elif p == "conv":
        c24_conv(ctx, task["name"], task.get("transpose", False))
    elif p == "options":
        c24_options(ctx, task["name"], task.get("transpose", False))
    elif p == "order":
        c24_order(ctx, task["name"])
    elif p == "unknown":
        c24_unknown(ctx, task["family"])
    else:
        c24_invalid(ctx, task["net"])


# ---------------------------------------------------------------- C25
def base_cfg(**net):
    from omegaconf import OmegaConf
    return OmegaConf.create(dict(net=net, optimizer=dict(name="adam", lr=1e-2, scheduler="plateau", patience=2, factor=0.5, gamma=0.9), data=dict(classes=3)))


def high_cfg(mt, t, normalize, layers=2, n=(3, None, None, None), seg=(2, 3, 4), width=(2, 4, 3)):
    return dict(model_type=mt, layer_type=t, normalize=normalize, n=n[0], n_in=n[1], n_hidden=n[2], n_out=n[3], input=dict(width=width[0], segments=seg[0]),
                hidden=dict(width=width[1], layers=layers, segments=seg[1]), output=dict(width=width[2], segments=seg[2]))


def bn_eval(h, d):
    return h / np.sqrt(1 + 1e-5), d


def bn_train(h, d):
    ax = (0,) + tuple(range(2, h.ndim))
    mu, v = h.mean(ax, keepdims=True), h.var(ax, keepdims=True)
    return (h - mu) / np.sqrt(v + 1e-5), d


def c25_tasks(tier):
    types = ["continuous", "discontinuous", "polynomial", "continuous_prod", "fourier", "product"]
    out = [dict(part="high_order", type=t) for t in types] + [dict(part="high_order_input", type=t) for t in types]
    out += [dict(part=p, type=t) for p in ("high_order_conv", "high_order_tail_focus") for t in ("continuous", "discontinuous", "polynomial", "fourier")]
    out += [dict(part="models"), dict(part="optimizers"), dict(part="lr"), dict(part="lr_values", cost=5)]
    out += [dict(part=p, kind=k, cost=5) for k in ("classification", "regression") for p in ("loss_sizes", "evaluation")]
    out += [dict(part="losses", kind=k) for k in ("classification", "regression")]
    out += [dict(part="fit", kind=k, name=o, scheduler=s, cost=6) for k in ("classification", "regression") for o in ("adam", "lion") for s in ("plateau", "exponential", None)]
    return out


def select(ctx, cfg):
    from high_order_layers_torch import modules as HM
    keep = copy.deepcopy(cfg)
    ctx.impl("select_network", HM.select_network, cfg)
    ctx.require(cfg == keep, "selecting a network changes the configuration")
    return ctx.impl("select_network", HM.select_network, cfg)


def net_check(ctx, what, net, x, steps, layers, wrap=None, far=False):
    """steps contains "bn" where a batch normalization is expected"""
    def run(mode, bn):
        st = [bn if s == "bn" else s for s in steps]

        def predict(w, xx):
            if wrap:
                return wrap(w, xx, bn)
            return w.chain(st, xx, np.zeros_like(xx), np.zeros(len(xx), bool))
        getattr(net, mode)()
        return verify(ctx, f"{what} in {mode} mode", net, x, predict, layers, grads=not far and (mode == "train" or ctx.thorough))
    y, keep = run("eval", bn_eval)
    ctx.require(bool(keep.any()) or far, "vacuous")
    run("train", bn_train)
    net.eval()
    ctx.states(len(x))
    ctx.step(2 * len(x))
    ctx.trace()
    ctx.outcome(y.tobytes())


def refill_linear(net, scale):
    """new values for everything except batch normalizations"""
    with torch.no_grad():
        j = 0
        for m in net.modules():
            if isinstance(m, nn.modules.batchnorm._BatchNorm):
                m.reset_parameters()
                m.reset_running_stats()
                continue
            for k, p in m.named_parameters(recurse=False):
                j += 1
                p.copy_(torch.tensor(ref.fill(tuple(p.shape), scale, 0.137 * j)))


def size_ladder(t, normalize):
    """(layers, n, widths, segments), one of them far from the others"""
    N = (3, None, None, None)
    small = "prod" in t
    for h in (4, 5, 6, 7, 8, 10, 12):
        if normalize or not small:
            yield h, (2, None, None, None), (2, 3, 2), (2, 3, 4)
    for w in (5, 6, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 100):
        for width in ((w, 3, 2), (2, w, 3), (2, 3, w)):
            yield 1, N, width, (2, 3, 4)
    for q in (1, 5, 6, 8, 9, 10, 15, 16, 17, 32, 33, 64):
        for seg in ((q, 2, 3), (2, q, 3), (2, 3, q), (q, q, q)):
            yield 1, N, (2, 3, 2), seg
    for q in (2, 5, 6, 7, 8):
        for n in ((q, None, None, None), (3, q, None, None), (3, None, q, None), (3, None, None, q)):
            yield 1, n, (2, 3, 2), (2, 3, 1)


def c25_high(ctx, t):
    grid = [(a, b, c, d, (2, 3, 4), False) for a, b, c, d in itertools.product((False, True), (0, 1, 2, 3), ((3, None, None, None), (2, 3, 4, 5), (3, 2, None, 4), (4, None, 2, None)), ((2, 4, 3), (1, 2, 1)))]
    grid += [(a, h, n, w, seg, True) for a in (False, True) for h, n, w, seg in size_ladder(t, a)]
    for normalize, layers, n, width, seg, far in grid:
        net_cfg = high_cfg("high_order", t, normalize, layers, n, seg, width=width)
        ctx.at(config=net_cfg)
        net = select(ctx, base_cfg(**net_cfg))
        x = xin(width[0], 12, layers)
        net.eval()
        ctx.impl("forward", net, torch.tensor(x))
        refill_linear(net, 0.1 if "prod" in t else 0.5)
        a = dict(layer_type=t, n=n[0], n_in=n[1], n_hidden=n[2], n_out=n[3], in_width=width[0], hidden_width=width[1], out_width=width[2], hidden_layers=layers,
                 in_segments=seg[0], hidden_segments=seg[1], out_segments=seg[2])
        steps = mlp_steps(a, "bn" if normalize else None, None)
        net_check(ctx, "high_order", net, x, steps, layers + 2, far=far)


def c25_input(ctx, t):
    grid = [(a, b, c, d, (2, 3, 4), False) for a, b, c, d in itertools.product((False, True), (1, 2, 3), (2, 3, 4), ((2, 4, 3), (3, 2, 1)))]
    grid += [(a, h, n[0], w, seg, True) for a in (False, True) for h, n, w, seg in size_ladder(t, a)]
    for normalize, layers, n, width, seg, far in grid:
        net_cfg = high_cfg("high_order_input", t, normalize, layers, (n, None, None, None), seg, width=width)
        ctx.at(config=net_cfg)
        net = select(ctx, base_cfg(**net_cfg))
        x = xin(width[0], 12, layers)
        net.eval()
        ctx.impl("forward", net, torch.tensor(x))
        refill_linear(net, 0.5)
        mid = (["bn"] if normalize else []) + ["relu"]
        steps = [fcm(t, n, seg[0], width[0], width[1])] + (["bn"] if normalize else []) + [LinearM(width[1], width[1])]
        for _ in range(layers - 1):
            steps += mid + [LinearM(width[1], width[1])]
        steps += mid + [LinearM(width[1], width[2])]
        net_check(ctx, "high_order_input", net, x, steps, layers + 2, far=far)


def conv_layout():
    for ch, ks, st in (([1, 2], [2], [1]), ([2, 3, 1], [3, 2], [1, 2]), ([1, 2, 2, 3], [2, 1, 3], [2, 1, 1])):
        for n, seg in ((3, 2), ([2, 3, 4][: len(ks)], [3, 1, 2][: len(ks)])):
            for per in (None, 2.0):
                yield dict(ch=ch, ks=ks, stride=st, n=n, seg=seg, per=per)


def c25_conv(ctx, t, tail):
    for a in conv_layout():
        for normalize, fo in ((False, 1), (True, [2, 1, 3][: len(a["ks"])])):
            if not tail and fo == 1:
                continue
            k = len(a["ks"])
            W = 16
            net_cfg = dict(model_type="high_order_tail_focus" if tail else "high_order_conv", layer_type=t + "1d", n=a["n"], normalize=normalize, features=W, out_features=3,
                           periodicity=a["per"], kernel_size=a["ks"], stride=a["stride"], channels=a["ch"], segments=a["seg"], focus=fo)
            ctx.at(config=net_cfg)
            net = select(ctx, base_cfg(**net_cfg))
            x = img((4, a["ch"][0], W), k)
            net.eval()
            ctx.impl("forward", net, torch.tensor(x))
            refill_linear(net, 0.5)
            ns, sg = lst(a["n"], k), lst(a["seg"], k)
            models = [ConvM(KIND[t], 1, ns[i], sg[i], a["ch"][i], a["ch"][i + 1], a["ks"][i], per=None if t == "fourier" else a["per"], stride=a["stride"][i]) for i in range(k)]
            focus = lst(fo, k)

            def wrap(w, xx, bn):
                h, d, bad = xx, np.zeros_like(xx), np.zeros(len(xx), bool)
                outs = [h[:, :, -focus[0]:].reshape(len(xx), -1)]
                for i, m in enumerate(models):
                    h, d, bad = w.chain([m, bn], h, d, bad)
                    q = -focus[i + 1] if i + 1 < k else -h.shape[-1]
                    outs.append(h[:, :, q:].reshape(len(xx), -1))
                v = np.concatenate(outs, 1) if tail else h.reshape(len(xx), -1)
                return w.chain([LinearM(v.shape[1], 3)], v, np.zeros_like(v), bad)
            net_check(ctx, net_cfg["model_type"], net, x, [], k + 1, wrap)


def make(ctx, kind, cfg):
    from high_order_layers_torch import modules as HM
    return ctx.impl("constructing the training module", HM.ClassificationNet if kind == "classification" else HM.RegressionNet, cfg)


def opt_cfg(name, sched, lr=1e-2, patience=2, factor=0.5, gamma=0.9, **net):
    cfg = base_cfg(**(net or high_cfg("high_order", "continuous", False, 1)))
    cfg.optimizer = dict(name=name, lr=lr, scheduler=sched, patience=patience, factor=factor, gamma=gamma)
    return cfg


def c25_models(ctx):
    for bad in sorted(edits("high_order") | edits("high_order_input") | edits("high_order_conv") | edits("high_order_tail_focus")):
        if bad in ("high_order", "high_order_input", "high_order_conv", "high_order_tail_focus"):
            continue
        from high_order_layers_torch import modules as HM
        cfg = base_cfg(**high_cfg(bad, "continuous", False))
        ctx.at(model_type=bad)
        ctx.rejects(f"model type {bad!r}", lambda: HM.select_network(cfg))
        ctx.state(bad)
        ctx.step()
        ctx.trace()
        ctx.outcome(bad)


def unpack(o):
    """optimizer, scheduler dict of any form that Lightning accepts"""
    if isinstance(o, torch.optim.Optimizer):
        return o, None
    if isinstance(o, dict):
        s = o.get("lr_scheduler")
        return o["optimizer"], s if isinstance(s, dict) or s is None else dict(scheduler=s)
    opts, scheds = o
    s = scheds[0] if scheds else None
    return opts[0], s if isinstance(s, dict) or s is None else dict(scheduler=s)


def c25_optimizers(ctx):
    from lion_pytorch import Lion
    for kind, name, sched, lr in itertools.product(("classification", "regression"), ("adam", "lion"), ("plateau", "exponential", None, "none", "other"), (1e-4, 0.3)):
        ctx.at(kind=kind, optimizer=name, scheduler=sched)
        net = make(ctx, kind, opt_cfg(name, sched, lr, 3, 0.25, 0.75))
        opt, sd = unpack(ctx.impl("configure_optimizers", net.configure_optimizers))
        ctx.require(type(opt) is (torch.optim.Adam if name == "adam" else Lion), f"{name} gives a {type(opt).__name__}")
        ctx.require([g["lr"] for g in opt.param_groups] == [lr], f"learning rate {[g['lr'] for g in opt.param_groups]} instead of {lr}")
        ctx.require({id(p) for g in opt.param_groups for p in g["params"]} == {id(p) for p in net.parameters()}, "the optimizer does not train all parameters")
        if sched == "plateau":
            ctx.require(isinstance(sd["scheduler"], torch.optim.lr_scheduler.ReduceLROnPlateau), "no plateau scheduler")
            ctx.require(sd.get("monitor") == "train_loss", "the plateau scheduler does not watch the training loss")
        elif sched == "exponential":
            ctx.require(isinstance(sd["scheduler"], torch.optim.lr_scheduler.ExponentialLR), "no exponential scheduler")
        else:
            ctx.require(sd is None, "a scheduler appears that was not asked for")
        if sd:
            ctx.require(sd["scheduler"].optimizer is opt, "the scheduler drives another optimizer")
        ctx.state(kind, name, sched, lr)
        ctx.step()
        ctx.trace()
        ctx.outcome(name, sched)
    for bad in sorted(edits("adam") | edits("lion") | {"sgd", "sophia"}):
        net = make(ctx, "regression", opt_cfg(bad, "plateau"))
        ctx.at(optimizer=bad)
        ctx.rejects(f"optimizer {bad!r}", net.configure_optimizers)
        ctx.state(bad)
        ctx.step()
        ctx.trace()


def c25_lr(ctx):
    """all loss histories over {better, equal, worse}: the learning rate follows the documented rule"""
    depth = 6 if ctx.thorough else 5
    for name, patience, factor in itertools.product(("adam", "lion"), (0, 1, 2), (0.5, 0.1)):
        for seq in itertools.product("bew", repeat=depth):
            ctx.at(patience=patience, factor=factor, losses="".join(seq))
            net = PLAIN.setdefault("net", None) or make(ctx, "regression", opt_cfg(name, "plateau"))
            PLAIN["net"] = net
            net.cfg = opt_cfg(name, "plateau", 1.0, patience, factor)
            opt, sd = unpack(ctx.impl("configure_optimizers", net.configure_optimizers))
            loss, best, bad, lr = 100.0, float("inf"), 0, 1.0
            for s in seq:
                if s == "b":
                    loss = min(loss, best) * 0.5 if best < float("inf") else loss * 0.5
                elif s == "w":
                    loss = loss * 2.0
                else:
                    loss = best if best < float("inf") else loss
                sd["scheduler"].step(loss)
                if loss < best * (1 - 1e-4):
                    best, bad = loss, 0
                else:
                    bad += 1
                if bad > patience:
                    lr, bad = lr * factor, 0
                ctx.close("learning rate after a loss history", opt.param_groups[0]["lr"], lr, 1e-9)
                ctx.step()
                ctx.state(name, patience, factor, best, bad, lr)
            ctx.trace()
            ctx.outcome(lr)
    for gamma, k in itertools.product((0.9, 0.5, 1.0), range(5)):
        net.cfg = opt_cfg("adam", "exponential", 0.2, gamma=gamma)
        opt, sd = unpack(net.configure_optimizers())
        for _ in range(k):
            opt.step()
            sd["scheduler"].step()
        ctx.close("learning rate of the exponential decay", opt.param_groups[0]["lr"], 0.2 * gamma ** k, 1e-9)
        ctx.step()


def c25_lr_values(ctx):
    """wide ranges of the parameters of the schedules, against the scheduler of PyTorch with these parameters"""
    net = make(ctx, "regression", opt_cfg("adam", "plateau"))

    def loss_at(k, shape):
        return {"flat": 1.0, "up": 1.0 + k, "down": 1.0 / (1 + k), "slow": 1.0 - 5e-5 * k, "saw": 1.0 + (k % 7) * 0.1 - 0.001 * k, "negative": -1.0 - 0.5 * (k % 11), "zero": 0.0, "tiny": 1e-12 * (k % 5),
                "late": 1.0 if k < 20 else 0.5}[shape]
    P = list(range(0, 31)) + [40, 50, 64, 99, 100, 101, 128, 250]
    FAC = [0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 0.7, 0.75, 0.9, 0.95, 0.99, 0.999]
    LRS = [1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 3e-3, 1e-2, 0.1, 0.5, 1.0, 2.0, 10.0]
    cases = [(p, 0.5, 1.0, s) for p in P for s in ("flat", "up", "slow", "saw", "late")] + [(2, f, 1.0, s) for f in FAC for s in ("flat", "saw", "negative")] + \
            [(3, 0.5, lr, s) for lr in LRS for s in ("flat", "down", "zero", "tiny")] + [(p, f, lr, "saw") for p in (0, 5, 10, 11) for f in (0.1, 0.9) for lr in (1e-4, 1.0)]
    for patience, factor, lr, shape in cases:
        for name in ("adam", "lion"):
            ctx.at(optimizer=name, patience=patience, factor=factor, lr=lr, losses=shape)
            net.cfg = opt_cfg(name, "plateau", lr, patience, factor)
            opt, sd = unpack(ctx.impl("configure_optimizers", net.configure_optimizers))
            want = torch.optim.SGD([nn.Parameter(torch.zeros(1))], lr=lr)
            sc = torch.optim.lr_scheduler.ReduceLROnPlateau(want, patience=patience, factor=factor)
            for k in range(2 * patience + 12 if patience < 60 else patience + 5):
                sd["scheduler"].step(loss_at(k, shape))
                sc.step(loss_at(k, shape))
                ctx.close("learning rate along the plateau schedule", opt.param_groups[0]["lr"], want.param_groups[0]["lr"], 1e-9 * want.param_groups[0]["lr"], step=k)
                ctx.step()
        ctx.state(patience, factor, lr, shape)
        ctx.trace()
        ctx.outcome(patience, factor, lr, want.param_groups[0]["lr"])
    for gamma, lr, name in itertools.product([0.01, 0.1, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999, 1.0, 1.1], LRS, ("adam", "lion")):
        ctx.at(gamma=gamma, lr=lr, optimizer=name)
        net.cfg = opt_cfg(name, "exponential", lr, gamma=gamma)
        opt, sd = unpack(ctx.impl("configure_optimizers", net.configure_optimizers))
        for k in range(1, 41):
            opt.step()
            sd["scheduler"].step()
            ctx.close("learning rate of the exponential decay", opt.param_groups[0]["lr"], lr * gamma ** k, 1e-6 * lr * gamma ** k)
            ctx.step()
        ctx.state(gamma, lr, name)
        ctx.trace()
    # every other parameter of the optimizers is the default of its library
    from lion_pytorch import Lion
    for name, cls in (("adam", torch.optim.Adam), ("lion", Lion)):
        for lr in LRS:
            net.cfg = opt_cfg(name, None, lr)
            opt, sd = unpack(ctx.impl("configure_optimizers", net.configure_optimizers))
            plain = cls([nn.Parameter(torch.zeros(1))], lr=lr)
            for k, v in plain.param_groups[0].items():
                if k != "params":
                    ctx.require(opt.param_groups[0].get(k) == v, f"{name}: option {k} is {opt.param_groups[0].get(k)} instead of {v}")
            ctx.step()


def c25_loss_sizes(ctx, kind):
    """losses and accuracy for every batch size and number of classes in a wide range"""
    steps = {"train": "training_step", "val": "validation_step", "test": "test_step"}
    sizes = list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 256, 257, 500, 1000, 1025]
    cases = [(b, 3) for b in sizes] + [(b, c) for b in (1, 2, 7, 40) for c in (1, 2, 4, 5, 8, 10, 11, 17, 32, 100, 101)]
    nets = {}
    for (b, c), mag in itertools.product(cases, (1.0, 40.0)):
        if kind == "classification" and c == 1:
            continue
        if (c, mag) not in nets:
            cfg = base_cfg(**high_cfg("high_order", "continuous", False, 1, width=(2, 4, c)))
            cfg.data.classes = c
            nets[c, mag] = refill(make(ctx, kind, cfg), 0.6)
            with torch.no_grad():
                nets[c, mag].model.output_layer.w.mul_(mag)
        net = nets[c, mag]
        log = logged(net)
        x = torch.tensor(xin(2, b, b % 7))
        out = net.model(x).detach().double().numpy()
        for which in ("right", "wrong", "mixed"):
            ctx.at(kind=kind, batch=b, classes=c, labels=which, magnitude=mag)
            if kind == "classification":
                right = out.argmax(1)
                lab = right if which == "right" else (right + 1) % c if which == "wrong" else np.where(np.arange(b) % 3 == 0, (right + 1 + np.arange(b) % (c - 1)) % c, right)
                m = out.max(1)
                want = float(np.mean(m + np.log(np.exp(out - m[:, None]).sum(1)) - out[np.arange(b), lab]))
                srt = np.sort(out, 1)
                close = ((srt[:, -1] - srt[:, -2]) < 1e-5 * (1 + np.abs(m))).sum()
                acc = float((right == lab).mean())
                y = torch.tensor(lab)
            else:
                t = {"right": out, "wrong": out + 3.0, "mixed": ref.fill((b, c), 2.0, 0.3).astype(float)}[which]
                y = torch.tensor(t, dtype=torch.float32)
                want = float(((out - y.double().numpy()) ** 2).mean())
            for (stage, fn), mode in itertools.product(steps.items(), ("train", "eval")):
                getattr(net, mode)()
                log.clear()
                loss = ctx.impl(fn, getattr(net, fn), (x, y), b)
                tol = 2e-5 * (1 + np.abs(out).max() + want)
                ctx.close("loss", float(loss), want, tol, stage=stage)
                ctx.close("reported loss", log[f"{stage}_loss"], want, tol, stage=stage)
                if kind == "classification":
                    ctx.close("reported accuracy", log[f"{stage}_acc"], acc, 1e-6 + close / b, stage=stage)
                ctx.step()
            ctx.state(b, c, which, mag)
            ctx.trace()
            ctx.outcome(round(want, 4))


def c25_evaluation(ctx, kind):
    """a whole fit with validation, then validation and test runs: validation does not disturb training and
    reports the average over the data"""
    import pytorch_lightning as pl
    from torch.utils.data import DataLoader, TensorDataset
    for normalize, bs, N in itertools.product((False, True), (4, 5, 12), (12, 13)):
        if normalize and N % bs == 1:
            continue
        nc = high_cfg("high_order", "continuous", normalize, 1, width=(2, 4, 3 if kind == "classification" else 1))
        x = torch.tensor(xin(2, N, 3))
        y = torch.tensor((np.arange(N) * 7 % 5) % 3) if kind == "classification" else torch.tensor(xin(1, N, 5))
        cfg = opt_cfg("adam", "plateau", 1e-2, 1, 0.5, 0.9, **nc)
        ctx.at(config=nc, batch=bs, samples=N)
        nets = []
        for val in (False, True):
            torch.manual_seed(3)
            net = make(ctx, kind, cfg)
            net.eval()
            net(x)
            net.train()
            d = tempfile.mkdtemp()
            tr = pl.Trainer(max_epochs=3, logger=False, enable_checkpointing=False, enable_progress_bar=False, enable_model_summary=False, default_root_dir=d, accelerator="cpu", num_sanity_val_steps=1)
            dl = DataLoader(TensorDataset(x, y), batch_size=bs)
            vx = torch.tensor(xin(2, 9, 1))
            vy = torch.tensor(np.arange(9) % 3) if kind == "classification" else torch.tensor(xin(1, 9, 2))
            vl = DataLoader(TensorDataset(vx, vy), batch_size=4)
            ctx.impl("Trainer.fit", tr.fit, net, dl, *((vl,) if val else ()))
            nets.append(net)
            if val:
                for stage, fn in (("val", tr.validate), ("test", tr.test)):
                    before = {k: v.clone() for k, v in net.state_dict().items()}
                    rep = ctx.impl(fn.__name__, fn, net, vl, verbose=False)[0]
                    for k, v in net.state_dict().items():
                        if "accuracy" not in k:
                            ctx.same(f"{fn.__name__} changed the network", v, before[k])
                    net.eval()
                    out = net(vx).detach()
                    if kind == "classification":
                        want = {f"{stage}_loss": float(F.cross_entropy(out, vy)), f"{stage}_acc": float((out.argmax(1) == vy).double().mean())}
                    else:
                        want = {f"{stage}_loss": float(((out - vy) ** 2).mean())}
                    ctx.require(set(rep) == set(want), f"{fn.__name__} reports {sorted(rep)}")
                    for k in want:
                        ctx.close(f"{k} over the data", rep[k], want[k], 1e-5 * (1 + abs(want[k])))
                    ctx.step()
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)
        for (k, a), (_, b) in zip(nets[0].state_dict().items(), nets[1].state_dict().items()):
            if "accuracy" not in k:
                ctx.close(f"training with and without validation: {k}", b.double().numpy(), a.double().numpy(), 1e-6 * (1 + float(a.double().abs().max())))
        ctx.state(normalize, bs, N)
        ctx.trace()
        ctx.outcome(kind, normalize, bs, N)


PLAIN = {}


def logged(net):
    log = {}
    net.log = lambda name, value, *a, **k: log.__setitem__(name, float(value))
    net.log_dict = lambda d, *a, **k: log.update({n: float(v) for n, v in d.items()})
    return log


def c25_losses(ctx, kind):
    steps = {"train": "training_step", "val": "validation_step", "test": "test_step"}
    if kind == "classification":
        net = make(ctx, kind, base_cfg(**high_cfg("high_order", "continuous", False, 1)))
        refill(net, 0.6)
        log = logged(net)
        for b in (1, 2, 3, 4) if not ctx.thorough else (1, 2, 3, 4, 5, 6):
            x = torch.tensor(xin(2, b, b))
            p = net.model(x).detach().double().numpy()
            lse = np.log(np.exp(p).sum(1))
            for labels in itertools.product(range(3), repeat=b):
                for shape in ((b,), (b, 1)):
                    for stage, fn in steps.items():
                        ctx.at(batch=b, labels=list(labels), stage=stage)
                        log.clear()
                        y = torch.tensor(labels).reshape(shape)
                        loss = ctx.impl(fn, getattr(net, fn), (x, y), 0)
                        want = float(np.mean([lse[i] - p[i, l] for i, l in enumerate(labels)]))
                        acc = float(np.mean(p.argmax(1) == np.array(labels)))
                        ctx.close("classification loss", float(loss), want, 1e-5)
                        ctx.require(set(log) == {f"{stage}_loss", f"{stage}_acc"}, f"{fn} reports {sorted(log)}")
                        ctx.close("reported loss", log[f"{stage}_loss"], want, 1e-5)
                        ctx.close("reported accuracy", log[f"{stage}_acc"], acc, 1e-6)
                        ctx.require(loss.requires_grad, "the loss cannot be differentiated")
                        ctx.step()
                ctx.state(b, labels)
                ctx.trace()
                ctx.outcome(acc)
    else:
        for out in (1, 3):
            net = make(ctx, kind, base_cfg(**high_cfg("high_order", "continuous", False, 1, width=(2, 4, out))))
            refill(net, 0.6)
            log = logged(net)
            for b in (1, 2, 3):
                x = torch.tensor(xin(2, b, b))
                p = net.model(x).detach().double().numpy()
                if b * out > (9 if ctx.thorough else 6):
                    continue
                for tgt in itertools.product((-1.0, 0.0, 2.5), repeat=b * out):
                    t = np.array(tgt).reshape(b, out)
                    shapes = ((b, out),) if out > 1 else ((b, 1), (b,))
                    for shape in shapes:
                        for stage, fn in steps.items():
                            ctx.at(batch=b, targets=list(tgt), stage=stage)
                            log.clear()
                            loss = ctx.impl(fn, getattr(net, fn), (x, torch.tensor(t.reshape(shape), dtype=torch.float32)), 0)
                            want = float(((p - t) ** 2).mean())
                            ctx.close("regression loss", float(loss), want, 1e-5 * (1 + want))
                            ctx.require(set(log) == {f"{stage}_loss"}, f"{fn} reports {sorted(log)}")
                            ctx.close("reported loss", log[f"{stage}_loss"], want, 1e-5 * (1 + want))
                            ctx.step()
                    ctx.state(out, b, tgt)
                    ctx.trace()
                    ctx.outcome(round(want, 5))


def c25_fit(ctx, kind, name, sched):
    """training through Lightning against a plain loop; checkpoints restore the module"""
    import pytorch_lightning as pl
    from torch.utils.data import DataLoader, TensorDataset
    for (mt, normalize, t), epochs, bs in itertools.product((("high_order", False, "continuous"), ("high_order", True, "discontinuous"), ("high_order_input", True, "continuous"),
                                                            ("high_order_conv", False, "continuous1d"), ("high_order_tail_focus", False, "polynomial1d")), (1, 3), (4, 12)):
        if mt in ("high_order", "high_order_input"):
            nc = high_cfg(mt, t, normalize, 1, width=(2, 4, 3 if kind == "classification" else 1))
            x = torch.tensor(xin(2, 12, 3))
        else:
            nc = dict(model_type=mt, layer_type=t, n=3, normalize=normalize, features=9, out_features=3 if kind == "classification" else 1, periodicity=2.0,
                      kernel_size=[2, 3], stride=[1, 2], channels=[1, 2, 3], segments=[2, 3], focus=[2, 1])
            x = torch.tensor(img((12, 1, 9), 2))
        y = torch.tensor([0, 1, 2, 2, 1, 0, 1, 1, 0, 2, 0, 1]) if kind == "classification" else torch.tensor(xin(1, 12, 5))
        cfg = opt_cfg(name, sched, 1e-2, 0, 0.5, 0.9, **nc)
        ctx.at(config=nc, optimizer=name, scheduler=sched, epochs=epochs, batch=bs)
        torch.manual_seed(3)
        net = make(ctx, kind, cfg)
        net.eval()
        net(x)
        net.train()
        torch.manual_seed(3)
        twin = make(ctx, kind, cfg)
        twin.eval()
        twin(x)
        twin.train()
        twin.load_state_dict(net.state_dict())
        d = tempfile.mkdtemp()
        tr = pl.Trainer(max_epochs=epochs, logger=False, enable_checkpointing=False, enable_progress_bar=False, enable_model_summary=False, default_root_dir=d, accelerator="cpu")
        ctx.impl("Trainer.fit", tr.fit, net, DataLoader(TensorDataset(x, y), batch_size=bs))
        # plain loop
        from lion_pytorch import Lion
        opt = (torch.optim.Adam if name == "adam" else Lion)(twin.model.parameters(), lr=1e-2)
        sc = {"plateau": lambda: torch.optim.lr_scheduler.ReduceLROnPlateau(opt, patience=0, factor=0.5), "exponential": lambda: torch.optim.lr_scheduler.ExponentialLR(opt, 0.9)}.get(sched, lambda: None)()
        for _ in range(epochs):
            for i in range(0, 12, bs):
                out = twin.model(x[i:i + bs])
                loss = F.cross_entropy(out, y[i:i + bs]) if kind == "classification" else ((out.flatten() - y[i:i + bs].flatten()) ** 2).mean()
                opt.zero_grad()
                loss.backward()
                opt.step()
                ctx.step()
            if sched == "plateau":
                sc.step(loss.detach())
            elif sc is not None:
                sc.step()
        ctx.close("learning rate after training", tr.optimizers[0].param_groups[0]["lr"], opt.param_groups[0]["lr"], 1e-9)
        net.eval()
        twin.eval()
        a, b = net(x).detach(), twin(x).detach()
        ctx.close("module trained by Lightning against the plain loop", a.double().numpy(), b.double().numpy(), 1e-4 * (1 + float(b.abs().max())))
        # the saved module restores with its configuration
        path = os.path.join(d, "m.ckpt")
        ctx.impl("save_checkpoint", tr.save_checkpoint, path)
        back = ctx.impl("load_from_checkpoint", type(net).load_from_checkpoint, path, weights_only=False)
        back.eval()
        ctx.close("module restored from a checkpoint", back(x).detach().double().numpy(), a.double().numpy(), 1e-6 * (1 + float(a.abs().max())))
        ctx.require(back.cfg == cfg, "the configuration was not restored")
        ctx.states(1)
        ctx.trace()
        ctx.outcome(a.numpy().tobytes())
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def c25(task, ctx):
    p = task["part"]
    if p == "high_order":
        c25_high(ctx, task["type"])
    elif p == "high_order_input":
        c25_input(ctx, task["type"])
    elif p in ("high_order_conv", "high_order_tail_focus"):
        c25_conv(ctx, task["type"], p.endswith("focus"))
    elif p == "fit":
        c25_fit(ctx, task["kind"], task["name"], task["scheduler"])
    elif p in ("losses", "loss_sizes", "evaluation"):
        globals()["c25_" + p](ctx, task["kind"])
    else:
        globals()["c25_" + p](ctx)
    ctx.sample(task)


T = ["float32 CPU tensors", "PyTorch, Lightning, OmegaConf and lion_pytorch trusted"]
PROPS = {
    "C24": Prop("C24", c24_tasks, c24, "every registered layer name with the full option set; all names one edit away from a registered name; all combinations of list lengths in range", T),
    "C25": Prop("C25", c25_tasks, c25, "grid of network configurations of every model type; all loss histories up to the stated depth for the schedules; all label assignments for small batches; optimizer x schedule x epochs x batch size against a plain loop", T),
}
