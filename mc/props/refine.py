"""C09-C13: refinement, smoothing and initialization."""
import copy
import itertools
import random

import numpy as np
import torch

from high_order_layers_torch import layers as HL
from high_order_layers_torch import networks as HN
from high_order_layers_torch import PolynomialLayers as PL
from mc import ref, sched
from mc.core import Prop
from mc.models import FC, SwitchM, TYPE, refill


def w64(layer):
    return layer.w.detach().double().numpy().copy()


def node_positions(kind, n, segs, length):
    """x of every weight of a link, and the segment that owns it"""
    half, h = length / 2, length / segs
    X = ref.nodes(n)
    xs, own = [], []
    V = ref.num_weights(kind, n, segs)
    for s in range(segs):
        for k in range(n):
            if kind == "cont" and s > 0 and k == 0:
                continue
            xs.append(-half + s * h + (X[k] + 1) * 0.5 * h)
            own.append(s)
    assert len(xs) == V, (kind, n, segs)
    return np.array(xs), np.array(own)


def eval_link(kind, n, segs, length, w, x, seg):
    """w [o,i,V], x [m], seg [m] -> values [o,i,m] and bounds"""
    t, L, D, S, dt = ref.basis_at(kind, n, segs, length, x, seg)
    idx = ref.wrap(kind, n, segs, seg)[:, None] + np.arange(n)
    ws = w[:, :, idx]  # [o,i,m,n]
    val = np.einsum("oimn,mn->oim", ws, L)
    tol = ref.C * np.einsum("oimn,mn->oim", np.abs(ws), ref.EPS * S + np.abs(D) * (dt[:, None] + 4 * ref.EPS * segs))
    return val, tol + 1e-30


def predicted_weights(src, dst, w):
    """reference p/h/hp refinement: the new weights are the old function at the new nodes.
    src, dst: (kind, n, segments, length)"""
    kind, n, segs, length = src
    kind2, n2, segs2, length2 = dst
    x, own = node_positions(kind2, n2, segs2, length2)
    if kind == "disc":
        assert segs == segs2
        return eval_link(kind, n, segs, length, w, x, own)
    seg, alt = ref.locate(x, segs, length)
    v, t = eval_link(kind, n, segs, length, w, x, seg)
    v2, t2 = eval_link(kind, n, segs, length, w, x, alt)
    return v, np.maximum(t, t2) + np.abs(v - v2)


def inherited(dst, tolw, x):
    """effect on the links [b,o,i] of errors tolw of the weights"""
    kind, n, segs, length = dst
    seg, alt = ref.locate(x, segs, length)
    out = 0
    for sg in (seg, alt):
        t, L, D, S, dt = ref.basis_at(kind, n, segs, length, x, sg)
        idx = ref.wrap(kind, n, segs, sg)[..., None] + np.arange(n)
        ins = np.arange(x.shape[1])[None, :, None]
        ws = tolw[:, ins, idx]
        out = np.maximum(out, np.einsum("obin,bin->boi", ws, np.abs(L)))
    return out


def points(n, segs, length, per, i, cap):
    sp = ref.special_points(n, segs, length, outside=(1.05, 1.5, 2.5) if n <= 4 else (1.05,))
    if per is not None:
        sp = np.unique(np.concatenate([sp, sp * np.float32(3.0)]))
    if len(sp) > cap:
        sp = sp[np.unique(np.linspace(0, len(sp) - 1, cap).astype(int))]
    if i == 1:
        return sp[:, None]
    m = len(sp)
    cols = []
    for c in range(i):
        s = 2 * c + 1
        while np.gcd(s, m) != 1:
            s += 1
        cols.append(sp[(np.arange(m) * s + 5 * c) % m])
    return np.stack(cols, 1)


def same_function(ctx, what, A, a, B, b, tolw, x):
    """layer b computes the function of layer a (A, B: FC models)"""
    kind, n2, segs2, i, o, length, per, prod = B.a
    ya = ctx.impl("forward", a, torch.tensor(x)).detach().double().numpy()
    yb = ctx.impl("forward", b, torch.tensor(x)).detach().double().numpy()
    ctx.require(ya.shape == yb.shape, f"{what}: shape")
    xd = x.astype(np.float64)
    dx = 0.0
    if per is not None:
        dx = ref.fold_err(xd, per)
        xd = ref.fold(xd, per)
    fa, ta, sa = A.predict(a, x)
    fb, tb, sb = B.predict(b, x)
    inh = inherited((kind, n2, segs2, length), tolw, xd)
    if prod:
        f, t, _, _ = ref.links(kind, n2, segs2, w64(b), xd, length, dx)
        _, extra = ref.prod_value(f, t + inh)
    else:
        extra = inh.sum(-1)
    keep = ~(sa | sb)
    ctx.close(what, yb[keep], ya[keep], (2 * (ta + tb) + 2 * extra)[keep])
    ctx.step(len(x))
    ctx.trace()
    ctx.outcome(np.round(yb, 3).tobytes())


def copies(task, ctx, h):
    """switch layers with any number of layers; a layer refined into itself or into one with the same weights"""
    kind = task["kind"]
    t = "continuous" if kind == "cont" else "discontinuous"
    for num, n, n2, s, (i, o), length in itertools.product((1, 2, 3, 5), (2, 3), (2, 5) if h else (2, 3, 5), (1, 2) if h else (1, 2, 3), ((1, 1), (2, 3)), (3.0,) if h else (2.0, 3.0)):
        s2 = 2 * s if h else s
        for base in (t, t + "_prod"):
            prod = base.endswith("prod")
            ctx.at(switch=base, copies=num, n=n, segments=s, to=[n2, s2], inputs=i, outputs=o, length=length)
            a, b = (ctx.impl("constructing", HL.SwitchLayer, layer_type=base, n=q, in_features=i, out_features=o, segments=r, num_input_layers=num, scale=length) for q, r in ((n, s), (n2, s2)))
            refill(a, 0.8), refill(b, 0.8, 0.33)
            before = [w64(q) for q in net_layers(a)]
            ctx.require(len(before) == num and len(net_layers(b)) == num, "number of layers of the switch layer")
            ctx.impl("refinement", a.refine if h else a.interpolate, b)
            for q, r, w in zip(net_layers(a), net_layers(b), before):
                unchanged(ctx, "refinement of the source: it", q, w)
                want, tolw = predicted_weights((kind, n, s, length), (kind, n2, s2, length), w)
                ctx.close("weights of the layers of a switch layer after refinement", w64(r), want, tolw + 4 * ref.EPS * (np.abs(want) + prod))
            ctx.step(num)
            ctx.trace()
            ctx.states(1)
    for prod, n, s, (i, o), length, tied in itertools.product((False, True), (2, 3, 4, 5), (1, 2, 3, 5), ((1, 1), (2, 3), (4, 2)), (2.0, 3.0), (False, True)):
        A = FC(kind, n, s, i, o, length, None, prod)
        ctx.at(layer=A.name, into="one with the same weights" if tied else "itself")
        a = refill(ctx.impl("constructing", A.build), 0.8)
        b = a
        if tied:
            b = ctx.impl("constructing", A.build)
            b.w = a.w
        before = w64(a)
        ctx.impl("refinement into itself", a.refine if h else a.interpolate, b)
        _, tolw = predicted_weights((kind, n, s, length), (kind, n, s, length), before)
        ctx.close("weights after refinement into itself", w64(a), before, 4 * tolw + 16 * ref.EPS * (np.abs(before) + prod))
        ctx.require(a.w is b.w, "refinement replaced the weights")
        ctx.step()
        ctx.trace()
        ctx.states(1)
    ctx.sample(task)


def unchanged(ctx, what, layer, before):
    ctx.require(np.array_equal(w64(layer), before), f"{what} changed weights it must not touch")


# ---------------------------------------------------------------- C09
def c09_tasks(tier):
    out = []
    top = 6 if tier == "quick" else 9
    for kind in ("cont", "disc"):
        for prod in (False, True):
            for n in range(1 if kind == "disc" else 2, top + 1):
                out.append(dict(part="layer", kind=kind, prod=prod, n=n, cost=n))
    for t in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "switch_continuous", "switch_discontinuous"):
        for h in (0, 1, 2, 3):
            out.append(dict(part="net", type=t, hidden=h))
    out.append(dict(part="polynomial"))
    out += [dict(part="copies", kind=k) for k in ("cont", "disc")]
    out += [dict(part="mixed", first=t, cost=10) for t in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "switch_continuous", "switch_discontinuous", "polynomial")]
    out += [dict(part="values", kind=k, prod=p, cost=10) for k in ("cont", "disc") for p in (False, True)]
    out += [dict(part="ladder", kind=k, prod=p, what=q) for k in ("cont", "disc") for p in (False, True) for q in ("pieces", "in", "out", "order")]
    return out


SIZES = list(range(1, 20)) + [24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 256]


def ladder_pairs(kind, what, h):
    """(n, segments, n', segments', inputs, outputs)"""
    if what == "pieces":
        for s in SIZES[5:]:
            for n, n2 in ((2, 3), (3, 3), (2, 2), (3, 5)):
                yield n, s, n2, s, 1, 1
                if h:
                    yield n, s, n2, 2 * s, 1, 1
                    yield n, 1, n2, s, 1, 1
                    yield n, 3, n2, 3 * s, 1, 1
    elif what == "order":
        for n in range(2, 13):
            for n2 in range(n, 13):
                for s in (1, 2, 3):
                    yield n, s, n2, s * (3 if h else 1), 1, 2
    else:
        for v in SIZES:
            for n, n2, s in ((2, 3, 2), (3, 3, 3)):
                yield (n, s, n2, s * (2 if h else 1)) + ((v, 2) if what == "in" else (2, v))
        if what == "in":
            for i, o in itertools.product(range(1, 8), repeat=2):
                yield (2, 3, 4, 3 * (2 if h else 1), i, o)


def ladder(task, ctx, h):
    kind, prod = task.get("kind", "cont"), task["prod"]
    k = 0
    for n, s, n2, s2, i, o in ladder_pairs(kind, task["what"], h):
        k += 1
        length = (2.0, 3.0, 0.7)[k % 3]
        A, B = FC(kind, n, s, i, o, length, None, prod), FC(kind, n2, s2, i, o, length, None, prod)
        ctx.at(source=A.name, target=B.name)
        sc = 0.8 if not prod else 0.8 / i ** 0.5
        a = refill(ctx.impl("constructing", A.build), sc)
        b = refill(ctx.impl("constructing", B.build), sc, 0.33)
        before = w64(a)
        ctx.impl("refinement", (lambda: a.refine(b)) if h else (lambda: a.interpolate(b)))
        unchanged(ctx, "refinement of the source: it", a, before)
        want, tolw = predicted_weights((kind, n, s, length), (kind, n2, s2, length), before)
        tolw = tolw + 4 * ref.EPS * (np.abs(want) + prod)
        ctx.close("weights after refinement (ladder)", w64(b), want, tolw)
        if i * o < 200:
            x = A.x(24, k) * np.float32(0.8)
            same_function(ctx, "refinement preserves the function (ladder)", A, a, B, b, tolw, x)
            ctx.states(len(x))
        ctx.step()
    ctx.sample(dict(task=task, steps=k))


def refine_values(task, ctx, h):
    """refinement of layers whose weights have special values, into targets that hold something else"""
    kind, prod = task.get("kind", "cont"), task["prod"]
    for n, n2, s, (i, o), per in itertools.product((1, 2, 3, 4), (1, 2, 3, 5), (1, 2, 3, 5), ((1, 1), (2, 3)), (None, 2.0)):
        if kind == "cont" and min(n, n2) < 2:
            continue
        for s2 in ((s,) if not h else (s, 2 * s, s + 1, 3)):
            A, B = FC(kind, n, s, i, o, 2.0, per, prod), FC(kind, n2, s2, i, o, 2.0, per, prod)
            src, dst = (kind, n, s, 2.0), (kind, n2, s2, 2.0)
            for values in WEIGHTS + tuple(range(s)):
                ctx.at(source=A.name, target=B.name, values=values)
                a = refill(ctx.impl("constructing", A.build), 0.8)
                b = refill(ctx.impl("constructing", B.build), 0.8, 0.33)
                if isinstance(values, int):
                    step = n if kind == "disc" else n - 1
                    with torch.no_grad():
                        a.w[..., values * step: values * step + n] = 0
                else:
                    special(a, values)
                before = w64(a)
                ctx.impl("refinement", (lambda: a.refine(b)) if h else (lambda: a.interpolate(b)))
                unchanged(ctx, "refinement of the source: it", a, before)
                want, tolw = predicted_weights(src, dst, before)
                tolw = tolw + 4 * ref.EPS * (np.abs(want) + prod) + 1e-30
                ctx.close("weights after refinement (special values)", w64(b), want, tolw)
                ctx.step()
                ctx.trace()
            ctx.state(A.name, B.name)
            ctx.outcome(A.name, B.name)
    ctx.sample(task)


def c09(task, ctx):
    if task["part"] == "values":
        return refine_values(task, ctx, False)
    if task["part"] == "ladder":
        return ladder(task, ctx, False)
    if task["part"] == "copies":
        return copies(task, ctx, False)
    if task["part"] == "mixed":
        return refine_mixed(task, ctx, False)
    if task["part"] == "net":
        return c09_net(task, ctx)
    if task["part"] == "polynomial":
        return c09_poly(task, ctx)
    kind, prod, n = task["kind"], task["prod"], task["n"]
    segset = (1, 2, 3, 4, 5, 8) if not ctx.thorough else tuple(range(1, 13)) + (16, 33)
    nmax = 8 if not ctx.thorough else 11
    for segs, n2 in itertools.product(segset, range(1 if kind == "disc" else 2, nmax + 1)):
        for (i, o), length, per in (((1, 1), 2.0, None), ((2, 3), 2.0, None), ((3, 1), 3.0, None), ((1, 2), 0.5, None), ((2, 2), 2.0, 2.0), ((1, 2), 4.0, 1.5)):
            A, B = FC(kind, n, segs, i, o, length, per, prod), FC(kind, n2, segs, i, o, length, per, prod)
            ctx.at(source=A.name, target=B.name)
            a = refill(ctx.impl("constructing", A.build), 0.8)
            b = refill(ctx.impl("constructing", B.build), 0.8, 0.33)
            before = w64(a)
            how = (segs + n2 + i) % 2
            ctx.impl("p refinement", (lambda: a.interpolate(b)) if how else (lambda: PL.interpolate_polynomial_layer(a, b)))
            unchanged(ctx, "p refinement of the source: it", a, before)
            src, dst = (kind, n, segs, length), (kind, n2, segs, length)
            want, tolw = predicted_weights(src, dst, before)
            tolw = tolw + 4 * ref.EPS * (np.abs(want) + prod)  # a product link evaluates (1 + f) - 1
            ctx.close("weights after p refinement", w64(b), want, tolw)
            ctx.require(b.w.requires_grad and b.w.is_leaf, "the refined weights are not trainable any more")
            if n2 >= n:
                x = points(max(n, n2), segs, length, per, i, 60 if not ctx.thorough else 150)
                same_function(ctx, "p refinement preserves the function", A, a, B, b, tolw, x)
                ctx.states(len(x))
            # refining again changes nothing, and later changes of the source do not reach the target
            w1 = w64(b)
            ctx.impl("p refinement", a.interpolate, b)
            unchanged(ctx, "repeating the p refinement", b, w1)
            with torch.no_grad():
                a.w.mul_(0.5)
            unchanged(ctx, "changing the source after the refinement", b, w1)
            ctx.step(2)
            # other numbers of segments are refused, and nothing is changed
            if i == 1:
                for s2 in {1, segs + 1, 2 * segs} - {segs}:
                    Cm = FC(kind, n2, s2, i, o, length, per, prod)
                    c = refill(Cm.build(), 0.4)
                    wc = w64(c)
                    wa = w64(a)
                    ctx.rejects("p refinement into another number of segments", lambda: a.interpolate(c))
                    unchanged(ctx, "a refused refinement", c, wc)
                    unchanged(ctx, "a refused refinement", a, wa)
                    ctx.step()
    ctx.sample(dict(kind=kind, n=n, segments=list(segset), n_out=[1, nmax]))


NORM = {None: None, "max_abs": HL.MaxAbsNormalization, "max_center": HL.MaxCenterNormalization}


def net(t, ns, segs, hidden, norm, widths=(2, 3, 2), scale=2.0, per=None):
    n_in, n_h, n_o = ns
    s_in, s_h, s_o = segs
    return HN.HighOrderMLP(layer_type=t, n=n_in, n_in=n_in, n_hidden=n_h, n_out=n_o, in_width=widths[0], hidden_width=widths[1], out_width=widths[2],
                           hidden_layers=hidden, in_segments=s_in, hidden_segments=s_h, out_segments=s_o, normalization=NORM[norm], scale=scale,
                           periodicity=per)


def net_layers(m):
    return [q for q in m.modules() if hasattr(q, "w")]


def xnet(i, b, which=0):
    k = b * i
    return (np.mod((np.arange(k) + 1 + 13 * which) * 0.7548776662466927 + 0.21 * which, 1.0) * 2 - 1).reshape(b, i).astype(np.float32)


def compare_nets(ctx, what, a, b, i, disc):
    """outputs agree; rows where rounding decides a segment are recognised by perturbation"""
    a.eval(), b.eval()
    x = torch.tensor(xnet(i, 40))
    with torch.no_grad():
        ya, yb = a(x), b(x)
        dev = torch.zeros(len(x))
        for k, e in enumerate((3e-6, -3e-6, 1e-6)):
            s = torch.tensor(np.where(np.mod(np.arange(x.numel()) * 0.618 + 0.3 * k, 1) < 0.5, -1, 1).reshape(x.shape), dtype=torch.float32)
            for q in (x + e * s, x * (1 + e)):
                dev = torch.maximum(dev, (a(q) - ya).abs().amax(1))
                dev = torch.maximum(dev, (b(q) - yb).abs().amax(1))
    big = ya.abs().amax(1)
    tol = 40 * dev + 2e-4 * (big + 1)
    keep = (dev < 2e-3 * (big + 1)).numpy()
    ctx.require(keep.sum() >= 8, f"{what}: too few comparable rows")
    t = np.broadcast_to(tol.double().numpy()[:, None], ya.shape)
    ctx.close(what, yb.double().numpy()[keep], ya.double().numpy()[keep], t[keep])
    ctx.step(len(x))
    ctx.trace()
    ctx.states(len(x))
    ctx.outcome(ya.numpy().tobytes())


def c09_net(task, ctx):
    t, h = task["type"], task["hidden"]
    disc = "disc" in t
    for ns, add in itertools.product(((2, 2, 2), (2, 3, 2), (3, 2, 4)), ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 1, 3))):
        for segs, norm, per in (((1, 1, 1), None, None), ((2, 3, 5), "max_abs", None), ((3, 2, 4), "max_center", None), ((2, 2, 2), None, 2.0)):
            if per and t.startswith("switch"):
                continue
            to = tuple(a + b for a, b in zip(ns, add))
            ctx.at(type=t, n=list(ns), n_out=list(to), segments=list(segs), norm=norm)
            a = ctx.impl("constructing", net, t, ns, segs, h, norm, per=per)
            b = ctx.impl("constructing", net, t, to, segs, h, norm, per=per)
            sc = 0.4 if norm is None else 0.8
            refill(a, sc / (2 if "prod" in t else 1))
            refill(b, sc, 0.41)
            before = [p.detach().clone() for p in a.parameters()]
            ctx.impl("network p refinement", HN.interpolate_high_order_mlp, a, b)
            for p, q in zip(a.parameters(), before):
                ctx.same("network refinement changed the source", p.detach(), q)
            # every link of every layer carries the function of its counterpart
            la, lb = net_layers(a), net_layers(b)
            ctx.require(len(la) == len(lb) and len(la) > 0, "layers")
            for k, (p, q) in enumerate(zip(la, lb)):
                kind = "disc" if disc else "cont"
                n1, n2 = p.n if hasattr(p, "n") else p._n, q.n if hasattr(q, "n") else q._n
                s = (p.w.shape[2] // n1) if disc else (p.w.shape[2] - 1) // (n1 - 1)
                want, tolw = predicted_weights((kind, n1, s, 2.0), (kind, n2, s, 2.0), w64(p))
                ctx.close("weights of the refined network", w64(q), want, tolw + 4 * ref.EPS * (np.abs(want) + 1), layer=k)
            compare_nets(ctx, "network p refinement preserves the outputs", a, b, 2, disc)
    ctx.sample(task)


def c09_poly(task, ctx):
    """single polynomial layers (one polynomial per link) take part in network refinement"""
    a = net("polynomial", (2, 2, 2), (1, 1, 1), 1, None)
    b = net("polynomial", (3, 3, 3), (1, 1, 1), 1, None)
    refill(a, 0.5)
    refill(b, 0.5, 0.3)
    ctx.impl("network p refinement", HN.interpolate_high_order_mlp, a, b)
    x = torch.tensor(xnet(2, 8))
    ctx.at(network="polynomial layers, n=2 -> n=3")
    ok = bool((a(x) - b(x)).abs().max() < 1e-4)
    ctx.step()
    ctx.trace()
    ctx.state(ok)
    ctx.outcome(ok)
    if not ok:
        ctx.finding("interpolate-polynomial-noop", "network p refinement of polynomial layers leaves the target as it was")


# ---------------------------------------------------------------- C10
def c10_tasks(tier):
    out = []
    for prod in (False, True):
        for n in range(2, 6 if tier == "quick" else 8):
            for s in (1, 2, 3, 4, 5) if tier == "quick" else range(1, 9):
                out.append(dict(part="layer", prod=prod, n=n, segments=s, cost=n * s))
    for t in ("continuous", "continuous_prod", "switch_continuous"):
        for h in (0, 1, 2):
            out.append(dict(part="net", type=t, hidden=h, cost=20))
    out.append(dict(part="disc"))
    out.append(dict(part="copies", kind="cont", cost=30))
    out += [dict(part="mixed", first=t, cost=10) for t in ("continuous", "continuous_prod", "switch_continuous", "polynomial")]
    out += [dict(part="values", prod=p, cost=40) for p in (False, True)]
    out += [dict(part="ladder", prod=p, what=q, cost=30) for p in (False, True) for q in ("pieces", "in", "out", "order")]
    return out


def c10(task, ctx):
    if task["part"] == "values":
        return refine_values(task, ctx, True)
    if task["part"] == "ladder":
        return ladder(task, ctx, True)
    if task["part"] == "copies":
        return copies(task, ctx, True)
    if task["part"] == "mixed":
        return refine_mixed(task, ctx, True)
    if task["part"] == "net":
        return c10_net(task, ctx)
    if task["part"] == "disc":
        return c10_disc(task, ctx)
    prod, n, segs = task["prod"], task["n"], task["segments"]
    s2set = (1, 2, 3, 4, 5, 6, 8, 10, 12) if not ctx.thorough else range(1, 17)
    for s2, n2 in itertools.product(s2set, range(2, 6 if not ctx.thorough else 8)):
        for (i, o), length, per in (((1, 1), 2.0, None), ((2, 2), 3.0, None), ((1, 2), 2.0, 2.0), ((2, 1), 4.0, 1.5), ((1, 1), 0.5, None)):
            A, B = FC("cont", n, segs, i, o, length, per, prod), FC("cont", n2, s2, i, o, length, per, prod)
            ctx.at(source=A.name, target=B.name)
            a = refill(ctx.impl("constructing", A.build), 0.8)
            b = refill(ctx.impl("constructing", B.build), 0.8, 0.33)
            before = w64(a)
            how = (s2 + n2 + i) % 2
            ctx.impl("h refinement", (lambda: a.refine(b)) if how else (lambda: PL.refine_polynomial_layer(layer_in=a, layer_out=b)))
            unchanged(ctx, "h refinement of the source: it", a, before)
            want, tolw = predicted_weights(("cont", n, segs, length), ("cont", n2, s2, length), before)
            tolw = tolw + 4 * ref.EPS * (np.abs(want) + prod)
            ctx.close("weights after h refinement", w64(b), want, tolw)
            ctx.require(b.w.requires_grad and b.w.is_leaf, "the refined weights are not trainable any more")
            ctx.step()
            if s2 % segs == 0 and n2 >= n:
                x = points(max(n, n2), s2, length, per, i, 60 if not ctx.thorough else 200)
                if per is None:  # the end pieces are continued by the same polynomial
                    pass
                same_function(ctx, "hp refinement preserves the function", A, a, B, b, tolw, x)
                ctx.states(len(x))
            w1 = w64(b)
            with torch.no_grad():
                a.w.mul_(0.5)
            unchanged(ctx, "changing the source after the refinement", b, w1)
    ctx.sample(dict(task=task))


def c10_net(task, ctx):
    t, h = task["type"], task["hidden"]
    for ns, add, segs, mul in itertools.product(((2, 2, 2), (3, 2, 3)), ((0, 0, 0), (1, 1, 1), (0, 2, 1)), ((1, 1, 1), (2, 3, 1)), ((1, 1, 1), (2, 2, 2), (3, 1, 2), (1, 4, 5))):
        for norm, per in ((None, None), ("max_abs", None), (None, 2.0)):
            if per and t.startswith("switch"):
                continue
            to = tuple(a + b for a, b in zip(ns, add))
            s2 = tuple(a * b for a, b in zip(segs, mul))
            ctx.at(type=t, n=list(ns), n_out=list(to), segments=list(segs), segments_out=list(s2), norm=norm)
            a = ctx.impl("constructing", net, t, ns, segs, h, norm, per=per)
            b = ctx.impl("constructing", net, t, to, s2, h, norm, per=per)
            sc = 0.4 if norm is None else 0.8
            refill(a, sc / (2 if "prod" in t else 1))
            refill(b, sc, 0.41)
            before = [p.detach().clone() for p in a.parameters()]
            ctx.impl("network hp refinement", HN.hp_refine_high_order_mlp, a, b)
            for p, q in zip(a.parameters(), before):
                ctx.same("network refinement changed the source", p.detach(), q)
            for k, (p, q) in enumerate(zip(net_layers(a), net_layers(b))):
                n1, n2 = p._n, q._n
                sa, sb = (p.w.shape[2] - 1) // (n1 - 1), (q.w.shape[2] - 1) // (n2 - 1)
                want, tolw = predicted_weights(("cont", n1, sa, 2.0), ("cont", n2, sb, 2.0), w64(p))
                ctx.close("weights of the refined network", w64(q), want, tolw + 4 * ref.EPS * (np.abs(want) + 1), layer=k)
            compare_nets(ctx, "network hp refinement preserves the outputs", a, b, 2, False)
    ctx.sample(task)


def c10_disc(task, ctx):
    for n, s, s2, prod in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 4, 5), (False, True)):
        a = refill(FC("disc", n, s, 2, 2, prod=prod).build(), 0.5)
        b = refill(FC("disc", n, s2, 2, 2, prod=prod).build(), 0.5, 0.3)
        wa, wb = w64(a), w64(b)
        ctx.at(n=n, segments=s, segments_out=s2)
        try:
            a.refine(b)
        except ValueError:
            # refused: nothing happened
            unchanged(ctx, "a refused h refinement", a, wa)
            unchanged(ctx, "a refused h refinement", b, wb)
        else:
            # accepted: then it has to be right between the nodes where no boundary interferes
            unchanged(ctx, "h refinement", a, wa)
            x, own = node_positions("disc", n, s2, 2.0)
            mid = [k for k in range(len(x)) if abs((x[k] + 1) / 2 * s - round((x[k] + 1) / 2 * s)) > 1e-3]
            seg = np.clip(np.floor((x + 1) / 2 * s), 0, s - 1).astype(int)
            v, t = eval_link("disc", n, s, 2.0, wa, x, seg)
            ctx.close("h refinement of a discontinuous layer", w64(b)[:, :, mid], v[:, :, mid], t[:, :, mid] + 1e-6)
        ctx.step()
        ctx.trace()
        ctx.states(1)
        ctx.outcome(n, s, s2, prod)
    ctx.sample(task)


# ---------------------------------------------------------------- C11: histories
def c11_tasks(tier):
    out = []
    depth = 3 if tier == "quick" else 4
    for t in C11_TYPES:
        for first in C11_OPS:
            if "disc" in t and first[0] == "h":
                continue
            out.append(dict(part="history", type=t, depth=depth, first=first, cost=40))
        for src, dst in itertools.product(range(5), repeat=2):
            out.append(dict(part="situation", type=t, src=src, dst=dst))
        pairs = [("p", 0, 1), ("p", 1, 2), ("p", 2, 0), ("p", 0, 4)] if "disc" in t else [("p", 0, 1), ("h", 1, 4), ("h", 3, 0), ("p", 2, 1), ("h", 0, 1), ("h", 0, 3)]
        if tier == "quick":
            pairs = pairs[:1] if "switch" in t else pairs[:2]
        if "switch" in t:
            pairs = pairs[:5]
        out += [dict(part=q, type=t, pair=p, cost=20) for q in ("faults", "threads") for p in pairs]
    return out


C11_TYPES = ("continuous", "continuous_prod", "switch_continuous", "discontinuous", "discontinuous_prod", "switch_discontinuous")
C11_OPS = ["p01", "p12", "h02", "h03", "h13", "s0", "s1", "s3", "p10", "h30", "h04", "h41", "s4"]


class World:
    """five networks, each with an optimizer that lives as long as the network"""

    def __init__(self, t, small=False):
        self.t, self.disc = t, "disc" in t
        self.kind = "disc" if self.disc else "cont"
        self.spec = [((2, 2, 2), (1, 2, 2)), ((3, 3, 4), (1, 2, 2)), ((4, 3, 4), (1, 2, 2)), ((3, 4, 3), (2, 4, 6)),
                     ((2, 3, 3), (1, 1, 1))]  # the weights of 4 have the shapes of those of 0
        if self.disc:
            self.spec[3] = ((4, 4, 4), (1, 2, 2))
            self.spec[4] = ((2, 2, 2), (1, 2, 2))
        self.shapes = {(3, 2): 0, (3, 3): 1, (2, 3): 2}
        if small:
            self.shapes = {(2, 1): 0, (1, 2): 2}
            self.nets = [refill(net(t, n, s, 0, None, (1, 2, 1), per=2.0), 0.6, 0.1 * k) for k, (n, s) in enumerate(self.spec)]
        else:
            self.nets = [refill(net(t, n, s, 1, "max_abs", per=(None, 2.0)[k % 2]), 0.6, 0.1 * k) for k, (n, s) in enumerate(self.spec)]
        for k, m in enumerate(self.nets):  # gradients left over from an earlier step, and different modes
            m.train(k % 2 == 0)
            for q, p in enumerate(m.parameters()):
                p.grad = torch.full_like(p, 0.01 * (k + 1) + 0.001 * q)
        self.opts = [torch.optim.SGD([p for p in m.parameters()], lr=0.05) for m in self.nets]
        self.x = torch.tensor([[-1.0], [-0.55], [0.15], [0.8], [1.3], [-1.75], [2.4]]).expand(7, 1 if small else 2) * torch.tensor([[1.0] if small else [1.0, -0.7]])
        self.fresh = copy.deepcopy(self.nets)

    def out(self, m):
        with torch.no_grad():
            return m(self.x)

    def same(self, ctx, what, k):
        """network k is the function that a network never involved in anything has with these weights"""
        with torch.no_grad():
            for p, q in zip(self.fresh[k].parameters(), self.nets[k].parameters()):
                p.copy_(q)
        ctx.require(World.equal(self.out(self.fresh[k]), self.out(self.nets[k])), f"{what}: network {k} is another function than its weights say")

    def wts(self, k):
        return [w64(q) for q in net_layers(self.nets[k])]

    def pred(self, src, dst, ws):
        res = []
        for w in ws:
            j = self.shapes[w.shape[:2]]
            a = (self.kind, self.spec[src][0][j], self.spec[src][1][j], 2.0)
            b = (self.kind, self.spec[dst][0][j], self.spec[dst][1][j], 2.0)
            res.append(predicted_weights(a, b, w))
        return res

    def refine(self, ctx, op, i, j):
        f = HN.interpolate_high_order_mlp if op == "p" else HN.hp_refine_high_order_mlp
        ctx.impl("refinement", f, self.nets[i], self.nets[j])

    def step(self, k, x):
        self.opts[k].zero_grad()
        y = self.nets[k](x)
        (y * y).mean().backward()
        self.opts[k].step()

    def frame(self, skip=(), outputs=()):
        """everything besides the weights that an operation must leave alone"""
        out = {}
        for k, m in enumerate(self.nets):
            if k in skip:
                continue
            out[k, "mode"] = [q.training for q in m.modules()]
            if k in outputs:
                out[k, "output"] = self.out(m)
            for name, p in m.named_parameters():
                out[k, name] = (p.requires_grad, None if p.grad is None else p.grad.clone())
            for name, p in m.named_buffers():
                out[k, name] = p.clone()
        return out

    @staticmethod
    def equal(u, v):
        if isinstance(u, torch.Tensor):
            return isinstance(v, torch.Tensor) and u.shape == v.shape and bool(torch.equal(u.nan_to_num(7.0), v.nan_to_num(7.0)))
        if isinstance(u, tuple):
            return isinstance(v, tuple) and all(World.equal(a, b) for a, b in zip(u, v))
        return u == v

    def framed(self, ctx, what, before, skip=()):
        now = self.frame(skip, [k for k, name in before if name == "output"])
        ctx.require(set(now) == set(before), f"{what}: parameters appeared or disappeared")
        for k in now:
            ctx.require(World.equal(now[k], before[k]), f"{what} changed output, mode, gradient or trainability of network {k[0]} ({k[1]})")

    def probe(self, ctx, what, model):
        """no two networks share storage: writing to one does not show in another"""
        for k in range(len(self.nets)):
            with torch.no_grad():
                olds = [q.w.clone() for q in net_layers(self.nets[k])]
                for q in net_layers(self.nets[k]):
                    q.w.add_(1.0)
                for j in range(len(self.nets)):
                    if j != k:
                        for u, v in zip(self.wts(j), model[j]):
                            ctx.require(np.array_equal(u, v), f"{what}: changing network {k} afterwards changes network {j}")
                for q, o in zip(net_layers(self.nets[k]), olds):
                    q.w.copy_(o)


def c11_situation(task, ctx):
    """one refinement, in every situation a caller can be in: frozen source or target, inside no_grad or
    inference of the caller, source or target in either mode, gradients present, weights of special values"""
    src, dst = task["src"], task["dst"]
    t = task["type"]
    disc = "disc" in t
    x = torch.tensor(xnet(2, 6))
    for op, frozen, grads, mode, values, left in itertools.product("ph", ("none", "source", "target", "both"), ("on", "off"), (True, False), WEIGHTS, ("all", "source", "target", "none")):
        if left != "all" and (values != "mixed" or frozen != "none" or (not ctx.thorough and (grads == "off") == mode)):
            continue
        if not ctx.thorough and values != "mixed" and (frozen, grads, mode) not in (("none", "on", True), ("both", "off", False)):
            continue
        W = World(t)
        if src == dst or (op == "h" and disc) or (op == "p" and W.spec[src][1] != W.spec[dst][1]):
            continue
        ctx.at(type=t, op=op, source=W.spec[src], target=W.spec[dst], frozen=frozen, grad=grads, train=mode, values=values)
        for q in net_layers(W.nets[src]):
            special(q, values)
        W.nets[src].train(mode), W.nets[dst].train(not mode)
        W.nets[src].requires_grad_(frozen not in ("source", "both"))
        W.nets[dst].requires_grad_(frozen not in ("target", "both"))
        for k, name in ((src, "source"), (dst, "target")):  # who has gradients of an earlier step
            if left not in ("all", name):
                W.nets[k].zero_grad(set_to_none=True)
        slopes = [None if p.grad is None else p.grad.clone() for p in W.nets[dst].parameters()]
        model = [W.wts(k) for k in range(len(W.nets))]
        before = W.frame((dst,), (src,))
        flags = [p.requires_grad for p in W.nets[dst].parameters()], W.nets[dst].training
        with torch.set_grad_enabled(grads == "on"):
            W.refine(ctx, op, src, dst)
        W.framed(ctx, "a refinement", before, (dst,))
        for p, g in zip(W.nets[dst].parameters(), slopes):
            ctx.require((p.grad is None) == (g is None) and (g is None or torch.equal(p.grad, g)), "a refinement changed the gradient of its target")
        ctx.require(flags == ([p.requires_grad for p in W.nets[dst].parameters()], W.nets[dst].training), "a refinement changed mode or trainability of its target")
        for (w, tol), g in zip(W.pred(src, dst, model[src]), W.wts(dst)):
            ctx.close("weights after a refinement", g, w, tol + 4 * ref.EPS * (np.abs(w) + 1))
        W.same(ctx, "a refinement", dst)
        model[dst] = W.wts(dst)
        for k in range(len(W.nets)):
            for u, v in zip(W.wts(k), model[k]):
                ctx.require(np.array_equal(u, v), f"the refinement changed network {k}")
        W.probe(ctx, "refinement", model)
        if frozen != "target" and frozen != "both" and values == "mixed":
            W.step(dst, x)
            ctx.require(any(not np.array_equal(u, v) for u, v in zip(W.wts(dst), model[dst])), "the refined network does not train any more")
            model[dst] = W.wts(dst)
            for k in range(len(W.nets)):
                for u, v in zip(W.wts(k), model[k]):
                    ctx.require(np.array_equal(u, v), f"training the refined network changed network {k}")
        ctx.step()
        ctx.trace()
        ctx.state(op, src, dst, frozen, grads, mode, values, left)
        ctx.outcome(*[w.tobytes() for w in model[dst]])
    ctx.sample(task)
    ctx.step()
    ctx.trace()
    ctx.state(t, src, dst)
    ctx.outcome(t, src, dst)


def c11_faults(task, ctx):
    """one refinement: every operation that needs memory fails once, and every point where another thread can step in"""
    t = task["type"]
    disc = "disc" in t
    x = torch.tensor(xnet(1, 4)) * 1.9  # also outside of the domain
    for op, src, dst in [task["pair"]]:
        base = World(t, True)
        first = [base.wts(k) for k in range(5)]
        want = base.pred(src, dst, first[src])
        f = HN.interpolate_high_order_mlp if op == "p" else HN.hp_refine_high_order_mlp
        n = sched.operations(lambda: f(copy.deepcopy(base.nets[src]), copy.deepcopy(base.nets[dst])))
        for k in range(n if task["part"] == "faults" else 0):
            W = copy.deepcopy(base)
            before = W.frame((dst,), (src,))
            ctx.at(type=t, op=op, source=W.spec[src], target=W.spec[dst], failing_operation=k)
            _, error, hit = sched.failing(lambda: f(W.nets[src], W.nets[dst]), k)
            what = "a refinement that ran out of memory"
            ctx.require(error is None or hit, f"a refinement fails: {type(error).__name__}: {error}")
            ctx.require(torch.is_grad_enabled() and torch.get_default_dtype() == torch.float32, f"{what} leaves another gradient mode or precision behind")
            W.framed(ctx, what, before, (dst,))
            for j in range(5):
                if j != dst:
                    for u, v in zip(W.wts(j), first[j]):
                        ctx.require(np.array_equal(u, v), f"{what} changed network {j}")
            ctx.impl("forward of the source", W.nets[src], x)
            W.refine(ctx, op, src, dst)
            for (w, tol), g in zip(want, W.wts(dst)):
                ctx.close("weights after repeating " + what, g, w, tol + 4 * ref.EPS * (np.abs(w) + 1))
            W.same(ctx, what, dst)
            model = [W.wts(j) for j in range(5)]
            if k % 8 == 0:
                W.probe(ctx, what, model)
            W.step(dst, x)
            for j in range(5):
                if j != dst:
                    for u, v in zip(W.wts(j), first[j]):
                        ctx.require(np.array_equal(u, v), f"training after {what} changed network {j}")
            ctx.step(3)
            ctx.trace()
            ctx.state(t, op, src, dst, k)
        if task["part"] == "faults":
            continue
        # another thread uses the source meanwhile: evaluates it, or refines it into something else
        other = next(j for j in ((2, 3, 4) if disc else (3, 1, 4)) if j not in (src, dst))
        y = base.nets[src](x).detach()
        for k in range(1, 1 + sched.count(lambda: f(copy.deepcopy(base.nets[src]), copy.deepcopy(base.nets[dst]))).steps):
            for second in ("forward", "refine", "step"):
                if not ctx.thorough and k % 3 != ("forward", "refine", "step").index(second):
                    continue
                W = copy.deepcopy(base)
                ctx.at(type=t, op=op, source=W.spec[src], target=W.spec[dst], other=second, preempted_at=k)
                g = {"forward": lambda: W.nets[src](x).detach(), "refine": lambda: (HN.interpolate_high_order_mlp if disc else HN.hp_refine_high_order_mlp)(W.nets[src], W.nets[other]),
                     "step": lambda: W.step(other, x)}[second]
                ws = sched.interleave([lambda: f(W.nets[src], W.nets[dst]), g], [(0, k), (1, None), (0, None)])
                for w in ws:
                    if w.error is not None:
                        ctx.fail(f"a refinement and a second thread ({second}): {type(w.error).__name__}: {w.error}")
                for (w, tol), q in zip(want, W.wts(dst)):
                    ctx.close(f"weights after a refinement while another thread does a {second}", q, w, tol + 4 * ref.EPS * (np.abs(w) + 1))
                if second == "forward":
                    ctx.close("output of the source during a refinement", ws[1].value.double().numpy(), y.double().numpy(), 1e-5 * (1 + float(y.abs().max())))
                if second == "refine":
                    for (w, tol), q in zip(base.pred(src, other, first[src]), W.wts(other)):
                        ctx.close("weights of the second of two concurrent refinements", q, w, tol + 4 * ref.EPS * (np.abs(w) + 1))
                for j in (src, dst, other):
                    W.same(ctx, f"a refinement while another thread does a {second}", j)
                for j in range(5):
                    if j not in (dst, other):
                        for u, v in zip(W.wts(j), first[j]):
                            ctx.require(np.array_equal(u, v), f"a refinement changed network {j}")
                ctx.step(3)
                ctx.trace()
                ctx.state(t, op, src, dst, k, second)
    ctx.outcome(t, task["part"])
    ctx.sample(task)


WEIGHTS = ("mixed", "zero", "zero_some", "constant", "onehot", "tiny", "denormal", "huge", "alternating", "equal_links", "negative_zero")


def special(layer, values):
    """weights of a special pattern"""
    w = layer.w
    with torch.no_grad():
        k = torch.arange(w.numel()).reshape(w.shape)
        last = torch.arange(w.shape[-1]).expand_as(w)
        if values == "zero":
            w.zero_()
        elif values == "zero_some":  # a run of zeros long enough to cover whole pieces, elsewhere as it was
            w[..., : (w.shape[-1] + 1) // 2] = 0
        elif values == "constant":
            w.fill_(0.375)
        elif values == "onehot":
            w.zero_()
            w[(last == k % w.shape[-1]) & (k % 7 == 3)] = 1.0
            w[0, 0, -1] = -1.0
        elif values == "tiny":
            w.mul_(1e-9)
        elif values == "denormal":
            w.mul_(1e-40)
        elif values == "huge":
            w.mul_(1e9)
        elif values == "alternating":
            w.copy_(torch.where(last % 2 == 0, 1.0, -1.0))
        elif values == "equal_links":
            w.copy_(w[:1, :1].clone().expand_as(w))
        elif values == "negative_zero":
            w.fill_(-0.0)
    return layer


def c11(task, ctx):
    """networks 0..4 of different resolution; ops p<i><j>: p refinement i->j, h<i><j>: hp refinement,
    s<i>: one training step.  The model holds the weights of all networks."""
    if task["part"] == "situation":
        return c11_situation(task, ctx)
    if task["part"] in ("faults", "threads"):
        return c11_faults(task, ctx)
    t = task["type"]
    disc = "disc" in t
    x = torch.tensor(xnet(2, 6))
    ops = [o for o in C11_OPS if not (disc and o[0] == "h")]
    if disc:
        ops += ["p04", "p41"]
    base = World(t)
    seen = {}
    frontier = [()]
    for d in range(task["depth"]):
        nxt = []
        for hist in frontier:
            for op in ([task["first"]] if d == 0 else ops):
                W = copy.deepcopy(base if d == 0 else seen[hist])
                model = [W.wts(k) for k in range(5)]
                ctx.at(type=t, history=list(hist) + [op])
                if op[0] == "s":
                    k = int(op[1])
                    before = W.frame((k,))
                    ctx.impl("training", W.step, k, x)
                    W.framed(ctx, f"a training step on network {k}", before, (k,))
                    now = W.wts(k)
                    ctx.require(any(not np.array_equal(u, v) for u, v in zip(now, model[k])), "training step moved no weight")
                    model[k] = now
                else:
                    i, j = int(op[1]), int(op[2])
                    before = W.frame((j,), (i,))
                    W.refine(ctx, op[0], i, j)
                    W.framed(ctx, f"refinement {op}", before, (j,))
                    want = W.pred(i, j, model[i])
                    got = W.wts(j)
                    for (w, tol), g in zip(want, got):
                        ctx.close("weights after the refinement history", g, w, tol + 4 * ref.EPS * (np.abs(w) + 1))
                    model[j] = got
                for k in range(5):
                    for u, v in zip(W.wts(k), model[k]):
                        ctx.require(np.array_equal(u, v), f"operation {op} changed network {k}")
                W.same(ctx, f"operation {op}", int(op[-1]))
                if len(hist) < 2:
                    W.probe(ctx, f"history {list(hist) + [op]}", model)
                ctx.step()
                ctx.trace()
                key = b"".join(np.ascontiguousarray(w).tobytes() for m in model for w in m)
                if ctx.state(key):
                    seen[hist + (op,)] = W
                    nxt.append(hist + (op,))
                    ctx.outcome(np.round(np.concatenate([w.ravel() for w in model[3]]), 4).tobytes())
        frontier = nxt
        for old in list(seen):
            if len(old) < d + 1:
                del seen[old]
    ctx.sample(dict(task=task, last=list(frontier[-1]) if frontier else []))


# ---------------------------------------------------------------- C12 smoothing
def c12_tasks(tier):
    out = [dict(part="layer", n=n, prod=p) for n in range(2, 7 if tier == "quick" else 10) for p in (False, True)]
    out += [dict(part="net", hidden=h) for h in (0, 1, 2, 3)]
    out += [dict(part="ladder", what=w) for w in ("pieces", "in", "out", "factor")]
    out += [dict(part="values", n=n) for n in (2, 3, 5)]
    out += [dict(part="mixed", first=t) for t in MIXED]
    return out


def c12_values(task, ctx):
    """every pair of values at a boundary, any magnitude, in every state a layer can be in"""
    n = task["n"]
    vals = [0.0, -0.0, 1.0, -1.0, 0.3, -2.5, 3.0, 10.0, -40.0, 1e-6, -1e-3, 1e4, 1e-30]
    pairs = list(itertools.product(vals, repeat=2))
    for f, mode in itertools.product(FACTORS + (2.0, -0.5), ("plain", "no_grad", "eval", "frozen", "grad", "double", "called")):
        segs = 14
        o = -(-len(pairs) // (segs - 1))
        m = refill(ctx.impl("constructing", FC("disc", n, segs, 1, o).build), 0.9)
        if mode == "double":
            m = m.double()
        with torch.no_grad():
            for q, (a, b) in enumerate(pairs):
                s = q % (segs - 1) + 1
                m.w[q // (segs - 1), 0, s * n - 1] = a
                m.w[q // (segs - 1), 0, s * n] = b
        w = w64(m)
        ctx.at(n=n, factor=f, mode=mode)
        if mode == "eval":
            m.eval()
        if mode == "frozen":
            m.w.requires_grad_(False)
        if mode in ("grad", "called"):
            y = m(torch.full((3, 1), 0.3))
            if mode == "grad":
                y.sum().backward()
                g = m.w.grad.clone()
        with torch.set_grad_enabled(mode != "no_grad"):
            ctx.impl("smoothing", PL.smooth_discontinuous_layer, m, f)
        ctx.require(m.w.requires_grad == (mode != "frozen") and m.w.is_leaf, "smoothing changed whether the weights are trainable")
        if mode == "grad":
            ctx.same("smoothing changed the gradient", m.w.grad, g)
        got = w64(m)
        want = smooth_ref(w, n, f)
        pair = np.zeros_like(w)
        for s in range(1, segs):
            pair[..., s * n - 1] = pair[..., s * n] = np.abs(w[..., s * n - 1]) + np.abs(w[..., s * n])
        ctx.close("weights after smoothing (values)", got, want, 4 * ref.EPS * pair * (1 + abs(f)))
        ctx.step(len(pairs))
        ctx.states(len(pairs))
        ctx.trace()
        ctx.outcome(got.tobytes())
    ctx.sample(dict(task=task, pairs=len(pairs)))


def c12_ladder(task, ctx):
    what = task["what"]
    cases = []
    if what == "pieces":
        cases = [(n, s, 1, 2, f) for n in (2, 3, 4, 5, 8, 12) for s in SIZES + [300, 512, 513, 1000] for f in (0.5, 1.0)]
    elif what == "factor":
        cases = [(n, s, 2, 2, f / 40) for n in (2, 3) for s in (2, 5) for f in range(-20, 61)]
    else:
        cases = [(n, s) + ((v, 2) if what == "in" else (2, v)) + (0.3,) for n, s in ((2, 3), (3, 4)) for v in SIZES + [512, 1000]]
    for n, s, i, o, f in cases:
        ctx.at(n=n, segments=s, inputs=i, outputs=o, factor=f)
        m = refill(ctx.impl("constructing", FC("disc", n, s, i, o).build), 0.9)
        w = w64(m)
        ctx.impl("smoothing", PL.smooth_discontinuous_layer, m, f)
        got = w64(m)
        ctx.close("weights after smoothing (ladder)", got, smooth_ref(w, n, f), 4 * ref.EPS * (1 + np.abs(w).max()) * (1 + abs(f)))
        inner = [k for k in range(w.shape[-1]) if not ((k % n == 0 and k > 0) or (k % n == n - 1 and k < w.shape[-1] - 1))]
        ctx.require(np.array_equal(got[..., inner], w[..., inner]), "smoothing changed a node that is not at a discontinuity")
        ctx.step()
        ctx.trace()
        ctx.states(1)
        ctx.outcome(got.ravel()[:64].tobytes())
    ctx.sample(dict(task=task, cases=len(cases)))


FACTORS = (0.0, 0.25, 0.5, 1.0, 0.1)


def smooth_ref(w, n, f):
    w = w.copy()
    V = w.shape[-1]
    for s in range(1, V // n):
        a, b = w[..., s * n - 1].copy(), w[..., s * n].copy()
        d = a - b
        w[..., s * n - 1] = a - 0.5 * f * d
        w[..., s * n] = b + 0.5 * f * d
    return w


def c12(task, ctx):
    if task["part"] == "ladder":
        return c12_ladder(task, ctx)
    if task["part"] == "net":
        return c12_net(task, ctx)
    if task["part"] == "mixed":
        return c12_mixed(task, ctx)
    if task["part"] == "values":
        return c12_values(task, ctx)
    n, prod = task["n"], task["prod"]
    depth = 3 if not ctx.thorough else 4
    for segs, (i, o), (length, per) in itertools.product((1, 2, 3, 4, 5, 8, 16), ((1, 1), (2, 3), (3, 1)), ((2.0, None), (3.0, None), (2.0, 2.0))):
        M = FC("disc", n, segs, i, o, length, per, prod)
        for hist in itertools.product(FACTORS, repeat=depth if (segs, i) in ((2, 1), (3, 2)) and per is None else 1):
            ctx.at(layer=M.name, factors=list(hist))
            m = refill(ctx.impl("constructing", M.build), 0.9)
            for f in hist:
                w = w64(m)
                ctx.impl("smoothing", PL.smooth_discontinuous_layer, m, f)
                got = w64(m)
                want = smooth_ref(w, n, f)
                ctx.close("weights after smoothing", got, want, 4 * ref.EPS * (1 + np.abs(w).max()))
                # nodes that belong to one piece only are untouched, bit for bit
                inner = [k for k in range(w.shape[-1]) if not ((k % n == 0 and k > 0) or (k % n == n - 1 and k < w.shape[-1] - 1))]
                ctx.require(np.array_equal(got[..., inner], w[..., inner]), "smoothing changed a node that is not at a discontinuity")
                ctx.require(m.w.requires_grad and m.w.is_leaf, "smoothing made the weights untrainable")
                ctx.step()
                if ctx.state(segs, i, length, per, got.tobytes()):
                    ctx.outcome(np.round(got, 5).tobytes())
            # observable: the jump of the function at every boundary
            if i == 1 and per is None and not prod:
                w0 = ref.fill(tuple(m.w.shape), 0.9, 0.0)
                gap = 1.0
                for f in hist:
                    gap *= 1 - f
                for s in range(1, segs):
                    b = -length / 2 + s * length / segs
                    e = 1e-4 * length / segs
                    y = ctx.impl("forward", m, torch.tensor([[b - e], [b + e]], dtype=torch.float32)).detach().double().numpy()[:, 0]
                    j0 = float(w0[0, 0, s * n]) - float(w0[0, 0, s * n - 1])
                    ctx.close("jump at a boundary after smoothing", y[1] - y[0], j0 * gap, 1e-4 * 4 * n * n * 8 + 1e-4)
                    ctx.step()
            ctx.trace()
    ctx.sample(dict(task=task))


def c12_net(task, ctx):
    h = task["hidden"]
    for t, tin in (("discontinuous", None), ("discontinuous", "continuous"), ("continuous", "discontinuous"), ("discontinuous", "polynomial"),
                   ("discontinuous_prod", None), ("continuous", None), ("switch_discontinuous", None)):
        for hist in itertools.product(FACTORS, repeat=2):
            a = HN.HighOrderMLP(layer_type=t, layer_type_in=tin, n=3, n_in=2, n_hidden=3, n_out=4, in_width=2, hidden_width=3, out_width=2, hidden_layers=h,
                                in_segments=3, hidden_segments=2, out_segments=4, normalization=HL.MaxAbsNormalization)
            refill(a, 0.7)
            ctx.at(type=t, type_in=tin, hidden=h, factors=list(hist))
            for f in hist:
                before = [(q, w64(q)) for q in net_layers(a)]
                ctx.impl("smoothing a network", HN.smooth_discontinuous_network, a, f)
                for k, (q, w) in enumerate(before):
                    if isinstance(q, HL.PiecewiseDiscontinuous):
                        ctx.close("weights of a smoothed network", w64(q), smooth_ref(w, q.n, f), 1e-6, layer=k)
                    else:
                        unchanged(ctx, "smoothing of a network: a layer that is not discontinuous", q, w)
                ctx.step()
            ctx.trace()
            ctx.states(1)
            ctx.outcome(*[w64(q).tobytes() for q in net_layers(a)])
    ctx.sample(task)


class Holder(torch.nn.Module):
    def __init__(self, model):
        super().__init__()
        self.model = model


SHAPES = ("flat", "nested", "deep", "list", "twice", "with others")


def arrange(ls, shape):
    """the layers in a network of some shape; one layer may be used twice"""
    S, nn = torch.nn.Sequential, torch.nn
    if shape == "flat":
        return Holder(S(*ls))
    if shape == "nested":
        return Holder(S(S(ls[0]), nn.ModuleDict({"a": nn.ModuleList(ls[1:])})))
    if shape == "deep":
        return Holder(S(S(S(S(*ls))), nn.Identity()))
    if shape == "list":
        return Holder(nn.ModuleList(ls))
    if shape == "twice":
        return Holder(S(S(*ls), nn.Tanh(), S(ls[0]), S(ls[-1])))
    return Holder(S(*[q for l in ls for q in (nn.BatchNorm1d(2), l, nn.Linear(2, 2), HL.MaxAbsNormalization())]))


def others(holder, ls):
    mine = {id(p) for l in ls for p in l.parameters()}
    return {k: v.detach().clone() for k, v in list(holder.named_parameters()) + list(holder.named_buffers()) if id(v) not in mine}


def c12_mixed(task, ctx):
    """networks of layers of any kinds and shapes: every discontinuous layer is smoothed once, nothing else changes"""
    def make(name):
        t, n, s = name.split()
        return HL.high_order_fc_layers(layer_type=t, n=int(n), segments=int(s), in_features=2, out_features=2)
    for names in [(task["first"],) + r for k in (0, 1, 2) for r in itertools.product(MIXED, repeat=k)]:
        for shape in SHAPES:
            if len(names) > 2 and shape not in ("flat", "twice") and not ctx.thorough:
                continue
            ls = [refill(make(k), 0.9, 0.1 * j) for j, k in enumerate(names)]
            net = arrange(ls, shape)
            rest = others(net, ls)
            for f in (0.5, 1.0):
                ctx.at(layers=list(names), network=shape, factor=f)
                before = [copy.deepcopy(q.state_dict()) for q in ls]
                ctx.impl("smoothing a network", HN.smooth_discontinuous_network, net, f)
                for name, q, old in zip(names, ls, before):
                    for k, v in q.state_dict().items():
                        if "disc" in name and k.split(".")[-1] == "w":
                            ctx.close("weights of a smoothed network", v.double().numpy(), smooth_ref(old[k].double().numpy(), int(name.split()[1]), f), 1e-6)
                        else:
                            ctx.require(same(v, old[k]), f"{name}: a layer that is not discontinuous was changed")
                now = others(net, ls)
                ctx.require(all(same(v, now[k]) for k, v in rest.items()), "smoothing changed another layer")
                ctx.step()
            ctx.trace()
            ctx.states(1)
            ctx.outcome(*names, shape)
    ctx.sample(task)


def same(a, b):
    return torch.equal(a, b) or bool(((a == b) | (torch.isnan(a) & torch.isnan(b))).all())


def refine_mixed(task, ctx, h):
    """networks of several kinds of layers and shapes, also with a layer used twice and others in between"""
    kinds = ("continuous", "continuous_prod", "switch_continuous", "polynomial") + (() if h else ("discontinuous", "discontinuous_prod", "switch_discontinuous"))
    def make(t, n, s):
        return HL.high_order_fc_layers(layer_type=t, n=n, segments=s, in_features=2, out_features=2)
    for names in [(task["first"],) + r for k in (0, 1, 2) for r in itertools.product(kinds, repeat=k)]:
        for shape in SHAPES:
            if len(names) > 2 and shape not in ("flat", "twice"):
                continue
            ctx.at(layers=list(names), network=shape)
            src = [(2 + j % 2, 1 + (j + 1) % 2) for j in range(len(names))]
            dst = [(3, s * (2 if h else 1)) for n, s in src]
            # no interpolation between plain polynomials: those keep their sizes
            dst = [b if t != "polynomial" else a for t, a, b in zip(names, src, dst)]
            la = [refill(make(t, *a), 0.8, 0.1 * j) for j, (t, a) in enumerate(zip(names, src))]
            lb = [refill(make(t, *b), 0.7, 0.3 + 0.1 * j) for j, (t, b) in enumerate(zip(names, dst))]
            A, B = arrange(la, shape), arrange(lb, shape)
            before = [copy.deepcopy(q.state_dict()) for q in la]
            ra, rb = others(A, la), others(B, lb)
            ctx.impl("refining a network", HN.hp_refine_high_order_mlp if h else HN.interpolate_high_order_mlp, A, B)
            for t, qa, qb, old, a, b in zip(names, la, lb, before, src, dst):
                ctx.require(all(same(v, old[k]) for k, v in qa.state_dict().items()), "refinement of a network changed its source")
                if t == "polynomial":
                    continue
                kind = "disc" if "disc" in t else "cont"
                for u, v in zip(net_layers(qa), net_layers(qb)):
                    want, tolw = predicted_weights((kind, *a, 2.0), (kind, *b, 2.0), w64(u))
                    ctx.close("weights of a refined network", w64(v), want, tolw + 4 * ref.EPS * (np.abs(want) + 1))
            na = others(A, la)
            ctx.require(all(same(v, na[k]) for k, v in ra.items()), "refinement changed another layer of the source")
            ctx.step(len(names))
            ctx.trace()
            ctx.states(1)
            ctx.outcome(*names, shape)
    ctx.sample(task)


# ---------------------------------------------------------------- C13 initialization
def c13_tasks(tier):
    out = []
    for t in ("continuous", "discontinuous", "discontinuous_prod"):
        for n in range(2, 6 if tier == "quick" else 9):
            out.append(dict(part="line", type=t, n=n))
    for t in ("continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod"):
        out.append(dict(part="constant", type=t))
    out.append(dict(part="nets"))
    out.append(dict(part="linear_nets"))
    out += [dict(part="wide_nets", type=t) for t in ("continuous", "discontinuous", "discontinuous_prod", "switch_continuous")]
    out += [dict(part="mixed", first=k) for k in MIXED]
    out.append(dict(part="switch", cost=20))
    out += [dict(part="conv", type=t, nd=d) for t in ("continuous", "discontinuous", "polynomial", "fourier") for d in (1, 2)] + [dict(part="conv", type="continuous", nd=2, transpose=True)]
    out += [dict(part="ladder", type=t, what=w) for t in ("continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod") for w in ("in", "out", "pieces")]
    out += [dict(part="more_nets", kind=k) for k in ("mlp", "multi", "list", "sequential", "bare", "resnet")]
    return out


class Scripted:
    """random.random answered from a script (environment under our control)"""

    def __init__(self, answers):
        self.answers, self.k = list(answers), 0

    def __enter__(self):
        self.old = random.random
        random.random = self.next
        return self

    def next(self):
        v = self.answers[self.k % len(self.answers)]
        self.k += 1
        return v

    def __exit__(self, *a):
        random.random = self.old


U = (0.0, 0.5, 0.25, 1.0 - 2.0 ** -53)


def is_line(ctx, layer, kind, n, segs, length, slope, offset):
    """every link of the layer is a x + b over all pieces, within the limits"""
    w = w64(layer)
    x, _ = node_positions(kind, n, segs, length)
    ab = []
    for r in range(w.shape[0]):
        for c in range(w.shape[1]):
            v = w[r, c]
            a = (v[-1] - v[0]) / (x[-1] - x[0])
            b = 0.5 * (v[-1] + v[0])
            tol = 8 * ref.EPS * (abs(a) * length + abs(b) + 1e-3)
            ctx.close("initial link is a straight line", v, a * x + b, tol)
            ctx.require(abs(a) <= slope * (1 + 1e-5) + 4 * ref.EPS * (abs(offset) + 1) / length, f"initial slope {a} above the limit {slope}")
            ctx.require(abs(b) <= offset * (1 + 1e-5) + 4 * ref.EPS * (slope * length + 1e-3), f"initial offset {b} above the limit {offset}")
            ab.append((a, b))
    if len(ab) >= 100:  # spread over the limits: 8 standard deviations of the mean magnitude, and the extremes are approached
        for v, lim, noise, what in ((np.array(ab)[:, 0], slope, offset / length, "slopes"), (np.array(ab)[:, 1], offset, slope * length, "offsets")):
            if lim > 1e-3 * noise:
                mag = np.abs(v) / lim
                ctx.require(abs(mag.mean() - 0.5) < 8 * 0.289 / len(ab) ** 0.5 and mag.max() > 0.8, f"{what} are not spread over the limit {lim}: mean magnitude {mag.mean():.3f}, largest {mag.max():.3f} of it")
                ctx.require(v.min() < 0 < v.max(), f"all {what} have the same sign")
    return ab


def uncorrelated(ctx, ab):
    """independent slopes and offsets: over many links no two of them go together (8 standard deviations)"""
    m = len(ab)
    if m < 400:
        return
    a, b = np.array(ab).T
    lim = 8 / m ** 0.5

    def r(u, v):
        return abs(np.corrcoef(u, v)[0, 1])
    ctx.require(r(a, b) < lim, "slopes and offsets are correlated")
    for v, what in ((a, "slopes"), (b, "offsets")):
        for lag in (1, 2, 3):
            ctx.require(r(v[lag:], v[:-lag]) < lim, f"{what} of links are correlated")
    for lag in (1, 2):
        ctx.require(r(a[lag:], b[:-lag]) < lim and r(b[lag:], a[:-lag]) < lim, "slopes and offsets of links are correlated")


MIXED = ("continuous 3 1", "discontinuous 3 1", "discontinuous_prod 3 1", "continuous 2 3", "discontinuous 2 3", "discontinuous 2 2", "polynomial 3 1", "fourier 3 1", "baseline 3 1", "switch_continuous 3 1", "switch_discontinuous 2 2")


def c13_mixed(task, ctx):
    """Networks of two or three layers of any kinds, also with weights of the same shape, nested and with a layer used
    twice: every layer with pieces gets lines of its own, every other layer keeps its weights."""
    def make(name):
        t, n, s = name.split()
        return HL.high_order_fc_layers(layer_type=t, n=int(n), segments=int(s), in_features=2, out_features=2)

    rows = [(task["first"],) + r for k in (1, 2) for r in itertools.product(MIXED, repeat=k)]
    for names in rows:
        for shape in ("flat", "nested", "list", "twice"):
            if shape != "flat" and len(names) > 2 and not ctx.thorough:
                continue
            ctx.at(layers=list(names), network=shape)
            ls = [refill(make(k), 9.0) for k in names]
            mods = {"flat": lambda: torch.nn.Sequential(*ls), "nested": lambda: torch.nn.Sequential(torch.nn.Sequential(ls[0]), torch.nn.ModuleDict({"a": torch.nn.ModuleList(ls[1:])})),
                    "list": lambda: torch.nn.ModuleList(ls), "twice": lambda: torch.nn.Sequential(*ls, ls[0])}[shape]()
            before = [copy.deepcopy(q.state_dict()) for q in ls]
            random.seed(5), torch.manual_seed(5), np.random.seed(5)
            ctx.impl("initialization", HN.initialize_network_polynomial_layers, mods, max_slope=0.5, max_offset=0.25, scale_slope=lambda k: 1 / k)
            ab = []
            for name, q, old in zip(names, ls, before):
                t, n, sg = name.split()
                if "continuous" in t:
                    for u in net_layers(q):
                        ab += is_line(ctx, u, "disc" if "disc" in t else "cont", int(n), int(sg), 2.0, 0.25, 0.25)
                else:
                    for k, v in q.state_dict().items():
                        ctx.require(torch.equal(v, old[k]), f"{t}: a layer without pieces was changed")
            ctx.require(len(set(ab)) == len(ab), "links share their initial line")
            ctx.step()
            ctx.trace()
            ctx.states(1)
            ctx.outcome(*names, shape)
    ctx.sample(task)


def c13_switch(task, ctx):
    for t, n, segs, (i, o), num in itertools.product(("continuous", "discontinuous", "discontinuous_prod"), (2, 3, 5), (1, 2, 5), ((1, 1), (2, 3), (20, 21)), (2, 3)):
        kind = "disc" if "disc" in t else "cont"
        for slope, offset, length in ((1.0, 0.0, 2.0), (0.5, 0.25, 2.0), (0.0, 1.0, 2.0), (3.0, 2.0, 1.0), (0.0, 0.0, 2.0), (1e-3, 1e3, 2.0), (1, 0, 3.0)):
            ctx.at(switch=t, n=n, segments=segs, inputs=i, outputs=o, copies=num, slope=slope, offset=offset)
            m = ctx.impl("constructing", HL.SwitchLayer, layer_type=t, n=n, in_features=i, out_features=o, segments=segs, num_input_layers=num, scale=length)
            random.seed(n), torch.manual_seed(n), np.random.seed(n)
            ctx.impl("initialization", m.initialize, max_slope=slope, max_offset=offset)
            ab = []
            for q in net_layers(m):
                ab += is_line(ctx, q, kind, n, segs, length, slope, offset)
            if slope and offset and slope / offset > 0.01:
                ctx.require(len(set(ab)) == num * i * o, "links share their initial line")
                uncorrelated(ctx, ab)
            ctx.step()
            ctx.trace()
            ctx.states(1)
            ctx.outcome(t, n, segs, i, o, num, slope, offset)
    ctx.sample(task)


def c13_ladder(task, ctx):
    t, what = task["type"], task["what"]
    kind = "disc" if "disc" in t else "poly" if "poly" in t else "cont"
    if what == "pieces":
        cases = [(n, s, 1, 2) for n in (2, 3, 6) for s in (SIZES if kind != "poly" else (1,))] + [(n, 2, 2, 2) for n in range(2, 16)]
    else:
        cases = [(3, 2) + ((v, 2) if what == "in" else (2, v)) for v in SIZES + [512, 1000]]
    for n, s, i, o in cases:
        ctx.at(type=t, n=n, segments=s, inputs=i, outputs=o)
        for mag in (1.0, 0.3):
            m = ctx.impl("constructing", HL.high_order_fc_layers, layer_type=t, n=n, segments=s, in_features=i, out_features=o, weight_magnitude=mag)
            w = w64(m)
            V = ref.num_weights(kind, n, s if kind != "poly" else 1)
            ctx.require(w.shape == (o, i, V), f"weights of shape {w.shape}")
            ctx.require(bool(np.isfinite(w).all()) and np.abs(w - w[..., :1]).max() == 0, "the initial link is not constant")
            ctx.require(np.abs(w).max() <= mag / i * (1 + 1e-6), f"initial weight {np.abs(w).max()} above weight_magnitude/in_features={mag / i}")
            ctx.require(len(np.unique(w[..., 0])) >= 0.99 * i * o, "links share their initial value")
            ctx.step()
        if kind != "poly" and t != "continuous_prod":
            random.seed(i + o), torch.manual_seed(i + o), np.random.seed(i + o)
            ctx.impl("initialization", PL.initialize_polynomial_layer, m, max_slope=0.5, max_offset=0.25)
            ab = is_line(ctx, m, kind, n, s, 2.0, 0.5, 0.25)
            ctx.require(len(set(ab)) == i * o, "links share their initial line")
            uncorrelated(ctx, ab)
            ctx.step()
        ctx.trace()
        ctx.states(1)
        ctx.outcome(t, n, s, i, o)
    ctx.sample(dict(task=task, cases=len(cases)))


def c13(task, ctx):
    if task["part"] == "ladder":
        return c13_ladder(task, ctx)
    if task["part"] == "switch":
        return c13_switch(task, ctx)
    if task["part"] == "mixed":
        return c13_mixed(task, ctx)
    part = task["part"]
    if part == "line":
        t, n = task["type"], task["n"]
        kind = "disc" if "disc" in t else "cont"
        for segs, (i, o), length, per in itertools.product((1, 2, 3, 5, 8), ((1, 1), (2, 1), (2, 3)), (2.0, 3.0, 1.0), (None, 2.0)):
            M = FC(kind, n, segs, i, o, length, per, "prod" in t)
            for slope, offset in ((1.0, 0.0), (0.5, 0.25), (0.0, 1.0), (3.0, 2.0)):
                ctx.at(layer=M.name, slope=slope, offset=offset)
                scripts = list(itertools.product(U, repeat=2)) if i == 1 else [U, U[::-1]]
                for s in scripts:
                    m = ctx.impl("constructing", M.build)
                    with Scripted(s):
                        ctx.impl("initialization", PL.initialize_polynomial_layer, m, max_slope=slope, max_offset=offset)
                    is_line(ctx, m, kind, n, segs, length, slope, offset)
                    ctx.step()
                    ctx.states(1)
                random.seed(5), np.random.seed(5), torch.manual_seed(5)
                m = ctx.impl("constructing", M.build)
                ctx.impl("initialization", PL.initialize_polynomial_layer, m, max_slope=slope, max_offset=offset)
                ab = is_line(ctx, m, kind, n, segs, length, slope, offset)
                if i * o > 1 and slope > 0:
                    ctx.require(len({round(a, 9) for a, _ in ab}) == i * o, "links share their initial slope")
                if i * o > 1 and offset > 0:
                    ctx.require(len({round(b, 9) for _, b in ab}) == i * o, "links share their initial offset")
                for s in (5, 6):
                    two = []
                    for _ in range(2):
                        random.seed(s), np.random.seed(s), torch.manual_seed(s)
                        q = M.build()
                        PL.initialize_polynomial_layer(q, max_slope=slope, max_offset=offset)
                        two.append(w64(q))
                    ctx.require(np.array_equal(*two), "linear initialization is not determined by the seed")
                ctx.require(m.w.requires_grad and m.w.is_leaf, "initialization made the weights untrainable")
                ctx.step()
                ctx.trace()
                ctx.outcome(M.name, slope, offset)
        ctx.sample(task)
        return
    if part == "constant":
        t = task["type"]
        for n, segs, i, o, mag, seed in itertools.product((1, 2, 3, 5), (1, 2, 4), (1, 2, 4, 8), (1, 3), (1.0, 0.25, 10.0), range(3 if not ctx.thorough else 12)):
            torch.manual_seed(seed)
            m = ctx.impl("constructing", HL.high_order_fc_layers, layer_type=t, n=n, segments=segs, in_features=i, out_features=o, weight_magnitude=mag)
            ctx.at(type=t, n=n, segments=segs, inputs=i, outputs=o, magnitude=mag, seed=seed)
            w = w64(m)
            ctx.require(bool(np.isfinite(w).all()), "initial weights are not finite")
            ctx.require(np.abs(w - w[..., :1]).max() == 0, "the initial link is not constant")
            ctx.require(np.abs(w).max() <= mag / i * (1 + 1e-6), f"initial weight {np.abs(w).max()} above weight_magnitude/in_features={mag / i}")
            ctx.require(len(np.unique(w[..., 0])) == i * o, "links share their initial value")
            x = torch.tensor(xnet(i, 5))
            y = m(x).detach()
            ctx.require(float((y - y[:1]).abs().max()) <= 1e-4 * float(y.abs().max()) + 1e-6, "the initial layer is not constant")
            m2 = ctx.impl("constructing", HL.high_order_fc_layers, layer_type=t, n=n, segments=segs, in_features=i, out_features=o, weight_magnitude=mag)
            ctx.require(not np.array_equal(w64(m2), w), "two layers are initialized with the same weights")
            torch.manual_seed(seed)
            m3 = ctx.impl("constructing", HL.high_order_fc_layers, layer_type=t, n=n, segments=segs, in_features=i, out_features=o, weight_magnitude=mag)
            ctx.require(np.array_equal(w64(m3), w), "initialization is not determined by the seed")
            if n > 1:
                u = ctx.impl("constructing", HL.high_order_fc_layers, layer_type=t, n=n, segments=segs, in_features=i, out_features=o, weight_magnitude=1.0, initialize="uniform")
                wu = w64(u)
                ctx.require(np.abs(wu).max() <= 1.0 / i * (1 + 1e-6), "uniform initial weight above 1/in_features")
                ctx.require(len(np.unique(wu)) == wu.size or wu.size > 1000, "uniform initialization repeats values")
            ctx.step(4)
            ctx.states(1)
            ctx.trace()
            ctx.outcome(w.tobytes())
        ctx.sample(task)
        return
    if part == "nets":
        for t, h, init, seed in itertools.product(("continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod"), (0, 1, 2), ("constant_random", "uniform"), range(2)):
            torch.manual_seed(seed)
            for cls in ("mlp", "multi"):
                kw = dict(layer_type=t, n=3, in_width=2, out_width=3, hidden_layers=h, hidden_width=4, in_segments=2, hidden_segments=3, out_segments=2, initialization=init)
                ctx.at(net=cls, **kw)
                m = ctx.impl("constructing", HN.HighOrderMLP, **kw) if cls == "mlp" else ctx.impl("constructing", HN.HighOrderMultiMLP, replicas=2, **kw)
                first = []
                for q in net_layers(m):
                    w = w64(q)
                    const = bool(np.abs(w - w[..., :1]).max() == 0)
                    ctx.require(const == (init == "constant_random"), f"initialization={init} but links are {'constant' if const else 'not constant'}")
                    ctx.require(np.abs(w).max() <= 1.0 / w.shape[1] * (1 + 1e-6), "initial weight above 1/in_features")
                    first.append(float(w.flat[0]))
                ctx.require(len(set(first)) == len(first), "layers share their initial weights")
                ctx.step()
                ctx.trace()
                ctx.states(1)
                ctx.outcome(*first)
        ctx.sample(task)
        return
    if part == "conv":
        t, nd, tr = task["type"], task["nd"], task.get("transpose", False)
        make = HL.high_order_convolution_transpose_layers if tr else HL.high_order_convolution_layers
        cases = []
        for n, segs, c, o, k, mag, resc, seed in itertools.product((2, 3, 5), (1, 2, 3), (1, 2, 3), (1, 4), (1, 2, 3), (1.0, 0.25, 10.0), (False, True), range(1 if not ctx.thorough else 5)):
            if resc and mag > 1:
                continue
            cases.append((n, segs, c, o, k, mag, resc, seed))
        # many nodes per link, many links
        cases += [(n, segs, 2, 6, 2, mag, False, 0) for n in (2, 3, 4, 6, 8, 9, 12, 16) for segs in (1, 4, 5, 8, 16, 20) for mag in (1.0, 3.0) if n * segs <= 130]
        cases += [(3, 2, c, 4, k, 1.0, False, 0) for c in (4, 5, 8, 16, 17, 33) for k in (1, 3)] + [(3, 2, 2, 4, k, 1.0, False, 0) for k in (4, 5, 6, 7, 9)]
        for n, segs, c, o, k, mag, resc, seed in cases:
            kw = dict(layer_type=f"{t}{nd}d", n=n, segments=segs, in_channels=c, out_channels=o, kernel_size=k, weight_magnitude=mag, rescale_output=resc)
            ctx.at(seed=seed, **kw)
            torch.manual_seed(seed)
            w = ctx.impl("constructing", make, **kw).state_dict()["conv.weight"].double().numpy()
            torch.manual_seed(seed)
            w2 = ctx.impl("constructing", make, **kw).state_dict()["conv.weight"].double().numpy()
            w3 = ctx.impl("constructing", make, **kw).state_dict()["conv.weight"].double().numpy()
            ctx.require(np.array_equal(w, w2), "initialization is not determined by the seed")
            ctx.require(not np.array_equal(w2, w3), "two layers are initialized with the same weights")
            fan = c * k ** nd
            ctx.require(bool(np.isfinite(w).all()), "initial weights are not finite")
            ctx.require(np.abs(w).max() <= mag / fan * (1 + 1e-6), f"initial weight {np.abs(w).max()} above the weight magnitude over the number of inputs {mag / fan}")
            if o * fan >= 48 and nd == 2 and t != "fourier" and not tr:
                ctx.require(np.abs(w).max() >= 0.5 * mag / fan, f"initial weights {np.abs(w).max()} do not reach half of the limit {mag / fan}")
            if nd == 2 and t != "fourier" and not tr:
                v = w.reshape(o, c, -1, k * k)
                ctx.require(np.abs(v - v[:, :, :1]).max() == 0, "the initial link is not constant")
                ctx.require(len(np.unique(v[:, :, 0])) >= (1.0 if o * fan < 100 else 0.98) * o * fan, "links share their initial value")
            else:
                ctx.require(len(np.unique(w)) >= (w.size if w.size < 100 else 0.98 * w.size), "initial weights are repeated")
            ctx.step(3)
            ctx.states(1)
            ctx.trace()
            ctx.outcome(w.tobytes())
        ctx.sample(task)
        return
    if part == "more_nets":
        for t, h, (slope, off), seed in itertools.product(("continuous", "discontinuous", "discontinuous_prod", "switch_continuous", "switch_discontinuous"), (1, 2, 4), ((1.0, 0.5), (0.25, 2.0)), range(2)):
            kw = dict(layer_type=t, n=3, in_width=2, hidden_width=4, out_width=3, hidden_layers=h, in_segments=2, hidden_segments=2, out_segments=2)
            kind = task["kind"]
            ctx.at(net=kind, type=t, hidden=h, slope=slope, offset=off)

            def build():
                if kind == "mlp":
                    return HN.HighOrderMLP(**kw)
                if kind == "resnet":
                    return HN.HighOrderMLP(resnet=True, normalization=HL.MaxAbsNormalization, **kw)
                if kind == "multi":
                    return HN.HighOrderMultiMLP(replicas=h, **kw)
                if kind == "list":
                    return HN.HighOrderMLPList(layer_type=[t] * (h + 1), n=[3] * (h + 1), width=[2] * (h + 2), segments=[2] * (h + 1))
                if kind == "sequential":
                    return torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.Sequential(HN.HighOrderMLP(**kw), torch.nn.Tanh()), HL.high_order_fc_layers(layer_type=t, n=3, segments=2, in_features=3, out_features=h))
                return HL.high_order_fc_layers(layer_type=t, n=3, segments=2, in_features=h, out_features=2)
            res = []
            for _ in range(2):
                torch.manual_seed(seed), random.seed(seed), np.random.seed(seed)
                m = ctx.impl("constructing", build)
                lin = [p.detach().clone() for q in m.modules() if isinstance(q, torch.nn.Linear) for p in q.parameters()]
                fans = []

                def scale(k):
                    fans.append(k)
                    return 1.0 / (1 + k)
                ctx.impl("initializing a network", HN.initialize_network_polynomial_layers, m, max_slope=slope, max_offset=off, scale_slope=scale)
                ab = []
                ls = [q for q in m.modules() if isinstance(q, (HL.Piecewise, HL.PiecewiseDiscontinuous))]
                ctx.require(len(ls) > 0, "vacuous")
                for q in ls:
                    ab += is_line(ctx, q, "disc" if "disc" in t else "cont", 3, 2, 2.0, slope / (1 + q.w.shape[1]), off)
                ctx.require(len({round(a, 12) for a, _ in ab}) == len(ab), "links share their initial slope")
                ctx.require(len({round(b, 12) for _, b in ab}) == len(ab), "links share their initial offset")
                ctx.require(set(fans) == {q.w.shape[1] for q in ls}, f"the fan-in function is asked for {sorted(set(fans))}")
                after = [p.detach() for q in m.modules() if isinstance(q, torch.nn.Linear) for p in q.parameters()]
                for a, b in zip(after, lin):
                    ctx.same("initialization touched a linear layer", a, b)
                res.append([w64(q) for q in ls])
                ctx.step()
            ctx.require(all(np.array_equal(a, b) for a, b in zip(*res)), "linear initialization is not determined by the seed")
            ctx.trace()
            ctx.states(1)
            ctx.outcome(*[w.tobytes() for w in res[0]])
        ctx.sample(task)
        return
    if part == "wide_nets":
        # every layer of a wide network uses all of the limit for its own number of inputs
        t = task["type"]
        for h, wi, wh, wo, sc, (slope, off) in itertools.product((0, 1, 2, 4), (11, 12), (10, 16), (12,), ("one", "inv", "sqrt", "grow"), ((1.0, 0.5), (0.25, 2.0))):
            f = {"one": lambda k: 1, "inv": lambda k: 1.0 / k, "sqrt": lambda k: 1.0 / np.sqrt(k), "grow": lambda k: 0.1 * k}[sc]
            ctx.at(type=t, hidden=h, widths=[wi, wh, wo], slope=slope, offset=off, scale=sc)
            m = ctx.impl("constructing", HN.HighOrderMLP, layer_type=t, n=3, in_width=wi, out_width=wo, hidden_layers=h, hidden_width=wh, in_segments=2, hidden_segments=2, out_segments=2)
            random.seed(h), torch.manual_seed(h), np.random.seed(h)
            ctx.impl("initializing a network", HN.initialize_network_polynomial_layers, m, max_slope=slope, max_offset=off, scale_slope=f)
            for q in net_layers(m):
                is_line(ctx, q, "disc" if "disc" in t else "cont", 3, 2, 2.0, slope * float(f(q.w.shape[1])), off)
                ctx.step()
            ctx.trace()
            ctx.states(1)
            ctx.outcome(w64(net_layers(m)[0]).tobytes())
        ctx.sample(task)
        return
    if part == "linear_nets":
        scales = {"one": lambda k: 1, "inv": lambda k: 1.0 / k, "sqrt": lambda k: 1.0 / np.sqrt(k)}
        for t, h, (slope, off), sc in itertools.product(("continuous", "discontinuous", "polynomial", "switch_continuous", "switch_discontinuous", "fourier"), (0, 1, 3), ((1.0, 0.0), (2.0, 0.5)), scales):
            widths = (2, 4, 3)
            m = HN.HighOrderMLP(layer_type=t, n=3, n_in=2, n_hidden=4, n_out=3, in_width=2, hidden_width=4, out_width=3, hidden_layers=h, in_segments=3,
                                hidden_segments=2, out_segments=5, normalization=HL.MaxAbsNormalization)
            refill(m, 0.5)
            before = [p.detach().clone() for p in m.parameters()]
            ctx.at(type=t, hidden=h, slope=slope, offset=off, scale=sc)
            random.seed(h)
            ctx.impl("initializing a network", HN.initialize_network_polynomial_layers, m, max_slope=slope, max_offset=off, scale_slope=scales[sc])
            if t in ("polynomial", "fourier"):
                for p, q in zip(m.parameters(), before):
                    ctx.same("initialization touched a layer without pieces", p.detach(), q)
            else:
                ls = net_layers(m)
                allab = []
                for q in ls:
                    n, s = {(4, 2): (2, 3), (4, 4): (4, 2), (3, 4): (3, 5)}[tuple(q.w.shape[:2])]
                    fan = q.w.shape[1]
                    allab += is_line(ctx, q, "disc" if "disc" in t else "cont", n, s, 2.0, slope * float(scales[sc](fan)), off)
                ctx.require(len({round(a, 9) for a, _ in allab}) > 1, "all links are initialized alike")
            ctx.step()
            ctx.trace()
            ctx.states(1)
            ctx.outcome(t, h, slope, sc)
        ctx.sample(task)


T = ["float32 CPU tensors", "PyTorch trusted"]
PROPS = {
    "C09": Prop("C09", c09_tasks, c09, "all (kind, product, n, n', segments) in the stated ranges x layer widths, lengths, periodicities; weights compared with the reference interpolation, functions compared at nodes, boundaries (+-1 ulp), midpoints and outside", T),
    "C10": Prop("C10", c10_tasks, c10, "all (n, segments) x (n', segments') pairs in the stated ranges, nested and not nested; whole networks", T),
    "C11": Prop("C11", c11_tasks, c11, "explicit state search: all histories of refinements and training steps over five networks up to the stated depth, states deduplicated by the exact weights of all networks; every allocating operation of a refinement fails once; all schedules with one preemption of a refinement by a second thread", T),
    "C12": Prop("C12", c12_tasks, c12, "all smoothing histories up to the stated depth over the factor alphabet, all (n, segments) in range", T),
    "C13": Prop("C13", c13_tasks, c13, "all layer shapes in range; the random source is scripted with all answer sequences over {0, 1/4, 1/2, largest below 1}, seeds enumerated", T),
}
