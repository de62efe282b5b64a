"""C01-C04, C06-C08, C16: what a fully connected layer computes."""
import itertools

import numpy as np
import torch

from high_order_layers_torch.layers import Product, high_order_fc_layers
from high_order_layers_torch.utils import make_periodic
from mc import ref, twin
from mc.core import Prop
from mc.props import ladder

TYPE = {"poly": "polynomial", "cont": "continuous", "disc": "discontinuous"}


def build(ctx, kind, n, segs, i, o, prod=False, **kw):
    name = TYPE[kind] + ("_prod" if prod else "")
    return ctx.impl(f"constructing {name} n={n} segments={segs}",
                    high_order_fc_layers, layer_type=name, n=n, in_features=i, out_features=o, segments=segs, **kw)


def put(layer, w):
    w = torch.as_tensor(np.ascontiguousarray(w), dtype=torch.float32)
    with torch.no_grad():
        layer.w.copy_(w)
    return layer.w.detach().double().numpy()


def run(ctx, layer, x, grad=False):
    x = torch.as_tensor(np.ascontiguousarray(x, dtype=np.float32))
    keep = x.clone()
    with torch.set_grad_enabled(grad):
        y = ctx.impl("forward", layer, x)
    ctx.same("the input of forward was modified", x, keep)
    return y.detach().double().numpy()


def compare(ctx, what, kind, n, segs, layer, w, x, length, prod=False, dx=None, xr=None):
    """real forward on all rows of x against the reference"""
    y = run(ctx, layer, x)
    xr = np.asarray(x, np.float64) if xr is None else xr
    f = ref.layer_prod if prod else ref.layer_sum
    want, tol, alt = f(kind, n, segs, w, xr, length, 0.0 if dx is None else dx)
    ctx.close(what, y, want, tol, alt=alt, n=n, segments=segs, kind=kind)
    ctx.step(x.shape[0])
    ctx.trace(1)
    ctx.outcome(np.round(y[:64], 3).tobytes())
    return y


def columns(vals, k):
    """[len(vals), k]: column c is a different permutation of vals (stride coprime to len)"""
    m = len(vals)
    cols = []
    for c in range(k):
        s = 1 if c == 0 else 2 * c + 1
        while np.gcd(s, m) != 1:
            s += 1
        cols.append(vals[(np.arange(m) * s + 7 * c) % m])
    return np.stack(cols, 1)


NSEG_Q = [(n, s) for n in range(1, 9) for s in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12)] + \
    [(2, 16), (3, 16), (2, 33), (4, 25), (2, 64), (3, 100), (2, 257), (10, 3), (12, 2), (9, 5)]
NSEG_T = [(n, s) for n in range(1, 13) for s in list(range(1, 33)) + [50, 64, 100, 128, 257]]


# ---------------------------------------------------------------- C01
def c01_tasks(tier):
    out = []
    pairs = NSEG_Q if tier == "quick" else NSEG_T
    for kind in ("poly", "cont", "disc"):
        done = set()
        for n, s in pairs:
            if kind == "poly":
                s = 1
            if (n, s) in done:
                continue
            done.add((n, s))
            out.append(dict(kind=kind, n=n, segments=s, cost=n))
        out.append(dict(kind=kind, n=3, segments=4, wide=1, cost=20))
        out.append(dict(kind=kind, n=2, segments=3, batches=1, cost=20))
    for n in (14, 16, 20):
        out.append(dict(kind="poly", n=n, segments=1, cost=n))
    out += [dict(kind=k, ladder=p, cost=20) for k in ("poly", "cont", "disc") for p in ladder.fc_parts(tier) if p != "length"]
    return out


def c01(task, ctx):
    if task.get("ladder"):
        return ladder.fc(ctx, task["kind"], False, task["ladder"])
    kind, n, segs = task["kind"], task["n"], task["segments"]
    V = ref.num_weights(kind, n, segs)
    if task.get("wide"):
        # wide layers: many inputs / outputs, same formula
        for i, o in itertools.product((1, 2, 3, 7, 16, 33, 64), (1, 2, 5, 17, 64)):
            ctx.at(inputs=i, outputs=o)
            layer = build(ctx, kind, n, segs, i, o)
            w = put(layer, ref.fill((o, i, V)))
            x = columns(ref.special_points(n, segs, 2.0, outside=()), i)
            compare(ctx, "wide layer", kind, n, segs, layer, w, x, 2.0)
            ctx.states(x.shape[0])
        return
    if task.get("batches"):
        layer = build(ctx, kind, n, segs, 3, 2)
        w = put(layer, ref.fill((2, 3, V)))
        pts = ref.special_points(n, segs, 2.0, outside=())
        for b in list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 10000]:
            ctx.at(batch=b)
            x = np.resize(columns(pts, 3), (b, 3)).astype(np.float32)
            y = compare(ctx, "batch size", kind, n, segs, layer, w, x, 2.0) if b else run(ctx, layer, x)
            ctx.require(y.shape == (b, 2), f"output shape {y.shape} for batch {b}")
            ctx.states(1)
        return
    # 1. all basis functions at once: one output per weight, identity weights, all half floats
    xs = ref.all_half(-1.0, 1.0) if (n <= 4 or segs <= 4 or ctx.thorough) else ref.bf16(-1, 1)[::1]
    if V > 60:
        xs = xs[:: max(1, V // 30)]
    layer = build(ctx, kind, n, segs, 1, V)
    w = put(layer, np.eye(V).reshape(V, 1, V))
    ctx.at(part="basis")
    sp = ref.special_points(n, segs, 2.0, outside=())
    x = np.unique(np.concatenate([xs, sp]))
    step = max(1, 400000 // (V * max(n, 2)))
    if len(x) * V * n > 4_000_000 and not ctx.thorough:
        keep = max(1, (len(x) * V * n) // 4_000_000)
        x = np.unique(np.concatenate([xs[::keep + 1], sp]))
    for k in range(0, len(x), step):
        compare(ctx, "basis functions", kind, n, segs, layer, w, x[k:k + step, None], 2.0)
    ctx.states(len(x))
    # 2. generic distinct weights, every half precision number in the domain
    layer = build(ctx, kind, n, segs, 1, 1)
    w = put(layer, ref.fill((1, 1, V), 3.0))
    ctx.at(part="link")
    xs = np.unique(np.concatenate([ref.all_half(-1.0, 1.0), sp]))
    compare(ctx, "link value", kind, n, segs, layer, w, xs[:, None], 2.0)
    ctx.states(len(xs))
    # the value at a node is the weight of that node
    X = ref.nodes(n)
    for s in range(segs):
        g = (-1 + 2 * s / segs) + (X + 1) / segs
        if kind == "disc":
            g = g.copy()
            if n > 1:
                g[-1] = g[-1] - (1e-6 if s < segs - 1 else 0)
                g[0] = g[0] + (1e-6 if s > 0 else 0)
        y = run(ctx, layer, g[:, None].astype(np.float32))[:, 0]
        first = int(ref.wrap(kind, n, segs, np.array(s)))
        want = w[0, 0, first:first + n]
        if n == 1:
            want = want[:1]
        slope = 3.0 * (n * n * segs) * 4 * ref.EPS * 20 + (3.0 * n * n * segs * 3e-6 if kind == "disc" else 0)
        ctx.close("value at the nodes", y, want, slope + 1e-6, n=n, segments=segs, segment=s)
        ctx.step(len(g))
    # 3. several inputs: exhaustive product of the special points
    base = ref.special_points(n, segs, 2.0, outside=())
    short = base if len(base) <= 24 else base[np.unique(np.linspace(0, len(base) - 1, 24).astype(int))]
    for i, o in ((2, 1), (2, 3), (3, 2)):
        ctx.at(part="sum", inputs=i, outputs=o)
        sh = short if i == 2 else short[::2]
        x = np.array(list(itertools.product(sh, repeat=i)), np.float32)
        layer = build(ctx, kind, n, segs, i, o)
        w = put(layer, ref.fill((o, i, V), 1.0))
        compare(ctx, "sum over the inputs", kind, n, segs, layer, w, x, 2.0)
        ctx.states(len(x))
    ctx.sample(dict(kind=kind, n=n, segments=segs, x=float(xs[len(xs) // 3]), inputs=int(len(xs))))


# ---------------------------------------------------------------- C02
LENGTHS = (2.0, 1.0, 4.0, 0.5, 3.0, 0.1, 10.0, 6.283185307179586)


def c02_tasks(tier):
    out = []
    pairs = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (2, 5), (3, 1), (3, 2), (3, 4), (4, 3), (5, 2), (6, 7), (2, 16), (7, 1), (3, 33)]
    if tier == "thorough":
        pairs = [(n, s) for n in range(1, 9) for s in list(range(1, 17)) + [33, 64]]
    for kind in ("poly", "cont", "disc"):
        seen = set()
        for n, s in pairs:
            if kind == "poly":
                s = 1
            for prod in (False, True):
                if (n, s, prod) in seen:
                    continue
                seen.add((n, s, prod))
                out.append(dict(kind=kind, n=n, segments=s, prod=prod, cost=n * (2 - prod)))
    out += [dict(kind=k, prod=p, ladder=q, cost=20) for k in ("poly", "cont", "disc") for p in (False, True) for q in ("length", "order", "pieces", "in", "out", "batch", "values")]
    return out


def c02(task, ctx):
    if task.get("ladder"):
        return ladder.fc(ctx, task["kind"], task["prod"], task["ladder"], inside=False)
    kind, n, segs, prod = task["kind"], task["n"], task["segments"], task["prod"]
    V = ref.num_weights(kind, n, segs)
    lens = LENGTHS if not prod else LENGTHS[:4]
    for length in lens:
        half = length / 2
        layer = build(ctx, kind, n, segs, 1, 1, prod=prod, length=length)
        w = put(layer, ref.fill((1, 1, V), 1.0))
        # inside and far outside; magnitudes up to 1000 half lengths
        inside = ref.all_half(-1, 1)[::7].astype(np.float64) * half
        mags = np.concatenate([np.linspace(1, 4, 301), np.geomspace(4, 1000, 200)])
        outside = np.concatenate([mags, -mags]) * half
        raw = ref.all_half(-16, 16)[::3] if ctx.thorough else ref.all_half(-16, 16)[::11]
        sp = ref.special_points(n, segs, length, outside=(1.0, 1.0001, 1.5, 2, 10))
        x = np.unique(np.concatenate([inside.astype(np.float32), outside.astype(np.float32), raw, sp]))
        ctx.at(length=length)
        compare(ctx, "domain and extrapolation", kind, n, segs, layer, w, x[:, None], length, prod=prod)
        ctx.states(len(x))
        # two inputs, one inside one outside
        sh = np.unique(np.concatenate([sp[:: max(1, len(sp) // 14)], np.float32([-3 * half, 1.25 * half])]))
        x2 = np.array(list(itertools.product(sh, repeat=2)), np.float32)
        layer = build(ctx, kind, n, segs, 2, 2, prod=prod, length=length)
        w = put(layer, ref.fill((2, 2, V), 0.7))
        compare(ctx, "domain and extrapolation (2 inputs)", kind, n, segs, layer, w, x2, length, prod=prod)
        ctx.states(len(x2))
    # the length only rescales the input axis: f_length(x) == f_2(2x/length)
    a = build(ctx, kind, n, segs, 1, 1, prod=prod)
    put(a, ref.fill((1, 1, V)))
    for length in (1.0, 4.0, 0.5, 8.0):
        b = build(ctx, kind, n, segs, 1, 1, prod=prod, length=length)
        put(b, ref.fill((1, 1, V)))
        x = ref.all_half(-2, 2)[::5]
        ya = run(ctx, a, x[:, None])
        yb = run(ctx, b, (x * (length / 2))[:, None])
        want, tol, alt = (ref.layer_prod if prod else ref.layer_sum)(kind, n, segs, ref.fill((1, 1, V)), x[:, None].astype(float), 2.0)
        ctx.close("rescaled length", yb, ya, 2 * tol + (np.abs(alt[0] - want) if alt else 0), length=length)
        ctx.step(len(x))
    ctx.sample(dict(kind=kind, n=n, segments=segs, lengths=list(lens)))


# ---------------------------------------------------------------- C03
def c03_tasks(tier):
    ns = (1, 2, 3, 4, 5, 7, 9) if tier == "quick" else range(1, 12)
    segs = (1, 2, 3, 4, 5, 7, 8, 11, 16, 32) if tier == "quick" else list(range(1, 41)) + [64, 100]
    out = [dict(kind=k, n=n, segments=s, cost=s) for k in ("cont", "disc") for n in ns for s in segs]
    if tier == "quick":
        out += [dict(kind=k, n=n, segments=s, cost=s) for k in ("cont", "disc") for n in (2, 3) for s in list(range(1, 41)) + [64, 65, 100, 128, 129] if s not in segs]
    return out


def c03(task, ctx):
    kind, n, segs = task["kind"], task["n"], task["segments"]
    V = ref.num_weights(kind, n, segs)
    for length in (2.0, 1.0, 3.0):
        layer = build(ctx, kind, n, segs, 1, 1, length=length)
        w = put(layer, ref.fill((1, 1, V), 2.0))
        W = w[0, 0]
        half, h = length / 2, length / segs
        exact = ref.exact_boundaries(segs, length)
        for s in range(1, segs):
            ctx.at(length=length, boundary=s)
            b = np.float32(-half + s * h)
            pts = [b]
            for d in (np.float32(-np.inf), np.float32(np.inf)):
                p = b
                for _ in range(6):
                    p = np.nextafter(p, d)
                    pts.append(p)
            off = max(1e-5 * h, 6 * ref.EPS * length)
            pts += [np.float32(b - off), np.float32(b + off)]
            pts = np.array(pts, np.float32)
            y = run(ctx, layer, pts[:, None])[:, 0]
            dmax = 2.0 * n * n * 2 * segs / length  # Markov bound on the slope near the node
            tol = dmax * (1.2 * off + 8 * ref.EPS * (half + 1)) + 1e-5
            if kind == "cont":
                ctx.close("continuity at a boundary", y, np.full(len(pts), W[s * (n - 1)] if n > 1 else W[0]), tol, boundary=s, n=n)
            else:
                left, right = (W[s * n - 1], W[s * n])
                if n == 1:
                    left, right = W[s - 1], W[s]
                ctx.close("value left of a boundary", y[-2:-1], np.full(1, left), tol)
                ctx.close("value right of a boundary", y[-1:], np.full(1, right), tol)
                if exact:
                    ctx.close("the boundary belongs to the right hand segment", y[0:1], np.full(1, right), tol)
                else:
                    ctx.close("value at a boundary", y[0:1], np.full(1, right), tol, alt=[np.full(1, left)])
            ctx.states(len(pts))
            ctx.step(len(pts))
        # changing the weights on one side of the boundary must not change the other side
        if kind == "disc":
            for s in range(segs):
                w2 = w.copy()
                w2[0, 0, s * n:(s + 1) * n] += 1.0
                other = build(ctx, kind, n, segs, 1, 1, length=length)
                put(other, w2)
                mid = (-half + (np.arange(segs) + 0.5) * h).astype(np.float32)
                d = run(ctx, other, mid[:, None])[:, 0] - run(ctx, layer, mid[:, None])[:, 0]
                want = np.zeros(segs)
                want[s] = 1.0
                ctx.close("segments are independent", d, want, 1e-4)
                ctx.step(segs)
        else:
            # the largest jump between neighbouring floats anywhere in the domain is rounding only
            xs = np.sort(ref.special_points(n, segs, length, outside=()))
            y = run(ctx, layer, xs[:, None])[:, 0]
            gap = np.diff(xs.astype(np.float64))
            jump = np.abs(np.diff(y))
            L = 2.0 * n * n * 2 * segs / length * 3
            _, tol, _ = ref.layer_sum(kind, n, segs, w, xs[:, None].astype(float), length)
            lim = gap * L + tol[1:, 0] + tol[:-1, 0]
            ctx.require((jump <= lim).all(), f"jump {float((jump - lim).max())} between neighbouring inputs", n=n, segments=segs)
            ctx.states(len(xs))
        ctx.trace(1)
    ctx.outcome(kind, n, segs, W.tobytes())
    ctx.sample(dict(kind=kind, n=n, segments=segs))


# ---------------------------------------------------------------- C04
def c04_tasks(tier):
    out = []
    pairs = [(1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 5), (4, 2), (4, 4), (5, 3), (6, 2), (2, 8), (3, 16), (2, 33)]
    if tier == "thorough":
        pairs = [(n, s) for n in range(1, 8) for s in range(1, 13)] + [(2, 64), (3, 40)]
    for kind in ("poly", "cont", "disc"):
        done = set()
        for n, s in pairs:
            s = 1 if kind == "poly" else s
            if (n, s) not in done:
                done.add((n, s))
                out.append(dict(kind=kind, n=n, segments=s, cost=s * n))
    for j, _ in enumerate(c04_models(tier)):
        out.append(dict(kind="model", j=j, cost=30))
    out += [dict(kind=k, prod=p, ladder=q, cost=40) for k in ("poly", "cont", "disc") for p in (False, True) for q in ladder.GRAD_PARTS]
    return out


def c04_models(tier):
    """the layers whose gradients are compared with differences of their reference model"""
    from mc.models import ConvM, FC, FourierM, NDM, ProductM, SwitchM
    out = []
    for kind in ("poly", "cont", "disc"):
        for n, s in ((1, 2), (2, 1), (2, 3), (3, 2), (4, 3), (5, 1)):
            if kind == "poly" and s > 2:
                continue
            if n > 1:
                out.append(FC(kind, n, s, 3, 2, prod=True))
                out.append(FC(kind, n, s, 2, 2, per=2.0))
                out.append(FC(kind, n, s, 2, 1, per=1.0, prod=True))
            out.append(FC(kind, n, s, 1, 2, prod=True, length=3.0))
            out.append(FC(kind, n, s, 5, 1, prod=True, length=1.0))
    for i, o in ((1, 1), (2, 3), (4, 2)):
        for bias, alpha, per in ((True, 1.0, None), (False, 0.5, None), (True, 0.0, 2.0)):
            out.append(ProductM(i, o, bias, alpha, per))
    for n in (1, 2, 3, 4, 5, 8):
        for length in (2.0, 1.0, 5.0):
            out.append(FourierM(n, 2, 2, length))
    for kind in ("cont", "disc"):
        for n, s, layers, sc in ((2, 3, 1, 2.0), (3, 2, 2, 2.0), (3, 2, 3, 4.0), (4, 1, 2, 1.0)):
            out.append(SwitchM(kind, n, s, 2, 2, layers, sc))
    for ns in ((2, 3), (3, 1), (2, 3, 2), (2, 2, 2, 2)):
        for length in (2.0, 3.0):
            out.append(NDM("poly", ns, None, 2, 2, length))
            out.append(NDM("pw", ns, tuple(1 + (j + 1) % 3 for j in range(len(ns))), 2, 2, length))
    for kind in ("poly", "cont", "disc", "fourier"):
        for nd in (1, 2):
            sz = (5, 4)[:nd]
            out.append(ConvM(kind, nd, 3, 2, 2, 2, 2, size=sz))
            out.append(ConvM(kind, nd, 2, 3, 1, 2, 2, length=3.0, size=sz, stride=2, padding=1))
            out.append(ConvM(kind, nd, 4, 1, 2, 2, 2, size=sz, groups=2, dilation=2))
            if kind != "fourier":
                out.append(ConvM(kind, nd, 3, 2, 1, 1, 2, size=sz, per=2.0, rescale=True))
    for kw in (dict(), dict(length=3.0, stride=2), dict(padding=1, output_padding=1, stride=2), dict(per=2.0, rescale=True), dict(dilation=2)):
        out.append(ConvM("cont", 2, 3, 2, 2, 2, 2, size=(3, 2), transpose=True, **kw))
    return out


def c04_model(task, ctx):
    """d(sum c*y) for every weight and every input against central differences of the float64 reference"""
    import copy

    from mc.models import refill
    M = c04_models(ctx.tier)[task["j"]]
    conv = "conv" in M.name
    m = refill(ctx.impl("constructing", M.build), 0.8)
    twin = copy.deepcopy(m).double()
    tp = dict(twin.named_parameters())
    sets = [(1, 0), (3, 1), (2, 4)] if not conv else [(1, 0), (2, 1)]
    if ctx.thorough:
        sets += [(1, k) for k in range(5, 25)] + [(4, 9)]
    sets = [(b, k, None) for b, k in sets]
    # degenerate weights: nothing, everything equal, factors that vanish, large and negative links
    sets += [(2, 3, "zero"), (2, 3, "large")]
    if "product" in M.name or "_prod" in M.name:
        sets += [(2, 2, "factor"), (1, 2, "factors"), (3, 5, "factor")]
    for b, which, special in sets:
        x = M.x(b, which)
        refill(m, 0.8)
        with torch.no_grad():
            if special == "zero":
                for p in m.parameters():
                    p.zero_()
            elif special == "large":
                refill(m, 4.0)
            elif special in ("factor", "factors"):
                cols = 1 if special == "factor" else 2
                if "_prod" in M.name:
                    m.w[:, :cols] = -1.0
                else:
                    m.weight[:, :cols] = 2.0
                    x[:, :cols] = -0.5
            for k, p in m.named_parameters():
                tp[k].copy_(p)
        ctx.at(layer=M.name, batch=b, which=which, weights=special)
        want, _, skip = M.predict(twin, x)
        c = ref.fill(want.shape, 1.0, 0.3).astype(np.float64)
        if skip.any():
            continue
        m.zero_grad(set_to_none=True)
        xt = torch.tensor(x, requires_grad=True)
        y = ctx.impl("forward", m, xt)
        ctx.require(tuple(y.shape) == want.shape, "shape")
        ctx.impl("backward", (y * torch.tensor(c, dtype=torch.float32)).sum().backward)
        keep = xt.detach().clone()
        ctx.same("backward changed the input", xt.detach(), keep)

        def val(xx):
            return float((M.predict(twin, xx)[0] * c).sum())
        for k, p in m.named_parameters():
            if k.split(".")[-1] == "result":
                continue
            got = p.grad.double().numpy() if p.grad is not None else np.zeros(tuple(p.shape))
            fd = np.zeros(got.shape)
            q = tp[k].data
            h = 2.0 ** -8
            for idx in np.ndindex(*got.shape):
                old = float(q[idx])
                q[idx] = old + h
                a = val(x)
                q[idx] = old - h
                e = val(x)
                q[idx] = old
                fd[idx] = (a - e) / (2 * h)
            tiny = np.abs(fd) < 1e-12
            big = np.abs(fd).max() + 1e-3
            if not conv and special is None:
                ctx.require(bool((got[tiny] == 0).all() or (np.abs(got[tiny]) < 1e-6 * big).all()), f"{k}: a weight without influence has a gradient")
            ctx.close("weight gradient", got, fd, 2e-4 * big + 2e-4 * np.abs(fd) + (1e-5 if special else 0), layer=M.name, parameter=k)
            ctx.step(fd.size)
        h = 2.0 ** -17
        fd = np.zeros(x.shape)
        ok = np.ones(x.shape, bool)
        x64 = x.astype(np.float64)
        mid = val(x64)
        for idx in np.ndindex(*x.shape):
            xx = x64.copy()
            xx[idx] += h
            a = val(xx)
            xx[idx] -= 2 * h
            e = val(xx)
            fd[idx] = (a - e) / (2 * h)
            ok[idx] = abs(a - 2 * mid + e) < 1e-3 * h * (1 + abs(a - e) / h)  # no kink or jump here
        gx = xt.grad.double().numpy() if xt.grad is not None else np.zeros(x.shape)
        big = np.abs(fd[ok]).max(initial=0) + 1e-2
        ctx.close("input gradient", gx[ok], fd[ok], 1e-3 * big + (1e-4 if special else 0), layer=M.name)
        ctx.step(fd.size)
        ctx.states(int(ok.sum()) + 1)
        ctx.trace()
        ctx.outcome(np.round(gx, 4).tobytes())
    ctx.sample(dict(layer=M.name))


def grads(ctx, layer, x, out_weights=None):
    layer.zero_grad(set_to_none=True)
    xt = torch.as_tensor(x, dtype=torch.float32).clone().requires_grad_(True)

    def go():
        y = layer(xt)
        v = y.sum() if out_weights is None else (y * out_weights).sum()
        v.backward()
    ctx.impl("backward", go)
    ctx.require(layer.w.grad is not None, "no gradient reached the weights")
    gx = xt.grad if xt.grad is not None else torch.zeros_like(xt)  # a constant link
    return layer.w.grad.detach().double().numpy(), gx.detach().double().numpy()


def c04(task, ctx):
    if task.get("ladder"):
        return ladder.grad(ctx, task["kind"], task["prod"], task["ladder"])
    if task["kind"] == "model":
        return c04_model(task, ctx)
    kind, n, segs = task["kind"], task["n"], task["segments"]
    V = ref.num_weights(kind, n, segs)
    S = 1 if kind == "poly" else segs
    for length in (2.0, 3.0):
        half = length / 2
        pts = ref.special_points(n, S, length, outside=(1.2, 3.0))
        cap = 150 if not ctx.thorough else 600
        if len(pts) > cap:
            pts = pts[np.unique(np.linspace(0, len(pts) - 1, cap).astype(int))]
        layer = build(ctx, kind, n, segs, 1, 1, length=length)
        w = put(layer, ref.fill((1, 1, V)))
        per_point = {}
        for p in pts:
            p64 = float(p)
            ctx.at(length=length, x=p64)
            gw, gx = grads(ctx, layer, [[p]])
            gw = gw[0, 0]
            seg, alt = ref.locate(np.array([p64]), S, length)
            cands = []
            for sg in {int(seg[0]), int(alt[0])}:
                sgv = np.array([sg])
                t, L, D, Sn, dt = ref.basis_at(kind, n, S, length, np.array([p64]), sgv)
                first = int(ref.wrap(kind, n, S, sgv)[0])
                want = np.zeros(V)
                tol = np.zeros(V)
                want[first:first + n] = L[0]
                tol[first:first + n] = ref.C * (ref.EPS * Sn[0] + np.abs(D[0]) * dt[0]) + 1e-30
                slope = float((w[0, 0, first:first + n] * D[0]).sum() * 2 * S / length)
                cands.append((want, tol, slope, sg, t, D))
            ok = [c for c in cands if (np.abs(gw - c[0]) <= c[1]).all()]
            ctx.require(ok, f"weight gradient at x={p64} is {gw.tolist()}, expected the basis values {cands[0][0].tolist()}")
            # outside the active segment the gradient is exactly zero, not merely small
            good = ok[0]
            dead = np.ones(V, bool)
            first = int(ref.wrap(kind, n, S, np.array([good[3]]))[0])
            dead[first:first + n] = False
            ctx.require((gw[dead] == 0.0).all(), f"non zero gradient outside the active segment at x={p64}")
            # derivative with respect to x
            got = float(gx[0, 0])
            lim = 1e-4 * (1 + abs(good[2])) + ref.C * 8 * ref.EPS * (n ** 4) * (S ** 2) * (1 + abs(p64) / half) ** max(n - 1, 0) * 4 / length
            ctx.require(any(abs(got - c[2]) <= lim for c in cands), f"input gradient {got} at x={p64}, derivative is {[c[2] for c in cands]}")
            per_point[p64] = gw
            ctx.states(1)
            ctx.step(2)
        ctx.trace(1)
        # a batch: the gradient is the sum over the samples, links do not mix
        i, o = 3, 2
        layer = build(ctx, kind, n, segs, i, o, length=length)
        put(layer, ref.fill((o, i, V)))
        single = build(ctx, kind, n, segs, 1, 1, length=length)
        put(single, ref.fill((1, 1, V)))
        P = pts[:: max(1, len(pts) // 12)]
        X = columns(P, i)
        ow = torch.tensor([[1.0, -2.0]])
        gw, gx = grads(ctx, layer, X, ow)
        want = np.zeros((o, i, V))
        mag = np.zeros((o, i, V))
        for r in range(len(P)):
            for c in range(i):
                b, _ = grads(ctx, single, [[X[r, c]]])
                for k, f in enumerate((1.0, -2.0)):
                    want[k, c] += f * b[0, 0]
                    mag[k, c] += abs(f) * np.abs(b[0, 0])
        ctx.close("batch gradient is the sum of the sample gradients", gw, want, 1e-5 * mag + 1e-30 + ref.EPS * 8 * mag)
        ctx.require(((want != 0) | (gw == 0)).all(), "gradient outside of the active segments of the batch")
        # inputs of other links have no influence on x gradients
        f, tol, fa, df = ref.links(kind, n, segs, layer.w.detach().double().numpy(), X.astype(float), length, deriv=True)
        dx = (df * np.array([1.0, -2.0])[None, :, None]).sum(1)
        amb = ref.locate(X.astype(float), S, length)
        sel = amb[0] == amb[1]
        big = np.abs(df).sum(1).max() + 1
        sc = 1e-4 * big * (1 + np.abs(X) / half) ** max(n - 1, 0) + ref.C * ref.EPS * n ** 4 * S ** 2 * (1 + np.abs(X) / half) ** max(n - 1, 0) * 8 / length
        ctx.close("input gradients", np.where(sel, gx, 0), np.where(sel, dx, 0), sc)
        ctx.step(len(P))
    ctx.outcome(kind, n, segs, gw.tobytes())
    ctx.sample(dict(kind=kind, n=n, segments=segs, points=len(pts)))


# ---------------------------------------------------------------- C06 products
def c06_tasks(tier):
    out = []
    pairs = [(1, 1), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 3), (5, 2), (2, 8)]
    if tier == "thorough":
        pairs = [(n, s) for n in range(1, 8) for s in range(1, 10)]
    for kind in ("poly", "cont", "disc"):
        done = set()
        for n, s in pairs:
            s = 1 if kind == "poly" else s
            if (n, s) not in done:
                done.add((n, s))
                out.append(dict(kind=kind, n=n, segments=s))
    for bias in (True, False):
        for alpha in (None, 0.0, 0.25, 0.5, 1.0, 2.0, -1.0):
            for per in (None, 2.0):
                out.append(dict(kind="product", bias=bias, alpha=alpha, periodicity=per))
    out += [dict(kind=k, ladder=p, cost=20) for k in ("poly", "cont", "disc") for p in ladder.fc_parts(tier)]
    out += [dict(kind="product", ladder=p) for p in ("in", "out", "values")]
    return out


def c06(task, ctx):
    if task.get("ladder"):
        return ladder.product(ctx, task["ladder"]) if task["kind"] == "product" else ladder.fc(ctx, task["kind"], True, task["ladder"])
    kind = task["kind"]
    if kind == "product":
        al = 1.0 if task["alpha"] is None else task["alpha"]
        for i, o in itertools.product((1, 2, 3, 4, 9), (1, 2, 5)):
            kw = {} if task["alpha"] is None else dict(alpha=task["alpha"])
            layer = ctx.impl("constructing product", high_order_fc_layers, layer_type="product", in_features=i, out_features=o,
                             bias=task["bias"], periodicity=task["periodicity"], **kw)
            with torch.no_grad():
                layer.weight.copy_(torch.tensor(ref.fill((o, i), 1.5)))
                if task["bias"]:
                    layer.bias.copy_(torch.tensor(ref.fill((o,), 0.5)))
            W = layer.weight.detach().double().numpy()
            b = layer.bias.detach().double().numpy() if task["bias"] else np.zeros(o)
            vals = np.float32([-3, -2, -1, -0.5, 0, 0.3, 1, 2.5])
            x = np.array(list(itertools.product(vals, repeat=i)), np.float32) if i <= 4 else columns(ref.all_half(-3, 3)[::50], i)
            ctx.at(inputs=i, outputs=o)
            y = run(ctx, layer, x)
            xr = x.astype(float)
            dx = 0.0
            if task["periodicity"]:
                dx = ref.fold_err(xr, task["periodicity"])
                xr = ref.fold(xr, task["periodicity"])
            f = xr[:, None, :] * W[None]
            tol = np.abs(W)[None] * (np.broadcast_to(dx, xr.shape)[:, None, :]) + 2 * ref.EPS * np.abs(f)
            p, t = ref.prod_value(f, tol)
            want = p - (1 - al) * f.sum(-1) + b
            t = 4 * t + 8 * ref.EPS * (abs(1 - al) * np.abs(f).sum(-1) + np.abs(b)) * (i + 2) + abs(1 - al) * tol.sum(-1)
            ctx.close("product layer", y, want, t)
            ctx.states(len(x))
            ctx.step(len(x))
            ctx.trace(1)
            ctx.outcome(y.tobytes())
        ctx.sample(dict(task=task))
        return
    n, segs = task["n"], task["segments"]
    V = ref.num_weights(kind, n, segs)
    sp = ref.special_points(n, segs, 2.0, outside=(1.5,))
    for i, o in itertools.product((1, 2, 3, 5), (1, 2, 4)):
        layer = build(ctx, kind, n, segs, i, o, prod=True)
        w = put(layer, ref.fill((o, i, V), 1.3))
        ctx.at(inputs=i, outputs=o)
        if i == 1:
            x = np.unique(np.concatenate([ref.all_half(-1.5, 1.5)[::3], sp]))[:, None]
        elif i <= 3:
            k = 30 if i == 2 else 11
            sh = sp[np.unique(np.linspace(0, len(sp) - 1, k).astype(int))]
            x = np.array(list(itertools.product(sh, repeat=i)), np.float32)
        else:
            x = columns(sp, i)
        compare(ctx, "product of the links", kind, n, segs, layer, w, x, 2.0, prod=True)
        ctx.states(len(x))
    # batch sizes
    for b in list(range(1, 20)) + [64, 257, 1024]:
        x = np.resize(columns(sp, 5), (b, 5)).astype(np.float32)
        compare(ctx, "product layer batch", kind, n, segs, layer, w, x, 2.0, prod=True)
        ctx.states(1)
    # if all links but one are zero the product is that link
    for hot in range(3):
        ww = np.zeros((2, 3, V), np.float32)
        ww[:, hot] = ref.fill((2, V), 1.0)
        layer = build(ctx, kind, n, segs, 3, 2, prod=True)
        w = put(layer, ww)
        x = columns(sp, 3)
        y = run(ctx, layer, x)
        one, tol, alt = ref.layer_sum(kind, n, segs, w[:, hot:hot + 1], x[:, hot:hot + 1].astype(float), 2.0)
        ctx.close("single active link", y, one, 3 * tol + 1e-5, alt=alt)
        ctx.step(len(x))
    ctx.sample(dict(task=task))


# ---------------------------------------------------------------- C07 fourier
def c07_tasks(tier):
    ns = range(1, 10) if tier == "quick" else range(1, 22)
    out = [dict(what="fc", n=n, length=L) for n in ns for L in (2.0, 1.0, 0.5, 3.0, 10.0)]
    out += [dict(what="fc", n=n, length=None) for n in ns]
    out += [dict(what="ladder", ladder=p, n=p) for p in ("order", "in", "out", "batch", "values")]
    return out


def c07(task, ctx):
    if task.get("ladder"):
        return ladder.fourier(ctx, task["ladder"])
    n, length = task["n"], task["length"]
    kw = {} if length is None else dict(length=length)
    length = 2.0 if length is None else length
    for how in ("factory", "embedding"):
        for i, o in itertools.product((1, 2, 3, 8), (1, 2, 5)):
            if how == "factory":
                layer = ctx.impl("constructing fourier", high_order_fc_layers, layer_type="fourier", n=n, in_features=i, out_features=o, **kw)
            else:
                from high_order_layers_torch.positional_embeddings import FourierSeriesEmbedding
                layer = ctx.impl("constructing fourier embedding", FourierSeriesEmbedding, n=n, in_features=i, out_features=o, **kw)
                ctx.require(layer is not None, "no embedding returned")
            w = put(layer, ref.fill((o, i, n), 1.0))
            sp = np.unique(np.concatenate([np.linspace(-4, 4, 129), [1e-6, -1e-6, 0.0, 50.0, -50.0]])).astype(np.float32) * np.float32(length / 2)
            if i == 1:
                x = np.unique(np.concatenate([ref.all_half(-4, 4)[::3], sp]))[:, None]
            elif i <= 3:
                sh = sp[np.unique(np.linspace(0, len(sp) - 1, 40 if i == 2 else 13).astype(int))]
                x = np.array(list(itertools.product(sh, repeat=i)), np.float32)
            else:
                x = columns(sp, i)
            ctx.at(how=how, inputs=i, outputs=o)
            y = run(ctx, layer, x)
            want, tol = ref.fourier(n, w, x.astype(float), length)
            ctx.close("fourier series", y, want, tol)
            # period
            x2 = (x.astype(np.float64) + length).astype(np.float32)
            y2 = run(ctx, layer, x2)
            w2, t2 = ref.fourier(n, w, x.astype(float), length)
            err = np.einsum("bi,oin->bo", np.abs(x2.astype(float) - x.astype(float) - length), np.abs(w)) * 2 * np.pi * (n // 2 + 1) / length
            _, t3 = ref.fourier(n, w, x2.astype(float), length)
            ctx.close("period of the series", y2, w2, t2 + t3 + err * 1.01)
            ctx.step(2 * len(x))
            ctx.states(len(x))
            ctx.trace(1)
            ctx.outcome(y[:50].tobytes())
    # basis one by one, and gradients
    layer = ctx.impl("constructing fourier", high_order_fc_layers, layer_type="fourier", n=n, in_features=1, out_features=n, **kw)
    put(layer, np.eye(n).reshape(n, 1, n))
    x = ref.all_half(-1, 1)[::2]
    B, d = ref.fourier_basis(n, x.astype(float), length)
    ctx.close("fourier components", run(ctx, layer, x[:, None]), B, ref.C * ref.EPS * (2 * d + 2))
    ctx.step(len(x))
    for p in np.linspace(-3, 3, 25):
        xt = torch.tensor([[p]], dtype=torch.float32, requires_grad=True)
        layer.zero_grad()
        y = ctx.impl("forward", layer, xt)
        ctx.impl("backward", y.sum().backward)
        b, d = ref.fourier_basis(n, xt.detach().double().numpy()[0], length)
        g = layer.w.grad.double().numpy()[:, 0, :]
        ctx.close("fourier weight gradient", g, np.tile(b[0], (n, 1)), ref.C * ref.EPS * (2 * d[0] + 2))
        ctx.step()
        ctx.states(1)
    ctx.sample(dict(task=task))


# ---------------------------------------------------------------- C08 N dimensional
def c08_tasks(tier):
    out = []
    for d in (2, 3, 4, 5):
        for n in ((1, 2, 3, 4) if d <= 3 else (1, 2, 3) if d == 4 else (1, 2)):
            for length in (2.0, 1.0, 3.0):
                out.append(dict(kind="poly", dim=d, n=n, length=length, cost=n ** d))
    out.append(dict(kind="poly", dim=2, n=5, length=2.0, cost=25))
    out.append(dict(kind="poly", dim=2, n=7, length=2.0, cost=25))
    for n in ([2, 3], [3, 2], [1, 4], [4, 1]):
        out.append(dict(kind="polyv", dim=2, n=n, length=2.0))
    for n in ([2, 3, 4], [3, 1, 2]):
        out.append(dict(kind="polyv", dim=3, n=n, length=2.0))
    pw = [([2, 2], [2, 2]), ([3, 3], [2, 2]), ([2, 3], [3, 2]), ([3, 2], [1, 4]), ([1, 2], [3, 3]), ([2, 2], [5, 3]), ([4, 3], [2, 3]),
          ([2, 2, 2], [2, 2, 2]), ([2, 3, 2], [1, 2, 3]), ([3, 1, 2], [2, 3, 1]), ([2], [4]), ([3], [3]), ([2, 2, 2, 2], [2, 1, 2, 3]),
          ([2, 2, 2, 2, 2], [1, 2, 1, 2, 2])]
    for n, s in pw:
        for length in (2.0, 1.0, 4.0):
            out.append(dict(kind="pw", n=n, segments=s, length=length, cost=8))
    for d in (1, 2, 3, 4):
        out.append(dict(kind="pw", n=2, segments=2, dim=d, length=2.0))
        out.append(dict(kind="pw", n=3, segments=[2] * d, dim=d, length=2.0))
    out.append(dict(kind="pw", n=[2, 3], segments=3, length=2.0))
    out += [dict(kind="ladder", ladder=p, cost=30) for p in ("poly", "pw", "size", "values")]
    return out


def nd_ref(ns, segs, w, x, length):
    """w [in,out,prod(segs)*prod(ns)] x[b,in,d] -> out[b,o], tol"""
    b, i, d = x.shape
    half = length / 2
    flat = np.zeros((b, i), np.int64)
    L = np.ones((b, i, 1))
    T = np.zeros((b, i, 1))
    amb = np.zeros((b, i), bool)
    for k in range(d):
        seg, alt = ref.locate(x[..., k], segs[k], length)
        amb |= seg != alt
        flat = flat * segs[k] + seg
        t, l, D, S, dt = ref.basis_at("disc" if segs[k] > 1 else "poly", ns[k], segs[k], length, x[..., k], seg)
        dt = ref.EPS * (segs[k] * (1 + np.abs(x[..., k]) / half) * 2 + np.abs(t) + 1)
        e = ref.C * (ref.EPS * S + np.abs(D) * dt[..., None])
        Ln = (L[..., :, None] * l[..., None, :]).reshape(b, i, -1)
        T = (T[..., :, None] * (np.abs(l) + e)[..., None, :] + np.abs(L)[..., :, None] * e[..., None, :]).reshape(b, i, -1)
        L = Ln
    P = L.shape[-1]
    idx = flat[..., None] * P + np.arange(P)
    ins = np.arange(i)[None, :, None]
    ws = w[ins, :, idx]  # [b,i,P,o]
    out = np.einsum("bip,bipo->bo", L, ws)
    tol = np.einsum("bip,bipo->bo", T + 4 * ref.EPS * (P + i) * np.abs(L), np.abs(ws)) + 1e-30
    return out, tol, amb.any(1)


def c08(task, ctx):
    if task.get("ladder"):
        return ladder.nd(ctx, task["ladder"])
    kind, n, length = task["kind"], task["n"], task["length"]
    pw = kind == "pw"
    d = task.get("dim") or len(n)
    ns = [n] * d if isinstance(n, int) else n
    segs = [1] * d
    if pw:
        s = task["segments"]
        segs = [s] * d if isinstance(s, int) else s
    for i, o in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 2)):
        ctx.at(inputs=i, outputs=o)
        if pw:
            kw = dict(dimensions=task["dim"]) if task.get("dim") else {}
            layer = ctx.impl("constructing continuous_nd", high_order_fc_layers, layer_type="continuous_nd", n=n, in_features=i, out_features=o,
                             segments=task["segments"], length=length, **kw)
            P = int(np.prod(ns)) * int(np.prod(segs))
            w = put(layer, ref.fill((i, o, P), 1.0))
        else:
            layer = ctx.impl("constructing polynomial nd", high_order_fc_layers, layer_type=f"polynomial_{d}d", n=n, in_features=i, out_features=o, length=length)
            P = int(np.prod(ns))
            w = put(layer, ref.fill((o, i, P), 1.0)).transpose(1, 0, 2)
        # per dimension alphabet: nodes, boundaries, interior, outside
        axes = []
        for k in range(d):
            pts = ref.special_points(ns[k], segs[k], length, outside=(1.5,))
            per = {1: 200, 2: 24, 3: 8, 4: 5, 5: 4}[d] if not ctx.thorough else {1: 400, 2: 60, 3: 15, 4: 7, 5: 5}[d]
            m = (-length / 2 + (np.arange(2 * segs[k]) + 0.5) * length / (2 * segs[k])).astype(np.float32)
            pts = pts[np.unique(np.linspace(0, len(pts) - 1, per).astype(int))]
            axes.append(np.unique(np.concatenate([pts, m[:: max(1, len(m) // per)], np.float32([0.7 * length / 2])])))
        grid = np.array(list(itertools.product(*axes)), np.float32)
        x = np.stack([grid[(np.arange(len(grid)) * (2 * c + 1) + 3 * c) % len(grid)] for c in range(i)], 1)
        want, tol, amb = nd_ref(ns, segs, w, x.astype(float), length)
        y = run(ctx, layer, x)
        keep = ~amb
        ctx.require(keep.any(), "vacuous")
        ctx.close("tensor product interpolation", y[keep], want[keep], tol[keep], n=ns, segments=segs)
        ctx.states(int(keep.sum()))
        ctx.step(len(x))
        ctx.trace(1)
        ctx.outcome(y[:50].tobytes())
        # gradients: weights get the basis values and exactly zero elsewhere
        for r in range(0, len(x), max(1, len(x) // 12)):
            if amb[r]:
                continue
            layer.zero_grad()
            yy = ctx.impl("forward", layer, torch.tensor(x[r:r + 1]))
            ctx.impl("backward", yy.sum().backward)
            g = layer.w.grad.double().numpy()
            g = g if pw else g.transpose(1, 0, 2)
            Pn = int(np.prod(ns))
            one = np.zeros((1, 1, P))
            for c in range(i):
                nz = 0
                e = np.zeros((1, P, P))
                e[0] = np.eye(P)
                wv, tv, _ = nd_ref(ns, segs, e, x[r:r + 1, c:c + 1].astype(float), length)
                for q in range(o):
                    ctx.close("nd weight gradient", g[c, q], wv[0], tv[0] * (tv[0] > 1e-29) + 1e-30)
            ctx.step()
    for b in (1, 2, 3, 17, 64, 129):
        xb = np.resize(x, (b,) + x.shape[1:])
        want, tol, amb = nd_ref(ns, segs, w, xb.astype(float), length)
        y = run(ctx, layer, xb)
        ctx.close("nd batch", y[~amb], want[~amb], tol[~amb])
        ctx.step(b)
    ctx.sample(dict(task=task, points=int(len(x))))


# ---------------------------------------------------------------- C16 periodicity
def c16_tasks(tier):
    out = [dict(what="fold", p=p) for p in (2.0, 1.0, 0.5, 3.0, 0.1, 4.0, 7.0)]
    pairs = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 3), (5, 1), (3, 5)]
    if tier == "thorough":
        pairs = [(n, s) for n in range(1, 7) for s in range(1, 8)]
    for kind in ("poly", "cont", "disc"):
        done = set()
        for n, s in pairs:
            s = 1 if kind == "poly" else s
            for prod in (False, True):
                if (n, s, prod) not in done:
                    done.add((n, s, prod))
                    out.append(dict(what="layer", kind=kind, n=n, segments=s, prod=prod))
    for lt in ("polynomial1d", "continuous1d", "discontinuous1d", "polynomial2d", "continuous2d", "discontinuous2d", "transpose"):
        out.append(dict(what="conv", layer_type=lt))
    out += [dict(what="ladder", kind=k, prod=p, ladder=q) for k in ("poly", "cont", "disc") for p in (False, True) for q in ladder.fc_parts(tier)]
    return out


def c16(task, ctx):
    if task.get("ladder"):
        for p in (2.0, 1.0):
            ladder.fc(ctx, task["kind"], task["prod"], task["ladder"], per=p)
        return
    if task["what"] == "fold":
        p = task["p"]
        x = np.unique(np.concatenate([ref.all_half(-64, 64), np.float32(np.arange(-200, 201)) * np.float32(p / 2),
                                      np.float32(np.linspace(-20 * p, 20 * p, 4001))]))
        xt = torch.tensor(x)
        y = ctx.impl("folding", make_periodic, xt.clone(), p)
        ctx.require(y.shape == xt.shape, "shape changed")
        y = y.double().numpy()
        e = ref.fold_err(x, p)
        ctx.close("mirror fold", y, ref.fold(x, p), e)
        ctx.require((np.abs(y) <= p / 2 + e).all(), "folded value outside of the domain")
        ins = np.abs(x) <= p / 2
        ctx.close("identity inside", y[ins], x[ins], 4 * ref.EPS * (p + np.abs(x[ins])))
        # period 2p and mirror symmetry about +-p/2
        for k in (-3, -2, -1, 1, 2, 3):
            z = make_periodic(torch.tensor(x.astype(np.float64) + 2 * p * k), p).numpy()
            ctx.close("period", z, y, e + 1e-9)
        m = make_periodic(torch.tensor(p - x.astype(np.float64)), p).numpy()
        ctx.close("mirror symmetry", m, y, e + 1e-9)
        for shape in ((len(x),), (len(x) // 4, 4), (2, len(x) // 8, 4)):
            v = x[: int(np.prod(shape))].reshape(shape)
            z = make_periodic(torch.tensor(v), p).double().numpy()
            ctx.close("shape independent", z.ravel(), y[: v.size], 0)
        # slope +-1
        xt = torch.tensor(np.linspace(-10 * p, 10 * p, 1003), requires_grad=True)
        ctx.impl("backward", make_periodic(xt, p).sum().backward)
        ctx.require(bool(((xt.grad.abs() - 1).abs() < 1e-12).all()), "slope of the fold is not +-1")
        ctx.states(len(x))
        ctx.step(len(x) * 8)
        ctx.trace(1)
        ctx.outcome(y.tobytes())
        ctx.sample(dict(p=p, inputs=len(x)))
        return
    if task["what"] == "layer":
        kind, n, segs, prod = task["kind"], task["n"], task["segments"], task["prod"]
        V = ref.num_weights(kind, n, segs)
        for length, p in ((2.0, 2.0), (2.0, 1.0), (2.0, 4.0), (1.0, 1.0), (4.0, 4.0), (2.0, 3.0), (3.0, 3.0)):
            layer = build(ctx, kind, n, segs, 1, 1, prod=prod, length=length, periodicity=p)
            w = put(layer, ref.fill((1, 1, V), 1.0))
            x = np.unique(np.concatenate([ref.all_half(-32, 32)[::9], np.float32(np.linspace(-10 * p, 10 * p, 801))]))
            ctx.at(length=length, periodicity=p)
            compare(ctx, "periodic layer", kind, n, segs, layer, w, x[:, None], length, prod=prod,
                    dx=ref.fold_err(x, p)[:, None], xr=ref.fold(x, p)[:, None])
            ctx.states(len(x))
            layer = build(ctx, kind, n, segs, 2, 2, prod=prod, length=length, periodicity=p)
            w = put(layer, ref.fill((2, 2, V), 1.0))
            sh = np.float32(np.linspace(-5.3 * p, 5.1 * p, 41))
            x = np.array(list(itertools.product(sh, repeat=2)), np.float32)
            compare(ctx, "periodic layer (2 inputs)", kind, n, segs, layer, w, x, length, prod=prod,
                    dx=ref.fold_err(x, p), xr=ref.fold(x, p))
            ctx.states(len(x))
        ctx.sample(dict(task=task))
        return
    from high_order_layers_torch.layers import high_order_convolution_layers, high_order_convolution_transpose_layers
    lt = task["layer_type"]
    for p in (2.0, 1.0, 3.0):
        for n, s, c in ((2, 2, 1), (3, 1, 2), (3, 3, 2)):
            def mk(per):
                kw = dict(n=n, segments=s, in_channels=c, out_channels=2, kernel_size=2, periodicity=per)
                if lt == "transpose":
                    return high_order_convolution_transpose_layers(layer_type="continuous2d", **kw)
                return high_order_convolution_layers(layer_type=lt, **kw)
            a, b = ctx.impl("constructing", mk, p), ctx.impl("constructing", mk, None)
            with torch.no_grad():
                a.conv.weight.copy_(torch.tensor(ref.fill(tuple(a.conv.weight.shape))))
                b.conv.weight.copy_(a.conv.weight)
            two = not lt.endswith("1d")
            # dyadic grid: the fold is exact, so both must agree to rounding
            vals = np.float32(np.arange(-96, 97) / 16.0)
            shape = (4, c, 6, 8) if two else (4, c, 48)
            x = torch.tensor(np.resize(vals, shape))
            f = torch.tensor(ref.fold(x.double().numpy(), p)).float()
            ya, yb = ctx.impl("forward", a, x), ctx.impl("forward", b, f)
            ctx.close("periodic convolution", ya.detach().double().numpy(), yb.detach().double().numpy(), 1e-4)
            ctx.states(x.numel())
            ctx.step(x.numel())
            ctx.trace(1)
            ctx.outcome(ya.detach().numpy().tobytes())
    ctx.sample(dict(task=task))


T = ["float32 CPU tensors", "PyTorch/ATen kernels are trusted", "inputs bounded as listed in the rule"]
PROPS = {
    "C01": Prop("C01", *twin.extend("C01", c01_tasks, c01), "every (kind,n,segments) of the listed grid; every half precision input in [-1,1], all nodes/boundaries +-1ulp, product grids for 2-3 inputs, one-hot and generic weights, batch sizes 0..10000", T),
    "C02": Prop("C02", *twin.extend("C02", c02_tasks, c02), "every (kind,n,segments,prod) x 8 lengths; inputs inside, at, and up to 1000 half lengths outside the domain", T),
    "C03": Prop("C03", c03_tasks, c03, "every interior boundary of every (kind,n,segments,length), +-6 ulps and +-1e-5; every adjacent pair of special points", T),
    "C04": Prop("C04", *twin.extend("C04", c04_tasks, c04), "every special point (nodes, boundaries +-ulp, interior, outside) of every configuration, one backward pass each; batches against the sum of single passes", T),
    "C06": Prop("C06", *twin.extend("C06", c06_tasks, c06), "every configuration of product layers, exhaustive product grids of the inputs", T),
    "C07": Prop("C07", *twin.extend("C07", c07_tasks, c07), "n x length x in/out grid, half precision inputs over 4 periods", T),
    "C08": Prop("C08", *twin.extend("C08", c08_tasks, c08), "dimension 1..5, n and segments per dimension, tensor grid of the per-dimension alphabets", T),
    "C16": Prop("C16", *twin.extend("C16", c16_tasks, c16), "7 periods x all half precision inputs in [-64,64]; layers and convolutions x (length, periodicity)", T),
}
