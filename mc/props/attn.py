"""C22: attention."""
import itertools
import math

import numpy as np
import torch

from high_order_layers_torch import attentions as AT
from mc import fd, ref
from mc.core import Prop
from mc.models import refill, state


def softmax(a):
    a = a - a.max(-1, keepdims=True)
    e = np.exp(a)
    return e / e.sum(-1, keepdims=True)


def sig(a):
    return 1 / (1 + np.exp(-a))


def data(shape, which=0, span=1.5):
    return ref.fill(shape, span * SPAN[0], 0.173 * which)


SPAN = [1.0]  # scale of queries, keys and values


BIASED = {"MultiHeadAttention": ("query_proj", "key_proj", "value_proj"), "RelativeMultiHeadAttention": ("query_proj", "key_proj", "value_proj", "out_proj"),
          "AdditiveAttention": ("score_proj",), "LocationAwareAttention": ("score_proj",), "MultiHeadLocationAwareAttention": ("score_proj",), "CustomizingAttention": ("query_proj",)}


def values(ctx, m):
    """the values of a module; the projections that are linear by definition have no offset"""
    s = state(m)
    for name in ("query_proj", "key_proj", "value_proj", "out_proj", "pos_proj", "loc_proj", "score_proj"):
        if name + ".weight" in s:
            ctx.require((name + ".bias" in s) == (name in BIASED[type(m).__name__]), f"{type(m).__name__}: {name} {'has an' if name + '.bias' in s else 'lacks its'} offset")
    return s


def lin(s, name, x):
    return x @ s[name + ".weight"].T + s.get(name + ".bias", 0.0)


def conv3(s, x):
    """conv1d kernel 3 padding 1: x [b,c,t]"""
    w, b = s["conv1d.weight"], s["conv1d.bias"]
    t = x.shape[-1]
    xp = np.pad(x, ((0, 0), (0, 0), (1, 1)))
    return sum(np.einsum("oc,bct->bot", w[:, :, k], xp[:, :, k:k + t]) for k in range(3)) + b[None, :, None]


TOL = 2e-5


def tol(sc):
    """allowed error of the weights: float32 scores of this magnitude"""
    f = sc[np.isfinite(sc)]
    big = np.abs(f[np.abs(f) < 1e8]).max(initial=0.0) if f.size else 0.0
    return TOL + 16 * ref.EPS * big


def attn_ok(ctx, what, attn, want=None, mask=None):
    attn = attn.detach().double().numpy() if torch.is_tensor(attn) else attn
    ctx.require(bool((attn >= 0).all()) and np.abs(attn.sum(-1) - 1).max() < 1e-5, f"{what}: attention weights are not a distribution")
    if mask is not None:
        ctx.require(bool((attn[mask] == 0).all()), f"{what}: a masked position receives attention")


KINDS = ["scaled", "dot", "additive", "location", "mhlocation", "mha", "relative", "custom"]


def c22_tasks(tier):
    out = [dict(kind=k, b=b) for k in KINDS for b in (1, 2, 3)]
    out += [dict(kind=k, masks=1, cost=5) for k in ("scaled", "mha", "relative")]
    out += [dict(kind=k, masks=1, span=v, cost=5) for k in ("scaled", "mha", "relative") for v in (0.0, 5.0, 12.0)]
    out += [dict(kind=k, ladder=1, cost=5) for k in KINDS]
    out += [dict(kind=k, history=1, cost=4) for k in KINDS] + [dict(kind=k, slopes=1, cost=4) for k in KINDS] + [dict(kind=k, shared=1, cost=4) for k in KINDS]
    out.append(dict(kind="relative", dropout=1, cost=5))
    return out


def c22_dropout(ctx):
    """relative attention drops weights, not scores or values: in training each row is one of the outcomes of losing a set of weights,
    all of which are enumerated, and without training nothing is dropped"""
    for (b, t, t2), (d, H), p, e in itertools.product(((1, 1, 1), (2, 1, 2), (2, 2, 2), (1, 2, 3), (3, 3, 2)), ((2, 1), (4, 2)), (0.0, 0.25, 0.5, 0.75, 1.0), (None, 1)):
        if e and t2 != 3:
            continue
        mask = mask_of(b, t, t2, e)
        m = refill(ctx.impl("constructing", AT.RelativeMultiHeadAttention, d, H, p), 0.6, 0.2).eval()
        ctx.at(batch=b, q=t, k=t2, d=d, heads=H, p=p, mask=e)
        base = relative(ctx, b, t, t2, d, H, 1, mask, m).detach().double().numpy()
        args = [torch.tensor(data(s_, 1 + j)) for j, s_ in enumerate(((b, t, d), (b, t2, d), (b, t2, d), (b, t2, d)))]
        if mask is not None:
            args.append(torch.tensor(mask))
        s = values(ctx, m)
        D = d // H
        # what each head and key contributes: the layer is linear in the weights, found from the model of its value path
        w = rel_weights(s, b, t, t2, d, H, 1, mask)
        v_ = lin(s, "value_proj", data((b, t2, d), 3).astype(float)).reshape(b, t2, H, D)
        part = np.zeros((b, t, H * t2, d))
        for h, k in itertools.product(range(H), range(t2)):
            part[:, :, h * t2 + k, h * D:(h + 1) * D] = w[:, h, :, k, None] * v_[:, None, k, h, :]
        keep = np.array(list(itertools.product((0.0, 1.0), repeat=H * t2)))
        if p == 0.0:
            keep = keep[-1:]
        elif p == 1.0:
            keep = keep[:1]
        ends = lin(s, "out_proj", np.einsum("ms,btsd->btmd", keep / ((1 - p) if p < 1 else 1.0), part))
        m.train()
        seen = set()
        for seed in range(24):
            torch.manual_seed(seed)
            y = ctx.impl("relative attention in training", m, *[a.clone() for a in args]).detach().double().numpy()
            ctx.require(y.shape == base.shape, f"output of shape {y.shape} in training, {base.shape} in evaluation")
            off = np.abs(y[:, :, None] - ends).max(-1).min(-1)
            ctx.require(bool((off < 2e-4).all()), f"the output in training is no average of values with some weights dropped, off by {off.max():.3g}")
            seen.add(y.round(5).tobytes())
            ctx.step()
        if 0 < p < 1:
            ctx.require(len(seen) > 1, "dropout does nothing in training")
        m.eval()
        y = ctx.impl("relative attention", m, *args).detach().double().numpy()
        ctx.close("evaluation after training", y, base, 1e-6)
        ctx.states(len(keep))
        ctx.trace()
        ctx.outcome(base.tobytes())
    ctx.sample(dict(kind="relative", dropout=1))


def rel_weights(s, b, t, t2, d, H, which, mask):
    Q, K, P = data((b, t, d), which), data((b, t2, d), which + 1), data((b, t2, d), which + 3)
    D = d // H
    q_ = lin(s, "query_proj", Q.astype(float)).reshape(b, t, H, D)
    k_ = lin(s, "key_proj", K.astype(float)).reshape(b, t2, H, D)
    p_ = lin(s, "pos_proj", P.astype(float)).reshape(b, t2, H, D)
    content = np.einsum("bqhd,bkhd->bhqk", q_ + s["u_bias"], k_)
    pos = np.einsum("bqhd,bkhd->bhqk", q_ + s["v_bias"], p_)
    sh = np.zeros_like(pos)
    for i in range(t):
        for j in range(t2):
            f = i * t2 + j + t
            r, cc = divmod(f, t2 + 1)
            sh[:, :, i, j] = 0.0 if cc == 0 else pos[:, :, r, cc - 1]
    sc = (content + sh) / math.sqrt(d)
    if mask is not None:
        sc = np.where(mask[:, None], -1e9, sc)
    return softmax(sc)


def c22_ladder(ctx, k):
    """sizes, head counts, lengths and batches one at a time; masks that block one position, all but one, the future"""
    def go(b, q, kk, d, H, which, mask=None):
        ctx.at(kind=k, batch=b, q=q, k=kk, d=d, heads=H, mask=None if mask is None else "yes")
        y = scaled(ctx, b, q, kk, d, which, mask) if k == "scaled" else mha(ctx, b, q, kk, d, H, which, mask) if k == "mha" else relative(ctx, b, q, kk, d, H, which, mask)
        ctx.step()
        ctx.states(1)
        ctx.trace()
        ctx.outcome(y.detach().numpy().ravel()[:32].tobytes())
    W = list(range(1, 20)) + [24, 31, 32, 33, 63, 64, 65, 100, 128, 129]
    if k not in ("scaled", "mha", "relative"):
        def other(b, q, kk, d, H, which):
            for last in (None, 1):
                ctx.at(kind=k, batch=b, q=q, k=kk, d=d, heads=H, last=last)
                if k == "dot":
                    y = dot(ctx, b, q, kk, d, which)
                elif k == "additive":
                    y = additive(ctx, b, 1 if which % 2 else kk, kk, d, which)
                elif k == "location":
                    y = location(ctx, b, kk, d, which % 2 == 0, last, which)
                elif k == "mhlocation":
                    y = mhlocation(ctx, b, kk, d, H, last, which)
                else:
                    y = custom(ctx, b, q, kk, d, H, last, which)
                ctx.step()
                ctx.states(1)
                ctx.trace()
                ctx.outcome(y.detach().numpy().ravel()[:32].tobytes())
        for v in W:
            other(v, 2, 3, 4, 2, 0)
            other(2, v, 3, 4, 2, 1)
            other(2, 3, v, 4, 2, 2)
            other(2, 3, v, 4, 2, 3)
            for H in (1, 2, 4, 8, 16, 3, 5):
                if v <= 65 and (H == 1 or v % H == 0):
                    other(2, 2, 3, v, H, v)
        ctx.sample(dict(kind=k, ladder=len(W)))
        return
    for v in W:
        go(v, 2, 3, 4, 2, 0)
        go(2, v, 3, 4, 2, 1)
        go(2, 3, v, 4, 2, 2)
        go(2, v, v, 4, 2, 3)
        for H in (1, 2, 4, 8, 16, 3, 5):
            if v <= 65 and (H == 1 or v % H == 0):
                go(2, 2, 3, v, H, v)
        future = np.triu(np.ones((v, v), bool), 1)[None].repeat(2, 0)
        go(2, v, v, 4, 2, 4, future)
        lengths = np.stack([np.arange(v)[None].repeat(2, 0) >= n for n in (v, max(1, v // 2), 1)])
        go(3, 2, v, 4, 2, 5, lengths)
        one = np.stack([np.arange(v)[None].repeat(2, 0) != n for n in (0, v // 2, v - 1)])
        go(3, 2, v, 4, 4, 6, one)
    ctx.sample(dict(kind=k, ladder=len(W)))


def masks(q, k, b):
    """all masks of one sample that leave something to attend to; other samples get permuted versions"""
    rows = [r for r in itertools.product((False, True), repeat=k) if not all(r)]
    sample = list(itertools.product(rows, repeat=q))
    for j, m in enumerate(sample):
        yield np.array([sample[(j * (2 * c + 1) + 5 * c) % len(sample)] if c else m for c in range(b)])


def scaled(ctx, b, q, k, d, which, mask=None, m=None):
    Q, K, V = data((b, q, d), which), data((b, k, d), which + 1), data((b, k, d + 1), which + 2)
    m = m or AT.ScaledDotProductAttention(d)
    args = [torch.tensor(v) for v in (Q, K, V)]
    if mask is not None:
        args.append(torch.tensor(mask))
    c, a = ctx.impl("scaled dot product attention", m, *args)
    s = np.einsum("bqd,bkd->bqk", Q.astype(float), K.astype(float)) / math.sqrt(d)
    if mask is not None:
        s = np.where(mask, -np.inf, s)
    w = softmax(s)
    e = tol(np.einsum("bqd,bkd->bqk", np.abs(Q), np.abs(K)))
    ctx.close("scaled attention weights", a.detach().double().numpy(), w, e)
    ctx.close("scaled context", c.detach().double().numpy(), np.einsum("bqk,bkd->bqd", w, V.astype(float)), e * 4 * (1 + np.abs(V).max()))
    attn_ok(ctx, "scaled", a, mask=mask)
    for orig, t in zip((Q, K, V), args):
        ctx.require(np.array_equal(t.numpy(), orig), "an input was modified")
    if mask is not None:
        ctx.require(np.array_equal(args[3].numpy(), mask), "the mask was modified")
    return c


def mha(ctx, b, q, k, d, H, which, mask=None, m=None):
    m = m or refill(ctx.impl("constructing", AT.MultiHeadAttention, d, H), 0.6, 0.1 * which).eval()
    Q, K, V = data((b, q, d), which), data((b, k, d), which + 1), data((b, k, d), which + 2)
    args = [torch.tensor(v) for v in (Q, K, V)]
    if mask is not None:
        args.append(torch.tensor(mask))
    c, a = ctx.impl("multi head attention", m, *args)
    s = values(ctx, m)
    D = d // H
    q_ = lin(s, "query_proj", Q.astype(float)).reshape(b, q, H, D)
    k_ = lin(s, "key_proj", K.astype(float)).reshape(b, k, H, D)
    v_ = lin(s, "value_proj", V.astype(float)).reshape(b, k, H, D)
    sc = np.einsum("bqhd,bkhd->bhqk", q_, k_) / math.sqrt(D)
    if mask is not None:
        sc = np.where(mask[:, None], -np.inf, sc)
    w = softmax(sc)
    e = tol(np.einsum("bqhd,bkhd->bhqk", np.abs(q_), np.abs(k_))) * (1 + d / 8)
    ctx.close("multi head context", c.detach().double().numpy(), np.einsum("bhqk,bkhd->bqhd", w, v_).reshape(b, q, d), e * 4 * (1 + np.abs(v_).max()))
    ctx.close("multi head weights", a.detach().double().numpy(), w.transpose(1, 0, 2, 3).reshape(H * b, q, k), e)
    attn_ok(ctx, "multi head", a, mask=None if mask is None else np.tile(mask, (H, 1, 1)))
    if mask is not None:
        ctx.require(np.array_equal(args[3].numpy(), mask), "the mask was modified")
    return c


def relative(ctx, b, t, t2, d, H, which, mask=None, m=None):
    m = m or refill(ctx.impl("constructing", AT.RelativeMultiHeadAttention, d, H, 0.3), 0.6, 0.1 * which).eval()
    Q, K, V, P = data((b, t, d), which), data((b, t2, d), which + 1), data((b, t2, d), which + 2), data((b, t2, d), which + 3)
    args = [torch.tensor(v) for v in (Q, K, V, P)]
    if mask is not None:
        args.append(torch.tensor(mask))
    c = ctx.impl("relative multi head attention", m, *args)
    s = values(ctx, m)
    D = d // H
    q_ = lin(s, "query_proj", Q.astype(float)).reshape(b, t, H, D)
    k_ = lin(s, "key_proj", K.astype(float)).reshape(b, t2, H, D)
    v_ = lin(s, "value_proj", V.astype(float)).reshape(b, t2, H, D)
    p_ = lin(s, "pos_proj", P.astype(float)).reshape(b, t2, H, D)
    w = rel_weights(s, b, t, t2, d, H, which, mask)
    ctx_ = np.einsum("bhqk,bkhd->bqhd", w, v_).reshape(b, t, d)
    e = tol(np.einsum("bqhd,bkhd->bhqk", np.abs(q_) + 1, np.abs(k_) + np.abs(p_))) * (1 + d / 8)
    ctx.close("relative attention", c.detach().double().numpy(), lin(s, "out_proj", ctx_), e * 6 * (1 + np.abs(v_).max()) * (1 + d / 8))
    return c


def dot(ctx, b, q, kk, d, which, m=None):
    Q, V = data((b, q, d), which), data((b, kk, d), which + 1)
    y, a = ctx.impl("dot product attention", m or AT.DotProductAttention(d), torch.tensor(Q), torch.tensor(V))
    sc = np.einsum("bqd,bkd->bqk", Q.astype(float), V.astype(float))
    w = softmax(sc)
    ctx.close("attention weights", a.double().numpy(), w, tol(sc))
    ctx.close("context", y.double().numpy(), np.einsum("bqk,bkd->bqd", w, V.astype(float)), tol(sc) * 4 * (1 + np.abs(V).max()))
    return y


def additive(ctx, b, ql, kk, d, which, m=None):
    m = m or refill(AT.AdditiveAttention(d), 0.8, 0.1 * which)
    Q, K, V = data((b, ql, d), which), data((b, kk, d), which + 1), data((b, kk, d), which + 2)
    y, a = ctx.impl("additive attention", m, torch.tensor(Q), torch.tensor(K), torch.tensor(V))
    s = values(ctx, m)
    sc = lin(s, "score_proj", np.tanh(lin(s, "key_proj", K.astype(float)) + lin(s, "query_proj", Q.astype(float)) + s["bias"]))[..., 0]
    w = softmax(sc)
    e = TOL * (1 + d / 8)
    ctx.close("attention weights", a.detach().double().numpy(), w, e)
    ctx.close("context", y.detach().double().numpy(), np.einsum("bk,bkd->bd", w, V.astype(float))[:, None], e * 4)
    return y


def location(ctx, b, kk, d, smooth, last, which, m=None):
    m = m or refill(AT.LocationAwareAttention(d, smooth), 0.8, 0.1 * which)
    Q, V = data((b, 1, d), which), data((b, kk, d), which + 1)
    la = None if last is None else np.abs(data((b, kk), which + 3))
    t = None if la is None else torch.tensor(la)
    y, a = ctx.impl("location aware attention", m, torch.tensor(Q), torch.tensor(V), t)
    if la is not None:
        ctx.require(np.array_equal(t.numpy(), la), "the last attention was modified")
    s = values(ctx, m)
    l0 = np.zeros((b, kk)) if la is None else la.astype(float)
    loc = conv3(s, l0[:, None]).transpose(0, 2, 1)
    sc = lin(s, "score_proj", np.tanh(lin(s, "query_proj", Q.astype(float)) + lin(s, "value_proj", V.astype(float)) + loc + s["bias"]))[..., 0]
    w = softmax(sc) if not smooth else sig(sc) / sig(sc).sum(-1, keepdims=True)
    e = TOL * (1 + d / 8)
    ctx.close("attention weights", a.detach().double().numpy(), w, e)
    ctx.close("context", y.detach().double().numpy(), np.einsum("bk,bkd->bd", w, V.astype(float)), e * 4)
    attn_ok(ctx, "location aware", a)
    return y


def mhlocation(ctx, b, kk, d, H, last, which, m=None):
    m = m or refill(AT.MultiHeadLocationAwareAttention(d, H, 3), 0.8, 0.1 * which)
    Q, V = data((b, 1, d), which), data((b, kk, d), which + 1)
    la = None if last is None else np.abs(data((b, H, kk), which + 3))
    t = None if la is None else torch.tensor(la)
    y, a = ctx.impl("multi head location aware attention", m, torch.tensor(Q), torch.tensor(V), t)
    if la is not None:
        ctx.require(np.array_equal(t.numpy(), la), "the last attention was modified")
    s = values(ctx, m)
    D = d // H
    l0 = np.zeros((b, H, kk)) if la is None else la.astype(float)
    loc = np.tanh(lin(s, "loc_proj", conv3(s, l0).transpose(0, 2, 1)))  # [b,t,D]
    q_ = lin(s, "query_proj", Q.astype(float)).reshape(b, 1, H, D)
    v_ = lin(s, "value_proj", V.astype(float)).reshape(b, kk, H, D)
    sc = lin(s, "score_proj", np.tanh(q_ + v_ + loc[:, :, None] + s["bias"]))[..., 0]  # [b,t,H]
    w = softmax(sc.transpose(0, 2, 1))
    e = TOL * (1 + d / 8)
    ctx.close("attention weights", a.detach().double().numpy(), w, e)
    ctx.close("context", y.detach().double().numpy(), np.einsum("bhk,bkhd->bhd", w, v_).reshape(b, 1, d), e * 4 * (1 + np.abs(v_).max() / 4))
    attn_ok(ctx, "multi head location aware", a)
    return y


def custom(ctx, b, q, kk, d, H, last, which, m=None):
    m = m or refill(AT.CustomizingAttention(d, H, 3), 0.8, 0.1 * which)
    Q, V = data((b, q, d), which), data((b, kk, d), which + 1)
    la = None if last is None else np.abs(data((b * H, kk), which + 3))
    t = None if la is None else torch.tensor(la)
    y, a = ctx.impl("customizing attention", m, torch.tensor(Q), torch.tensor(V), t)
    if la is not None:
        ctx.require(np.array_equal(t.numpy(), la), "the last attention was modified")
    s = values(ctx, m)
    D = d // H
    l0 = np.zeros((b * H, kk)) if la is None else la.astype(float)
    loc = lin(s, "loc_proj", conv3(s, l0[:, None]).transpose(0, 2, 1)).reshape(b, H, kk, D)
    q_ = lin(s, "query_proj", Q.astype(float)).reshape(b, q, H, D)
    v_ = lin(s, "value_proj", V.astype(float)).reshape(b, kk, H, D) + loc.transpose(0, 2, 1, 3) + s["bias"].reshape(H, D)
    sc = np.einsum("bqhd,bkhd->bhqk", q_, v_) / math.sqrt(D)
    w = softmax(sc)
    e = tol(np.einsum("bqhd,bkhd->bhqk", np.abs(q_), np.abs(v_))) * (1 + d / 8)
    ctx.close("context", y.detach().double().numpy(), np.einsum("bhqk,bkhd->bqhd", w, v_).reshape(b, q, d), e * 4 * (1 + np.abs(v_).max() / 4))
    ctx.close("attention weights", np.asarray(a.detach().double().numpy()).reshape(-1), w.transpose(1, 0, 2, 3).reshape(-1), e)
    return y


def build(kind, which=0):
    m = {"scaled": lambda: AT.ScaledDotProductAttention(4), "dot": lambda: AT.DotProductAttention(4), "additive": lambda: AT.AdditiveAttention(4),
         "location": lambda: AT.LocationAwareAttention(4, which % 2 == 0), "mhlocation": lambda: AT.MultiHeadLocationAwareAttention(4, 2, 3), "mha": lambda: AT.MultiHeadAttention(4, 2),
         "relative": lambda: AT.RelativeMultiHeadAttention(4, 2, 0.0 if which % 2 else 0.3), "custom": lambda: AT.CustomizingAttention(4, 2, 3)}[kind]()
    return refill(m, 0.7, 0.1 * which)


MASK = {None: None, 1: [0, 0, 1], 2: [1, 0, 1], 3: [0, 1, 0]}


def alphabet(kind):
    """calls: (batch, queries, keys, mask or last attention)"""
    sizes = [(1, 1, 3), (2, 1, 3), (2, 2, 3), (2, 3, 3), (1, 3, 2), (3, 2, 2), (2, 2, 1)]
    if kind in ("location", "mhlocation"):
        sizes = [(1, 1, 3), (2, 1, 3), (1, 1, 2), (3, 1, 2), (2, 1, 1)]
    if kind == "additive":
        sizes = [(1, 1, 3), (2, 1, 3), (2, 3, 3), (1, 2, 2), (3, 1, 2)]
    extra = {"scaled": (None, 1, 3), "mha": (None, 1, 3), "relative": (None, 1, 3)}.get(kind, (None, 1) if kind in ("location", "mhlocation", "custom") else (None,))
    out = []
    for s, e in itertools.product(sizes, extra):
        if e and kind in ("scaled", "mha", "relative") and s[2] != 3:
            continue
        out.append(s + (e,))
    return out


def mask_of(b, q, k, e):
    if e is None:
        return None
    m = np.zeros((b, q, k), bool)
    for i in range(b):
        for j in range(q):
            m[i, j] = np.roll(np.array(MASK[e], bool), i + j)
    return m


def call(ctx, kind, m, b, q, k, e, which, smooth=True):
    if kind == "scaled":
        return scaled(ctx, b, q, k, 4, which, mask_of(b, q, k, e), m)
    if kind == "dot":
        return dot(ctx, b, q, k, 4, which, m)
    if kind == "additive":
        return additive(ctx, b, q, k, 4, which, m)
    if kind == "location":
        return location(ctx, b, k, 4, smooth, e, which, m)
    if kind == "mhlocation":
        return mhlocation(ctx, b, k, 4, 2, e, which, m)
    if kind == "mha":
        return mha(ctx, b, q, k, 4, 2, which, mask_of(b, q, k, e), m)
    if kind == "relative":
        return relative(ctx, b, q, k, 4, 2, which, mask_of(b, q, k, e), m)
    return custom(ctx, b, q, k, 4, 2, e, which, m)


def raw(kind, b, q, k, e, which):
    """the arguments of such a call"""
    Q, K, V, P = (torch.tensor(data((b, n, 4), which + j)) for j, n in enumerate((q, k, k, k)))
    mk = mask_of(b, q, k, e) if kind in ("scaled", "mha", "relative") else None
    mk = [] if mk is None else [torch.tensor(mk)]
    la = None if e is None else torch.tensor(np.abs(data({"location": (b, k), "mhlocation": (b, 2, k), "custom": (b * 2, k)}.get(kind, (1,)), which + 3)))
    return {"scaled": [Q, K, V] + mk, "dot": [Q, V], "additive": [Q, K, V], "location": [Q, V, la], "mhlocation": [Q, V, la], "mha": [Q, K, V] + mk, "relative": [Q, K, V, P] + mk, "custom": [Q, V, la]}[kind]


def c22_history(ctx, k):
    """one instance, every sequence of calls: no call depends on the ones before"""
    for which in (0, 1):
        A = alphabet(k)
        m = build(k, which).eval()
        before = {n: v.clone() for n, v in m.state_dict().items()}
        for n, (i, j) in enumerate(itertools.product(range(len(A)), repeat=2)):
            ctx.at(kind=k, first=A[i], second=A[j], which=which)
            call(ctx, k, m, *A[i], n % 3, which % 2 == 0)
            y = call(ctx, k, m, *A[j], n % 5, which % 2 == 0)
            ctx.step(2)
            ctx.trace()
            ctx.outcome(y.detach().numpy().tobytes())
            if n % 7 == 3 and before:  # a training step, a change of mode, loading
                with torch.no_grad():
                    for p in m.parameters():
                        p.mul_(0.9).add_(0.01)
            if n % 7 == 5:
                m.train()
                args = raw(k, *A[j], n % 5)
                for a in args:
                    if torch.is_tensor(a) and a.is_floating_point():
                        a.requires_grad_(True)
                out = ctx.impl("training mode", m, *args)
                ctx.impl("backward", fd.scalar(out).backward)
                m.zero_grad()
                m.eval()
            if n % 7 == 6:
                ctx.impl("loading", m.load_state_dict, before)
        ctx.states(len(A) ** 2)
    ctx.sample(dict(kind=k, history=2, alphabet=len(A)))


def c22_shared(ctx, k):
    """Query, key, value and position may be the same tensor, views of one storage, or have any memory layout; the
    caller may overwrite what it passed and what it received: the result depends on the values only."""
    sizes = [(b, q, q) for b in (1, 2, 3) for q in (1, 2, 3)]
    for (b, q, kk), e, mode, grads in itertools.product(sizes, (None, 1), ("eval", "train"), (True, False)):
        if e and k in ("scaled", "mha", "relative") and kk != 3:
            continue
        if k in ("location", "mhlocation"):
            q = 1
        m = build(k, 1)
        m.train(mode == "train")
        args = raw(k, b, q, kk, e, 1)
        floats = [j for j, a in enumerate(args) if torch.is_tensor(a) and a.is_floating_point()]
        for pick in itertools.product(floats, repeat=len(floats)):
            # argument j is the tensor of argument pick[j]
            if any(args[p].shape != args[j].shape for j, p in zip(floats, pick)) or any(pick[floats.index(p)] != p for p in pick):
                continue
            plain = list(args)
            for j, p in zip(floats, pick):
                plain[j] = args[p].clone()
            with torch.set_grad_enabled(grads):
                want = [v.detach().clone() for v in outs(ctx.impl(f"{k} attention", m, *plain))]
            for how in ("same", "view", "strided", "offset"):
                ctx.at(kind=k, batch=b, q=q, k=kk, extra=e, mode=mode, gradients=grads, shared=list(pick), how=how)
                use = list(args)
                for j, p in zip(floats, pick):
                    t = args[p]
                    if how == "view":
                        t = t.view(t.shape)
                    elif how == "strided":
                        t = t.transpose(0, -1).contiguous().transpose(0, -1)
                    elif how == "offset":
                        z = torch.zeros((t.shape[0] + 2,) + tuple(t.shape[1:]))
                        z[1:-1] = t
                        t = z[1:-1]
                    use[j] = t
                with torch.set_grad_enabled(grads):
                    got = outs(ctx.impl(f"{k} attention", m, *use))
                ctx.require(len(got) == len(want), f"{k} attention: number of results")
                for g, w in zip(got, want):
                    ctx.close(f"{k} attention of shared tensors", g.detach().double().numpy(), w.double().numpy(), 2e-6 * (1 + float(w.abs().max())))
                ctx.step()
            # the results belong to the caller
            with torch.no_grad():
                for g in got:
                    g.detach().fill_(5.0)
                again = outs(ctx.impl(f"{k} attention", m, *use))
                for g, w in zip(again, want):
                    ctx.close(f"{k} attention after its earlier results were overwritten", g.detach().double().numpy(), w.double().numpy(), 2e-6 * (1 + float(w.abs().max())))
            held = [g.detach().clone() for g in again]
            with torch.no_grad():
                other = raw(k, b, q, kk, e, 2)
                ctx.impl(f"{k} attention", m, *other)
            for g, w in zip(again, held):
                ctx.require(torch.equal(g, w), f"{k} attention: an earlier result changed")
            ctx.states(1)
            ctx.trace()
            ctx.outcome(want[0].numpy().round(4).tobytes())
    ctx.sample(dict(kind=k, shared=1))


def outs(y):
    return [v for v in (y if isinstance(y, (tuple, list)) else [y]) if torch.is_tensor(v)]


def c22_slopes(ctx, k):
    done = 0
    for which, (b, q, kk, e) in itertools.product((0, 1), alphabet(k)):
        m = build(k, which)
        for mode in ("eval", "train"):
            ctx.at(kind=k, batch=b, q=q, k=kk, extra=e, which=which, mode=mode)
            m.train(mode == "train")
            random = mode == "train" and any(isinstance(s, torch.nn.Dropout) and s.p > 0 for s in m.modules())
            n = fd.slopes(ctx, f"{k} attention", m, raw(k, b, q, kk, e, which), entries=6, single=not random)
            done += max(n, 0)
            ctx.step()
        ctx.states(1)
        ctx.trace()
    ctx.sample(dict(kind=k, derivatives=done))


def c22(task, ctx):
    k = task["kind"]
    SPAN[0] = 1.0
    if task.get("ladder"):
        return c22_ladder(ctx, k)
    if task.get("history"):
        return c22_history(ctx, k)
    if task.get("shared"):
        return c22_shared(ctx, k)
    if task.get("slopes"):
        return c22_slopes(ctx, k)
    if task.get("dropout"):
        return c22_dropout(ctx)
    if task.get("masks"):
        SPAN[0] = task.get("span", 1.0)
        for b, q, kk in itertools.product((1, 2, 3), (1, 2), (1, 2, 3)):
            for j, mask in enumerate(masks(q, kk, b)):
                ctx.at(batch=b, q=q, k=kk, mask=mask.astype(int).tolist())
                if k == "scaled":
                    y = scaled(ctx, b, q, kk, 3, j % 5, mask)
                elif k == "mha":
                    y = mha(ctx, b, q, kk, 4, 2, j % 5, mask)
                    if j % 3 == 0:
                        mha(ctx, b, q, kk, 6, 3, j % 5, mask)
                else:
                    y = relative(ctx, b, q, kk, 4, 2, j % 5, mask)
                    if q == 2:
                        relative(ctx, b, q, kk, 4, 2, j % 5, mask[:, :1])
                ctx.step()
                ctx.states(1)
                ctx.trace()
                ctx.outcome(y.detach().numpy().tobytes())
        SPAN[0] = 1.0
        ctx.sample(task)
        return
    b = task["b"]
    top = 4 if not ctx.thorough else 6
    for q, kk in itertools.product(range(1, top), range(1, top)):
        for which in range(3):
            ctx.at(batch=b, q=q, k=kk, which=which)
            if k == "scaled":
                for d in (1, 2, 5):
                    y = scaled(ctx, b, q, kk, d, which)
            elif k == "dot":
                y = dot(ctx, b, q, kk, 3, which)
            elif k == "additive":
                m = refill(AT.AdditiveAttention(3), 0.8, 0.1 * which)
                for ql in {1, kk}:
                    y = additive(ctx, b, ql, kk, 3, which, m)
            elif k == "location":
                for smooth, last in itertools.product((True, False), (None, 1)):
                    y = location(ctx, b, kk, 3, smooth, last, which)
            elif k == "mhlocation":
                for (d, H), last in itertools.product(((4, 2), (6, 3), (3, 1), (4, 4)), (None, 1)):
                    y = mhlocation(ctx, b, kk, d, H, last, which)
            elif k == "mha":
                for d, H in ((4, 2), (6, 3), (3, 1), (4, 4)):
                    y = mha(ctx, b, q, kk, d, H, which)
            elif k == "relative":
                for d, H in ((4, 2), (6, 3), (3, 1)):
                    y = relative(ctx, b, q, kk, d, H, which)
            elif k == "custom":
                for (d, H), last in itertools.product(((4, 2), (6, 3), (4, 4), (3, 1)), (None, 1)):
                    y = custom(ctx, b, q, kk, d, H, last, which)
            ctx.step()
            ctx.states(1)
            ctx.trace()
            ctx.outcome(y.detach().numpy().tobytes())
    if k == "relative":
        for bad in ((5, 2), (7, 3)):
            ctx.rejects(f"d_model {bad[0]} with {bad[1]} heads", lambda: AT.RelativeMultiHeadAttention(*bad), (AssertionError, ValueError))
    if k == "mha":
        for bad in ((5, 2), (7, 3)):
            ctx.rejects(f"d_model {bad[0]} with {bad[1]} heads", lambda: AT.MultiHeadAttention(*bad), (AssertionError, ValueError))
    ctx.sample(task)


T = ["float32 CPU tensors", "every query has at least one position it may attend to", "dropout is on in one part only (relative attention, every set of dropped weights)"]
PROPS = {"C22": Prop("C22", c22_tasks, c22, "all batch sizes, numbers of queries and keys up to the bound, head counts, all masks for up to 2 queries x 3 keys (different masks per sample), size ladders, all pairs of calls on one instance, derivatives along every tensor", T)}
