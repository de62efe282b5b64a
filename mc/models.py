"""Reference models of whole layers: build the real object, read its current state through
the public state dict, predict its output.

predict(module, x, dx=0) -> (want, tol, skip): skip marks outputs whose value is decided by
rounding (an input within rounding of a discontinuity)."""
import numpy as np
import torch
import torch.nn.functional as F

from high_order_layers_torch.layers import (
    high_order_convolution_layers,
    high_order_convolution_transpose_layers,
    high_order_fc_layers,
)
from mc import ref

TYPE = {"poly": "polynomial", "cont": "continuous", "disc": "discontinuous"}


def state(m):
    return {k: v.detach().double().numpy() for k, v in m.state_dict().items()}


def set_state(m, values, ignore=("result",)):
    with torch.no_grad():
        for (k, p), v in zip(((k, p) for k, p in m.named_parameters() if k.split(".")[-1] not in ignore), values):
            p.copy_(torch.as_tensor(v))


def refill(m, scale=1.0, shift=0.0):
    """deterministic distinct parameters"""
    with torch.no_grad():
        for j, (k, p) in enumerate(m.named_parameters()):
            p.copy_(torch.as_tensor(ref.fill(tuple(p.shape), scale, shift + 0.137 * j)))
    return m


class Model:
    trainable = True

    def x(self, batch, which=0):
        """deterministic input of this batch size"""
        shape = (batch,) + self.xshape
        k = int(np.prod(shape))
        v = np.mod((np.arange(k) + 1 + 31 * which) * 0.7548776662466927 + 0.11 * which, 1.0) * 2 - 1
        return (v.reshape(shape) * self.span).astype(np.float32)

    span = 1.0


class FC(Model):
    def __init__(self, kind, n, segs, i, o, length=2.0, per=None, prod=False):
        self.a = (kind, n, segs, i, o, length, per, prod)
        self.name = f"{TYPE[kind]}{'_prod' if prod else ''}(n={n},segments={segs},{i}->{o},length={length},periodicity={per})"
        self.xshape = (i,)
        self.span = 0.6 * length if per is None else 2.0 * per

    def build(self):
        kind, n, segs, i, o, length, per, prod = self.a
        return high_order_fc_layers(layer_type=TYPE[kind] + ("_prod" if prod else ""), n=n, in_features=i, out_features=o,
                                    segments=segs, length=length, periodicity=per)

    def predict(self, m, x, dx=0.0, key="w"):
        w = m if isinstance(m, np.ndarray) else state(m)[key]
        kind, n, segs, i, o, length, per, prod = self.a
        x = np.asarray(x, np.float64)
        dx = np.broadcast_to(dx, x.shape)
        if per is not None:
            dx = dx + ref.fold_err(x, per)
            x = ref.fold(x, per)
        f = ref.layer_prod if prod else ref.layer_sum
        want, tol, alt = f(kind, n, segs, w, x, length, dx)
        skip = np.zeros(want.shape, bool)
        if kind == "disc" and segs > 1:
            u = (x + length / 2) / length * segs
            near = np.rint(u)
            amb = (near >= 1) & (near <= segs - 1) & (np.abs(u - near) <= 8 * ref.EPS * segs * (2 + np.abs(x)) + 2 * segs / length * dx)
            skip |= amb.any(1)[:, None]
        return want, tol, skip


class ProductM(Model):
    def __init__(self, i, o, bias=True, alpha=1.0, per=None):
        self.a = (i, o, bias, alpha, per)
        self.name = f"product({i}->{o},bias={bias},alpha={alpha},periodicity={per})"
        self.xshape = (i,)
        self.span = 1.5 if per is None else 2.0 * per

    def build(self):
        i, o, bias, alpha, per = self.a
        return high_order_fc_layers(layer_type="product", in_features=i, out_features=o, bias=bias, alpha=alpha, periodicity=per)

    def predict(self, m, x, dx=0.0):
        i, o, bias, alpha, per = self.a
        if per is not None:
            x = np.asarray(x, np.float64)
            dx = dx + ref.fold_err(x, per)
            x = ref.fold(x, per)
        s = state(m)
        W = s["weight"]
        b = s["bias"] if bias else 0.0
        x = np.asarray(x, np.float64)
        f = x[:, None, :] * W[None]
        tol = np.abs(W)[None] * np.broadcast_to(dx, x.shape)[:, None, :] + 2 * ref.EPS * np.abs(f)
        p, t = ref.prod_value(f, tol)
        want = p - (1 - alpha) * f.sum(-1) + b
        t = 4 * t + 8 * ref.EPS * (np.abs(f).sum(-1) + np.abs(b)) * (i + 2) + abs(1 - alpha) * tol.sum(-1)
        return want, t, np.zeros(want.shape, bool)


class FourierM(Model):
    def __init__(self, n, i, o, length=2.0):
        self.a = (n, i, o, length)
        self.name = f"fourier(n={n},{i}->{o},length={length})"
        self.xshape = (i,)
        self.span = length

    def build(self):
        n, i, o, length = self.a
        return high_order_fc_layers(layer_type="fourier", n=n, in_features=i, out_features=o, length=length)

    def predict(self, m, x, dx=0.0):
        n, i, o, length = self.a
        x = np.asarray(x, np.float64)
        w = state(m)["w"]
        want, tol = ref.fourier(n, w, x, length)
        k = (np.arange(n) + 1) // 2 * 2 * np.pi / length
        tol = tol + np.einsum("bi,oin,n->bo", np.broadcast_to(dx, x.shape), np.abs(w), k)
        return want, tol, np.zeros(want.shape, bool)


class SwitchM(Model):
    def __init__(self, kind, n, segs, i, o, layers=2, scale=2.0):
        self.a = (kind, n, segs, i, o, layers, scale)
        self.name = f"switch_{TYPE[kind]}(n={n},segments={segs},{i}->{o},x{layers},scale={scale})"
        self.fc = FC(kind, n, segs, i, o, scale)
        self.xshape = (i,)
        self.span = 0.5 * scale

    def build(self):
        kind, n, segs, i, o, layers, scale = self.a
        return high_order_fc_layers(layer_type="switch_" + TYPE[kind], n=n, in_features=i, out_features=o, segments=segs,
                                    num_input_layers=layers, scale=scale)

    def predict(self, m, x, dx=0.0):
        ws = [p.detach().double().numpy() for k, p in m.named_parameters() if p.dim() == 3]
        parts = [self.fc.predict(w, x, dx) for w in ws]
        want = np.ones_like(parts[0][0])
        tol = np.zeros_like(want)
        skip = np.zeros(want.shape, bool)
        for f, t, s in parts:
            tol = tol * (np.abs(f) + t) + np.abs(want) * t
            want = want * f
            skip |= s
        return want, tol + 4 * len(parts) * ref.EPS * np.abs(want) + 1e-30, skip


class NDM(Model):
    def __init__(self, kind, ns, segs, i, o, length=2.0):
        self.a = (kind, ns, segs, i, o, length)
        self.name = f"{kind}(n={ns},segments={segs},{i}->{o},length={length})"
        self.xshape = (i, len(ns))
        self.span = 0.6 * length

    def build(self):
        kind, ns, segs, i, o, length = self.a
        if kind == "pw":
            return high_order_fc_layers(layer_type="continuous_nd", n=list(ns), segments=list(segs), in_features=i, out_features=o, length=length)
        return high_order_fc_layers(layer_type=f"polynomial_{len(ns)}d", n=list(ns), in_features=i, out_features=o, length=length)

    def predict(self, m, x, dx=0.0):
        from mc.props.links import nd_ref
        kind, ns, segs, i, o, length = self.a
        w = state(m)["w"]
        if kind != "pw":
            w = w.transpose(1, 0, 2)
            segs = [1] * len(ns)
        want, tol, amb = nd_ref(ns, segs, w, np.asarray(x, np.float64), length)
        return want, tol, np.broadcast_to(amb[:, None], want.shape)


def expand(kind, n, segs, length, x, dx=0.0):
    """x [b,c,...] -> basis values [b,c*nb,...], error bound, ambiguity mask [b,c*nb,...]"""
    x = np.asarray(x, np.float64)
    if kind == "fourier":
        B, d = ref.fourier_basis(n, x, length)
        T = ref.C * ref.EPS * (np.abs(B) + 2 * d + 1)
        amb = np.zeros(B.shape, bool)
        nb = n
    else:
        S = 1 if kind == "poly" else segs
        nb = ref.num_weights(kind, n, segs)
        seg, alt = ref.locate(x, S, length)
        t, L, D, Sn, dt = ref.basis_at(kind, n, S, length, x, seg)
        dtx = 2.0 * S / length * dx
        t2, L2, D2, Sn2, dt2 = ref.basis_at(kind, n, S, length, x, alt)
        B = np.zeros(x.shape + (nb,))
        T = np.zeros(x.shape + (nb,))
        first = ref.wrap(kind, n, S, seg)
        idx = first[..., None] + np.arange(n)
        np.put_along_axis(B, idx, L, -1)
        np.put_along_axis(T, idx, ref.C * (ref.EPS * Sn + np.abs(D) * dt[..., None]) + ref.propagate(n, D, dtx), -1)
        if (alt != seg).any() and kind == "cont":
            # the neighbouring segment is an equally good evaluation at the boundary
            B2 = np.zeros_like(B)
            T2 = np.zeros_like(T)
            idx2 = ref.wrap(kind, n, S, alt)[..., None] + np.arange(n)
            np.put_along_axis(B2, idx2, L2, -1)
            np.put_along_axis(T2, idx2, ref.C * (ref.EPS * Sn2 + np.abs(D2) * dt2[..., None]) + ref.propagate(n, D2, dtx), -1)
            T = np.maximum(np.maximum(T, T2), np.where((alt != seg)[..., None], np.abs(B - B2) + T2, 0))
        amb = np.zeros(B.shape, bool)
        if kind == "disc":
            u = (x + length / 2) / length * S
            near = np.rint(u)
            fuzzy = (near >= 1) & (near <= S - 1) & (np.abs(u - near) <= 2 * S / length * np.broadcast_to(dx, x.shape) + 1e-300) & (np.broadcast_to(dx, x.shape) > 0)
            amb |= ((seg != alt) | fuzzy)[..., None]
    perm = lambda a: np.moveaxis(a, -1, 2).reshape((a.shape[0], a.shape[1] * nb) + a.shape[2:-1])
    return perm(B), perm(T), perm(amb)


class ConvM(Model):
    def __init__(self, kind, nd, n, segs, c, o, k, length=2.0, per=None, rescale=False, stride=1, padding=0, dilation=1, groups=1,
                 mode="zeros", size=None, transpose=False, output_padding=0):
        self.a = dict(kind=kind, nd=nd, n=n, segs=segs, c=c, o=o, k=k, length=length, per=per, rescale=rescale, stride=stride,
                      padding=padding, dilation=dilation, groups=groups, mode=mode, transpose=transpose, output_padding=output_padding)
        self.name = ("transpose " if transpose else "") + f"conv{nd}d " + ",".join(f"{a}={b}" for a, b in self.a.items())
        self.xshape = (c,) + tuple(size or (7, 6)[:nd])
        self.span = 0.6 * length if per is None else 2.0 * per

    def build(self):
        a = self.a
        t = {"poly": "polynomial", "cont": "continuous", "disc": "discontinuous", "fourier": "fourier"}[a["kind"]] + f"{a['nd']}d"
        kw = dict(n=a["n"], segments=a["segs"], in_channels=a["c"], out_channels=a["o"], kernel_size=a["k"], length=a["length"],
                  rescale_output=a["rescale"], stride=a["stride"], padding=a["padding"], dilation=a["dilation"], groups=a["groups"],
                  padding_mode=a["mode"])
        if a["kind"] != "fourier":
            kw["periodicity"] = a["per"]
        if a["transpose"]:
            return high_order_convolution_transpose_layers(layer_type=t, output_padding=a["output_padding"], **kw)
        return high_order_convolution_layers(layer_type=t, **kw)

    def predict(self, m, x, dx=0.0):
        a = self.a
        w = torch.as_tensor(state(m)["conv.weight"])
        x = np.asarray(x, np.float64)
        dx = np.broadcast_to(dx, x.shape)
        if a["per"] is not None:
            dx = dx + ref.fold_err(x, a["per"])
            x = ref.fold(x, a["per"])
        B, T, amb = expand(a["kind"], a["n"], a["segs"], a["length"], x, dx)
        K = w[0, 0].numel() * B.shape[1]

        def conv(v, ww):
            v = torch.as_tensor(np.ascontiguousarray(v, dtype=np.float64))
            if a["transpose"]:
                f = F.conv_transpose2d if a["nd"] == 2 else F.conv_transpose1d
                return f(v, ww, stride=a["stride"], padding=a["padding"], output_padding=a["output_padding"], dilation=a["dilation"], groups=a["groups"]).numpy()
            pad = a["padding"]
            if a["mode"] != "zeros" and pad:
                dil = a["dilation"] if isinstance(a["dilation"], tuple) else (a["dilation"],) * a["nd"]
                if pad == "same":
                    both = [(q * (a["k"] - 1) // 2, q * (a["k"] - 1) - q * (a["k"] - 1) // 2) for q in dil]
                elif pad == "valid":
                    both = [(0, 0)] * a["nd"]
                else:
                    both = [(q, q) for q in (pad if isinstance(pad, tuple) else (pad,) * a["nd"])]
                v = F.pad(v, [q for lr in both[::-1] for q in lr], mode=a["mode"])
                pad = 0
            f = F.conv2d if a["nd"] == 2 else F.conv1d
            return f(v, ww, stride=a["stride"], padding=pad, dilation=a["dilation"], groups=a["groups"]).numpy()

        want = conv(B, w)
        tol = conv(T, w.abs()) + 2 * ref.EPS * (K + 8) ** 0.5 * 4 * conv(np.abs(B), w.abs()) + 1e-30
        skip = conv(amb.astype(np.float64), torch.ones_like(w)) > 0.5
        if a["rescale"]:
            s = 1.0 / (a["c"] * a["k"] ** a["nd"])
            want, tol = want * s, tol * s * 2
        return want, tol, skip


def check(ctx, what, model, m, x, dx=0.0, y=None, floor=0.0):
    """the real output for x against the prediction"""
    if y is None:
        xt = torch.as_tensor(np.ascontiguousarray(x, dtype=np.float32))
        y = ctx.impl(f"{model.name} forward", m, xt)
    got = y.detach().double().numpy()
    want, tol, skip = model.predict(m, x, dx)
    if got.shape != want.shape:
        ctx.fail(f"{what}: {model.name}: output shape {got.shape}, expected {want.shape}")
    keep = ~skip
    ctx.close(what, got[keep], want[keep], tol[keep] + floor, model=model.name)
    return got, keep
