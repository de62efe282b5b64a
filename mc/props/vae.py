"""C23: variational autoencoder."""
import itertools
import math

import numpy as np
import torch
import torch.nn as nn

from high_order_layers_torch import networks as HN
from mc import fd, ref
from mc.core import Prop
from mc.models import refill, state


class Enc(nn.Module):
    """encoder with a known output"""

    def __init__(self, feats):
        super().__init__()
        self.output_size = feats

    def forward(self, x):
        return x.reshape(x.shape[0], -1)[:, : self.output_size].reshape(x.shape[0], self.output_size, 1, 1)


class Dec(nn.Module):
    def __init__(self, ch):
        super().__init__()
        self.in_channels = ch
        self.seen = []

    def forward(self, x):
        self.seen.append(tuple(x.shape))
        return x.reshape(x.shape[0], self.in_channels, 1, 1) * 1.0


def c23_tasks(tier):
    return ([dict(part="loss", d=d) for d in (1, 2, 3)] + [dict(part="model", latent=l, mode=m) for l in (1, 2, 3, 5, 16, 65) for m in MODES]
            + [dict(part="real", n=n) for n in (2, 3)] + [dict(part="loss_sizes")] + [dict(part="slopes", cost=5), dict(part="history")] + [dict(part="sizes", what=w) for w in ("batch", "latent", "features", "channels")] + [dict(part="samples", latent=l, mode=m) for l in (1, 2, 3) for m in MODES])


MODES = ("train", "eval", "train no_grad", "eval no_grad", "inference")


class Situation:
    """training or evaluation, with or without gradients"""

    def __init__(self, mode, m):
        m.train("eval" not in mode and mode != "inference")
        self.g = torch.inference_mode() if mode == "inference" else torch.set_grad_enabled("no_grad" not in mode)

    def __enter__(self):
        if hasattr(self.g, "__enter__"):
            self.g.__enter__()

    def __exit__(self, *a):
        self.g.__exit__(*a)


def loss(task, ctx):
    d = task["d"]
    m = HN.VanillaVAE(latent_dim=d, encoder=Enc(2), decoder=Dec(3))
    A = (-2.0, -0.5, 0.0, 1.0) if d > 1 else (-30.0, -12.0, -2.0, -0.5, 0.0, 1.0, 11.5, 25.0)
    vals = list(itertools.product(A, repeat=d))
    for b in (1, 2, 3):
        pairs = list(itertools.product(vals, vals))
        if b > 1:
            pairs = pairs[:: max(1, len(pairs) // 200)]
        for j, (mu0, lv0) in enumerate(pairs):
            mu = np.array([mu0] + [vals[(j * 7 + 3 * k) % len(vals)] for k in range(1, b)])
            lv = np.array([lv0] + [vals[(j * 5 + 2 * k + 1) % len(vals)] for k in range(1, b)])
            if d == 3 and b == 1 and j % 4 and not ctx.thorough:
                continue
            rec, inp = ref.fill((b, 2, 2, 1), 1.0, 0.01 * j), ref.fill((b, 2, 2, 1), 1.0, 0.02 * j + 0.4)
            for mn in (0.0, 0.01, 1.0):
                t = lambda v: torch.tensor(v, dtype=torch.float32)
                ctx.at(mu=mu.tolist(), log_var=lv.tolist(), weight=mn)
                r = ctx.impl("loss_function", m.loss_function, t(rec), t(inp), t(mu), t(lv), M_N=mn)
                mse = ((rec.astype(float) - inp) ** 2).mean()
                kl = (-0.5 * (1 + lv - mu ** 2 - np.exp(lv)).sum(1)).mean()
                ctx.close("reconstruction loss", float(r["Reconstruction_Loss"]), mse, 1e-5)
                ctx.close("magnitude of the divergence", abs(float(r["KLD"])), kl, 1e-4 + 1e-5 * abs(kl))
                ctx.close("total loss", float(r["loss"]), mse + mn * kl, 1e-4 + 1e-5 * abs(kl))
                ctx.step()
            ctx.states(1)
            ctx.trace()
            ctx.outcome(round(float(r["loss"]), 4))
    ctx.sample(task)


def loss_sizes(task, ctx):
    """loss for every size of batch, latent space and image, and its gradients"""
    m = HN.VanillaVAE(latent_dim=2, encoder=Enc(2), decoder=Dec(3))
    for b, L, shape in itertools.chain(itertools.product(tuple(range(1, 40)) + (63, 64, 65, 100, 128, 129, 256, 257), (1, 2, 5), ((1, 2, 2),)),
                                       itertools.product((1, 2, 7), tuple(range(1, 40)) + (64, 65, 128, 129, 256, 512, 513), ((1, 2, 2),)),
                                       itertools.product((1, 2, 7), (2, 3), ((1, 1, 1), (3, 1, 1), (1, 5, 1), (1, 28, 28), (3, 32, 32), (3, 64, 65), (4,), (2, 3)))):
        rec, inp = ref.fill((b,) + shape, 1.3, 0.01), ref.fill((b,) + shape, 1.0, 0.4)
        mu, lv = ref.fill((b, L), 2.0, 0.2), ref.fill((b, L), 3.0, 0.7)
        for mn in (0.0, 0.02, 1.0, 7.5):
            for double in (False, True):
                t = [torch.tensor(v, dtype=torch.float64 if double else torch.float32, requires_grad=True) for v in (rec, inp, mu, lv)]
                ctx.at(batch=b, latent=L, image=shape, weight=mn, double=double)
                r = ctx.impl("loss_function", m.loss_function, *t, M_N=mn)
                d = rec.astype(float) - inp
                mse = (d ** 2).mean()
                mud, lvd = mu.astype(float), lv.astype(float)
                kl = (-0.5 * (1 + lvd - mud ** 2 - np.exp(lvd)).sum(1)).mean()
                e = 1e-5 * (1 + abs(kl))
                ctx.close("reconstruction loss", float(r["Reconstruction_Loss"]), mse, 1e-5)
                ctx.close("magnitude of the divergence", abs(float(r["KLD"])), kl, e)
                ctx.close("total loss", float(r["loss"]), mse + mn * kl, e * (1 + mn))
                ctx.impl("backward", r["loss"].backward)
                z = np.zeros_like
                got = [z(v, dtype=float) if q.grad is None else q.grad.double().numpy() for q, v in zip(t, (rec, inp, mu, lv))]
                for g, w, what in zip(got, (2 * d / d.size, -2 * d / d.size, mn * mud / b, mn * 0.5 * (np.exp(lvd) - 1) / b), ("reconstruction", "input", "mean", "log variance")):
                    ctx.close(f"gradient of the loss, {what}", g, w, 1e-5 * (np.abs(w) + np.abs(w).max() + 1e-12))
                ctx.step()
        ctx.states(1)
        ctx.trace()
        ctx.outcome(round(float(r["loss"]), 5))
    ctx.sample(task)


def sizes(task, ctx):
    """encode, decode and shapes for every size in a wide range"""
    W = list(range(1, 34)) + [48, 63, 64, 65, 100, 128, 129, 255, 256, 257, 512]
    for v in W:
        L, feats, ch, b = 3, 4, 2, 2
        if task["what"] == "batch":
            b = v
        elif task["what"] == "latent":
            L = v
        elif task["what"] == "features":
            feats = v
        else:
            ch = v
        ctx.at(latent=L, features=feats, channels=ch, batch=b)
        dec = Dec(ch)
        m = refill(ctx.impl("constructing", HN.VanillaVAE, latent_dim=L, encoder=Enc(feats), decoder=dec), 0.7)
        s = state(m)
        x = ref.fill((b, feats, 1, 1), 1.0, 0.1)
        xt = torch.tensor(x)
        h = x.reshape(b, -1).astype(float)
        wmu = h @ s["fc_mu.weight"].T + s["fc_mu.bias"]
        wlv = h @ s["fc_var.weight"].T + s["fc_var.bias"]
        torch.manual_seed(v)
        e = ctx.impl("reparameterize", m.reparameterize, torch.zeros(b, L), torch.zeros(b, L)).double().numpy()
        ctx.require(len(np.unique(e)) >= 0.99 * e.size, "elements share their noise")
        torch.manual_seed(v)
        out = ctx.impl("forward", m, xt)
        want = (wmu + np.exp(0.5 * wlv) * e) @ s["decoder_input.weight"].T + s["decoder_input.bias"]
        ctx.close("mean", out[2].detach().double().numpy(), wmu, 1e-5 * (1 + feats))
        ctx.close("log variance", out[3].detach().double().numpy(), wlv, 1e-5 * (1 + feats))
        ctx.close("forward", out[0].detach().double().numpy().reshape(b, ch), want, 1e-4 * (1 + np.abs(want).max()) * (1 + 0.1 * feats))
        ctx.same("forward changed its input", xt, torch.tensor(x))
        torch.manual_seed(v)
        ctx.same("generate is the reconstruction", ctx.impl("generate", m.generate, xt).detach(), out[0].detach())
        sm = ctx.impl("sample", m.sample, v)
        ctx.require(tuple(sm.shape) == (v, ch, 1, 1), f"{v} samples have shape {tuple(sm.shape)}")
        z = ref.fill((b, L), 1.5, 0.3)
        zt = torch.tensor(z)
        y = ctx.impl("decode", m.decode, zt).detach().double().numpy()
        want = z.astype(float) @ s["decoder_input.weight"].T + s["decoder_input.bias"]
        ctx.close("decoded", y.reshape(b, ch), want, 1e-5 * (1 + L))
        ctx.same("decode changed its input", zt, torch.tensor(z))
        ctx.step(4)
        ctx.states(1)
        ctx.trace()
        ctx.outcome(np.round(y, 5).tobytes())
    ctx.sample(task)


def samples(task, ctx):
    """the prior samples and the posterior samples have the distribution they claim"""
    L, mode = task["latent"], task["mode"]
    for ch in (1, 2, 3):
        m = refill(ctx.impl("constructing", HN.VanillaVAE, latent_dim=L, encoder=Enc(4), decoder=Dec(ch)), 0.9)
        s = state(m)
        W, c = s["decoder_input.weight"], s["decoder_input.bias"]
        ctx.at(latent=L, channels=ch, mode=mode)
        N = 20000
        with Situation(mode, m):
            torch.manual_seed(11)
            y = ctx.impl("sample", m.sample, N).detach().double().numpy().reshape(N, ch)
            x = torch.tensor(ref.fill((1, 4, 1, 1), 1.0)).expand(N, 4, 1, 1)
            out = ctx.impl("forward", m, x)
            g = ctx.impl("generate", m.generate, x)
        S = W @ W.T
        big = np.sqrt(np.diag(S)).max()
        ctx.close("mean of the samples", y.mean(0), c, 0.06 * big)
        ctx.close("covariance of the samples", np.cov(y.T).reshape(ch, ch), S, 0.08 * big ** 2)
        mu, lv = (q[:1].detach().double().numpy() for q in out[2:])
        S = W @ np.diag(np.exp(lv[0])) @ W.T
        big = np.sqrt(np.diag(S)).max()
        for name, q in (("reconstructions", out[0]), ("generated images", g)):
            q = q.detach().double().numpy().reshape(N, ch)
            ctx.close(f"mean of the {name}", q.mean(0), (mu @ W.T + c)[0], 0.06 * big)
            ctx.close(f"covariance of the {name}", np.cov(q.T).reshape(ch, ch), S, 0.08 * big ** 2)
        ctx.step(3)
        ctx.states(1)
        ctx.trace()
        ctx.outcome(L, ch, mode)
    ctx.sample(task)


def model(task, ctx):
    L = task["latent"]
    for feats, ch, b in itertools.product((1, 2, 4), (1, 3), (1, 2, 5)):
        ctx.at(latent=L, features=feats, channels=ch, batch=b)
        dec = Dec(ch)
        m = refill(ctx.impl("constructing", HN.VanillaVAE, latent_dim=L, encoder=Enc(feats), decoder=dec), 0.7)
        s = state(m)
        x = ref.fill((b, 4, 2, 2), 1.0, 0.1 * L)
        h = x.reshape(b, -1)[:, :feats].astype(float)
        with Situation(task["mode"], m):
            mu, lv = ctx.impl("encode", m.encode, torch.tensor(x))
            wmu = h @ s["fc_mu.weight"].T + s["fc_mu.bias"]
            wlv = h @ s["fc_var.weight"].T + s["fc_var.bias"]
            ctx.close("mean", mu.detach().double().numpy(), wmu, 1e-5)
            ctx.close("log variance", lv.detach().double().numpy(), wlv, 1e-5)
            # decode
            for zi in itertools.product((-1.0, 0.0, 2.0), repeat=min(L, 2)):
                z = np.zeros((b, L), np.float32)
                z[:, : len(zi)] = zi
                z += ref.fill((b, L), 0.1)
                y = ctx.impl("decode", m.decode, torch.tensor(z)).detach().double().numpy()
                want = z.astype(float) @ s["decoder_input.weight"].T + s["decoder_input.bias"]
                ctx.close("decoded", y.reshape(b, ch), want, 1e-5)
                ctx.require(dec.seen[-1] == (b, ch, 1, 1), f"the decoder receives {dec.seen[-1]}")
                ctx.step()
            # reparameterization: z = mu + exp(log_var / 2) * noise, with the same noise for the same seed
            for seed in range(3):
                torch.manual_seed(seed)
                e = ctx.impl("reparameterize", m.reparameterize, torch.zeros(b, L), torch.zeros(b, L)).double().numpy()
                for a, v in itertools.product((-1.5, 0.0, 2.0, -300.0), (-60.0, -21.0, -12.0, -4.0, 0.0, 1.0, 12.0, 21.0, 60.0)):
                    M, V = a + ref.fill((b, L), 0.5), v + ref.fill((b, L), 0.5, 0.4)
                    torch.manual_seed(seed)
                    z = ctx.impl("reparameterize", m.reparameterize, torch.tensor(M), torch.tensor(V)).double().numpy()
                    ctx.close("reparameterized", z, M.astype(float) + np.exp(0.5 * V.astype(float)) * e, 1e-5 * (1e-3 + np.abs(M) + np.abs(e) * np.exp(0.5 * V.astype(float))))
                    ctx.step()
                torch.manual_seed(seed)
                out = ctx.impl("forward", m, torch.tensor(x))
                ctx.require(len(out) == 4, "forward returns four values")
                z = wmu + np.exp(0.5 * wlv) * e
                want = z @ s["decoder_input.weight"].T + s["decoder_input.bias"]
                ctx.close("forward", out[0].detach().double().numpy().reshape(b, ch), want, 1e-4 * (1 + np.abs(want)))
                ctx.require(np.array_equal(out[1].numpy(), x), "forward does not return its input")
                ctx.close("mean returned by forward", out[2].detach().double().numpy(), wmu, 1e-5)
                ctx.close("log variance returned by forward", out[3].detach().double().numpy(), wlv, 1e-5)
                torch.manual_seed(seed)
                g = ctx.impl("generate", m.generate, torch.tensor(x))
                ctx.same("generate is the reconstruction", g.detach(), out[0].detach())
                for k in (1, 4):
                    sm = ctx.impl("sample", m.sample, k)
                    ctx.require(sm.shape == (k, ch, 1, 1), f"{k} samples have shape {tuple(sm.shape)}")
                ctx.step(4)
            ctx.states(1)
            ctx.trace()
            ctx.outcome(np.round(wmu, 5).tobytes(), ch)
    # the noise is standard normal, different for every element
    torch.manual_seed(3)
    m = HN.VanillaVAE(latent_dim=L, encoder=Enc(2), decoder=Dec(1))
    with Situation(task["mode"], m):
        e = m.reparameterize(torch.zeros(20000, L), torch.zeros(20000, L)).double().numpy()
    ctx.require(abs(e.mean()) < 0.05 and abs(e.std() - 1) < 0.05, f"noise has mean {e.mean():.3f} and deviation {e.std():.3f}")
    ctx.require(len(np.unique(e[:, 0])) > 19000, "the noise repeats across the batch")
    ctx.sample(task)


def real(task, ctx):
    """with the high order encoder and decoder"""
    n = task["n"]
    for segs, L, b in itertools.product((1, 2), (1, 3), (1, 2)):
        enc = HN.HighOrderFullyConvolutionalNetwork(layer_type="continuous2d", n=n, channels=[1, 2, 3], segments=segs, kernel_size=[2, 2])
        dec = HN.HighOrderFullyDeconvolutionalNetwork(layer_type="continuous2d", n=n, channels=[4, 2, 1], segments=segs, kernel_size=[2, 2])
        m = refill(ctx.impl("constructing", HN.VanillaVAE, latent_dim=L, encoder=enc, decoder=dec), 0.3)
        s = state(m)
        x = ref.fill((b, 1, 4, 4), 1.0)
        ctx.at(n=n, segments=segs, latent=L)
        mu, lv = ctx.impl("encode", m.encode, torch.tensor(x))
        h = enc(torch.tensor(x)).detach().double().numpy().reshape(b, -1)
        ctx.close("mean", mu.detach().double().numpy(), h @ s["fc_mu.weight"].T + s["fc_mu.bias"], 1e-5)
        ctx.close("log variance", lv.detach().double().numpy(), h @ s["fc_var.weight"].T + s["fc_var.bias"], 1e-5)
        z = ref.fill((b, L), 0.8)
        y = ctx.impl("decode", m.decode, torch.tensor(z)).detach().double().numpy()
        hin = (z.astype(float) @ s["decoder_input.weight"].T + s["decoder_input.bias"]).reshape(b, 4, 1, 1)
        want = dec(torch.tensor(hin, dtype=torch.float32)).detach().double().numpy()
        ctx.close("decode", y, want, 1e-4 * (1 + np.abs(want)))
        # training moves both halves
        out = m(torch.tensor(x))
        loss = m.loss_function(out[0], torch.zeros_like(out[0]), out[2], out[3], M_N=0.1)["loss"]
        ctx.impl("backward", loss.backward)
        for name, p in m.named_parameters():
            ctx.require(p.grad is not None and bool((p.grad != 0).any()), f"{name} receives no gradient")
        ctx.step(3)
        ctx.states(1)
        ctx.trace()
        ctx.outcome(y.tobytes())
    ctx.sample(task)


def slopes(task, ctx):
    """what backpropagation reports for the loss, the reconstruction and the latent values, with the noise fixed by its seed"""
    def whole(m, x):
        out = m(x)
        return [m.loss_function(out[0], torch.zeros_like(out[0]) + 0.3, out[2], out[3], M_N=0.3)["loss"]]
    views = dict(loss=whole, forward=lambda m, x: [v for j, v in enumerate(m(x)) if j != 1], encode=lambda m, x: m.encode(x), generate=lambda m, x: m.generate(x))
    for which, L, b, mode in itertools.product(("plain", "high order"), (1, 2, 3), (1, 2, 4), ("train", "eval")):
        if which == "plain":
            m, x = HN.VanillaVAE(latent_dim=L, encoder=Enc(3), decoder=Dec(2)), ref.fill((b, 4, 2, 2), 1.0, 0.1 * L)
        else:
            enc = HN.HighOrderFullyConvolutionalNetwork(layer_type="continuous2d", n=3, channels=[1, 2, 3], segments=2, kernel_size=[2, 2])
            dec = HN.HighOrderFullyDeconvolutionalNetwork(layer_type="continuous2d", n=3, channels=[4, 2, 1], segments=2, kernel_size=[2, 2])
            m, x = HN.VanillaVAE(latent_dim=L, encoder=enc, decoder=dec), ref.fill((b, 1, 4, 4), 0.9, 0.1)
        refill(m, 0.4)
        m.train(mode == "train")
        for view, f in views.items():
            ctx.at(vae=which, latent=L, batch=b, mode=mode, view=view)
            fd.slopes(ctx, f"variational autoencoder, {view}", m, [torch.tensor(x)], f, seed=7 + b, single=False)
        ctx.states(1)
        ctx.trace()
    # the sampling step on its own: derivatives 1 and half of the scaled noise
    m = HN.VanillaVAE(latent_dim=2, encoder=Enc(2), decoder=Dec(1))
    for b, L, shift in itertools.product((1, 3), (1, 2, 7), (-8.0, 0.0, 3.0)):
        mu = torch.tensor(ref.fill((b, L), 2.0), requires_grad=True)
        lv = torch.tensor(ref.fill((b, L), 2.0, 0.3) + np.float32(shift), requires_grad=True)
        z = ctx.impl("reparameterize", m.reparameterize, mu, lv)
        ctx.impl("backward", z.sum().backward)
        ctx.at(batch=b, latent=L, shift=shift)
        ctx.require(mu.grad is not None and lv.grad is not None, "the sample is not differentiable")
        ctx.close("derivative by the mean", mu.grad.numpy(), np.ones((b, L)), 1e-6)
        ctx.close("derivative by the log variance", lv.grad.double().numpy(), 0.5 * (z - mu).detach().double().numpy(), 1e-5 * (1 + np.abs(mu.detach().numpy())))
        ctx.step()
    ctx.sample(task)


def history(task, ctx):
    """every sequence of three operations on one instance, then the whole behaviour again"""
    OPS = ("encode", "forward", "sample", "generate", "loss", "step", "train", "eval", "fail")
    for seq in itertools.product(OPS, repeat=2 if not ctx.thorough else 3):
        m = refill(HN.VanillaVAE(latent_dim=2, encoder=Enc(3), decoder=Dec(2)), 0.7)
        ctx.at(history=seq)
        for j, op in enumerate(seq):
            x = torch.tensor(ref.fill((1 + j, 4, 2, 2), 1.0, 0.2 * j))
            if op in ("train", "eval"):
                getattr(m, op)()
            elif op == "step":
                o = m(x)
                m.loss_function(o[0], o[0].detach() * 0, o[2], o[3], M_N=0.5)["loss"].backward()
                with torch.no_grad():
                    for p in m.parameters():
                        p -= 0.1 * p.grad
                        p.grad = None
            elif op == "loss":
                o = m(x)
                m.loss_function(o[0], x[:, :2, :1, :1], o[2], o[3], M_N=0.5)
            elif op == "sample":
                m.sample(2 + j)
            elif op == "fail":
                try:
                    m(torch.zeros(2, 1))
                except Exception:
                    pass
            else:
                {"encode": m.encode, "forward": m, "generate": m.generate}[op](x)
            ctx.step()
        s = state(m)
        x = ref.fill((2, 4, 2, 2), 1.0, 0.9)
        h = x.reshape(2, -1)[:, :3].astype(float)
        wmu, wlv = h @ s["fc_mu.weight"].T + s["fc_mu.bias"], h @ s["fc_var.weight"].T + s["fc_var.bias"]
        torch.manual_seed(5)
        e = m.reparameterize(torch.zeros(2, 2), torch.zeros(2, 2)).double().numpy()
        torch.manual_seed(5)
        o = ctx.impl("forward", m, torch.tensor(x))
        want = (wmu + np.exp(0.5 * wlv) * e) @ s["decoder_input.weight"].T + s["decoder_input.bias"]
        ctx.close("reconstruction after a history", o[0].detach().double().numpy().reshape(2, 2), want, 1e-4 * (1 + np.abs(want)))
        ctx.close("mean after a history", o[2].detach().double().numpy(), wmu, 1e-5)
        ctx.close("log variance after a history", o[3].detach().double().numpy(), wlv, 1e-5)
        two = [m.reparameterize(torch.zeros(2, 2), torch.zeros(2, 2)) for _ in range(3)]
        ctx.require(not torch.equal(two[0], two[1]) and not torch.equal(two[1], two[2]), "the same noise is drawn twice")
        sm = [m.sample(2) for _ in range(2)]
        ctx.require(not torch.equal(sm[0], sm[1]), "the same sample is drawn twice")
        ctx.step(4)
        ctx.states(1)
        ctx.trace()
        ctx.outcome(want.round(4).tobytes())
    ctx.sample(task)


def c23(task, ctx):
    globals()[task["part"]](task, ctx)


T = ["float32 CPU tensors"]
PROPS = {"C23": Prop("C23", c23_tasks, c23, "all means and log variances over the alphabet for latent dimension 1..3, all batch/latent/feature sizes in range, the noise controlled through the seed, all pairs of operations on one instance, derivatives along every tensor", T)}
