From fdcc24ff0d6e544e1861b87f15143874ca01b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:37 +0000
Subject: [PATCH 01/30] fix: SparseLion weight decay was applied to a temporary
 copy and had no effect

---
 high_order_layers_torch/sparse_optimizers/sparse_lion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/sparse_optimizers/sparse_lion.py b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
index 21bce8f..7900050 100644
--- a/high_order_layers_torch/sparse_optimizers/sparse_lion.py
+++ b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
@@ -16,7 +16,7 @@ def update_fn(p, grad, exp_avg, lr, wd, beta1, beta2, update_indexes: torch.Tens
     :param update_indexes: True/False array indicating which indexes should be updated
     """
 
-    p.data[update_indexes].mul_(1 - lr * wd)
+    p.data[update_indexes] = p.data[update_indexes].mul_(1 - lr * wd)
 
     # weight update
     grad_update = grad[update_indexes]
-- 
2.43.0


From bbf059632a0e7a223c4ff65d8e562795b86103cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 02/30] fix: FourierConvolution1d could not be constructed (no
 expansion/convolution)

---
 high_order_layers_torch/FunctionalConvolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index ba7fb13..d244c83 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -259,7 +259,8 @@ class FourierConvolution1d(FourierConvolution):
             kernel_size=kernel_size,
             length=length,
             rescale_output=rescale_output,
-            conv_wrapper=Conv1d,
+            expansion=Expansion1d,
+            convolution=Conv1d,
             *args,
             **kwargs,
         )
-- 
2.43.0


From 606d6bdc26619e3d2a4864b4dd18947a58b4c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 03/30] fix: FourierSeriesEmbedding returned None instead of
 the layer

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index 9bba775..d32f2b5 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -44,7 +44,7 @@ def FourierSeriesEmbedding(
     """
     High order embedding using fourier layer
     """
-    FourierSeries(
+    return FourierSeries(
         n=n, in_features=in_features, out_features=out_features, length=length
     )
 
-- 
2.43.0


From b3c60040bc875c3e894555af7d89b2df86599a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 04/30] fix: HighOrderMLPList only built its first layer

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index b58eb7f..c7a2a08 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -133,7 +133,7 @@ class HighOrderMLPList(nn.Module):
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
-        for i in range(1, len(layer_list)):
+        for i in range(1, len(layer_type)):
             if normalization is not None and normalization[i] is not None:
                 layer_list.append(normalization[i]())
             if non_linearity is not None and non_linearity[i] is not None:
-- 
2.43.0


From b18e6675003322673d2b45a684db838ae0cc6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 05/30] fix: polynomial_prod layer could not be constructed
 (num_basis missing)

---
 high_order_layers_torch/Basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 092a2e2..de77189 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -457,6 +457,7 @@ class BasisFlatProd:
         self.n = n
         self.basis = basis
         self.alpha = alpha
+        self.num_basis = basis.num_basis or n
 
     def interpolate(self, x: Tensor, w: Tensor) -> Tensor:
         """
-- 
2.43.0


From 758c2e7dbde01991900b2cfa55d2351dbd84e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 06/30] fix: N dimensional polynomial layers rejected a scalar
 n

---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 1248ef6..24aa981 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -290,7 +290,7 @@ class LagrangePolyFlatND(BasisFlatND):
 class LagrangePolyFlatND(LagrangeBasisND):
     def __init__(self, n: int, length: float = 2.0, dimensions: int = 2, **kwargs):
         super().__init__(
-            n,
+            [n] * dimensions if isinstance(n, int) else n,
             length=length,
             dimensions=dimensions,
             **kwargs
-- 
2.43.0


From 078c5d1af693a381ef6333badd448c15eea26b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 07/30] fix: SwitchLayer and SumLayer did not register their
 sub layers (no parameters, no state_dict)

---
 high_order_layers_torch/layers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2ecdd52..e30a1a7 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -161,7 +161,7 @@ class LinearReluAdapter(nn.Module):
 class SumLayer(nn.Module):
     def __init__(self, *args, layer_list: list[nn.Module], **kwargs):
         super().__init__()
-        self._layer_list = layer_list
+        self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
@@ -192,7 +192,7 @@ class SwitchLayer(Module):
         self._in_features = in_features
         self._out_features = out_features
 
-        self._layers = [
+        self._layers = nn.ModuleList(
             high_order_fc_layers(
                 layer_type=layer_type,
                 n=n,
@@ -205,7 +205,7 @@ class SwitchLayer(Module):
                 device=device,
             )
             for _ in range(num_input_layers)
-        ]
+        )
 
         self._normalization = normalization
 
-- 
2.43.0


From 4af71c6611819b6fe6147e6592a14539d45d4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 08/30] fix: PiecewiseND used the weights of the first link for
 every input and output

---
 high_order_layers_torch/PolynomialLayers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2461fc..475f4ee 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -430,10 +430,9 @@ class PiecewiseND(torch.nn.Module):
             * weight_magnitude
             - weight_magnitude
         ) / self.in_features
-        self.w.data = segment_values.repeat_interleave(
-            self.total_segments * self.weights_per_segment
+        self.w.data = segment_values.unsqueeze(-1).repeat(
+            1, 1, self.total_segments * self.weights_per_segment
         )
-        print("self.w.data", self.w)
 
     def which_segment(self, x: torch.Tensor) -> torch.Tensor:
         print('segments x', torch.min(x[:,:,0]), torch.max(x[:,:,1]))
@@ -521,9 +520,9 @@ class PiecewiseND(torch.nn.Module):
         # selected_weights = self.w[weight_indices]
 
         # Reshape to [out_features, num_inputs, batch_size, weights_per_segment]
-        reshaped_weights = self.w[weight_indices].view(
-            batch_size, num_inputs, self.out_features, self.weights_per_segment
-        )
+        inputs = torch.arange(num_inputs, device=self.device).view(1, -1, 1, 1)
+        outputs = torch.arange(self.out_features, device=self.device).view(1, 1, -1, 1)
+        reshaped_weights = self.w[inputs, outputs, weight_indices]
 
         # Permute to get the desired shape [out_features, num_inputs, batch_size, weights_per_segment]
         return reshaped_weights
-- 
2.43.0


From a28412ba17e242f948386355df8353eec32f7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 09/30] fix: piecewise layers with length other than 2 did not
 use segments spanning the length

---
 high_order_layers_torch/Basis.py            |  8 ++++----
 high_order_layers_torch/PolynomialLayers.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index de77189..c9c0e10 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -132,7 +132,7 @@ class PiecewiseExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseExpand1d:
@@ -214,7 +214,7 @@ class PiecewiseExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand:
@@ -293,7 +293,7 @@ class PiecewiseDiscontinuousExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand1d:
@@ -375,7 +375,7 @@ class PiecewiseDiscontinuousExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class BasisFlat:
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 475f4ee..01cbc17 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -231,7 +231,7 @@ class Piecewise(nn.Module):
         If not set, then it defaults to random uniform.
         """
         super().__init__()
-        self._poly = poly(n)
+        self._poly = poly(n, length=length)
         self._n = n
         self._segments = segments
         self.in_features = in_features
@@ -341,7 +341,7 @@ class Piecewise(nn.Module):
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(
         self,
@@ -461,8 +461,10 @@ class PiecewiseND(torch.nn.Module):
 
     def _eta(self, index: torch.Tensor) -> torch.Tensor:
         return (
-            index.float() / torch.tensor(self.segments, device=self.device).float() * 2
-            - 1
+            index.float()
+            / torch.tensor(self.segments, device=self.device).float()
+            * self._length
+            - self._half
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
@@ -598,7 +600,7 @@ class PiecewiseDiscontinuous(nn.Module):
         super().__init__()
         self._n = n
         self.device = device
-        self._poly = poly(self._n)
+        self._poly = poly(self._n, length=length)
         self._segments = segments
         self.in_features = in_features
         self.out_features = out_features
@@ -693,7 +695,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
     def _eta(self, index: int):
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(self, layer_out: "PiecewiseDiscontinuous"):
         interpolate_polynomial_layer(layer_in=self, layer_out=layer_out)
-- 
2.43.0


From 7abc6ea93310cc8cd032564507476f6dcfed8f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 10/30] fix: positions_from_mesh returned x twice and never y

---
 high_order_layers_torch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index 643468c..b1892d2 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -121,7 +121,7 @@ def positions_from_mesh(
         r1_min = torch.min(r1)
         dr1 = r1_max - r1_min
 
-        r2 = rot_x * xv - rot_y * yv
+        r2 = rot_x * yv - rot_y * xv
         r2_max = torch.max(r2)
         r2_min = torch.min(r2)
         dr2 = r2_max - r2_min
-- 
2.43.0


From 45accdb005ff660a5a97fef92c9ed32526c1981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 11/30] fix: ClassicSinusoidalEmbedding of dimension 2 divided
 by zero

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index d32f2b5..cfe1bc3 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -25,7 +25,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
 
     def forward(self, x):
         half_dim = self.dim // 2
-        emb = math.log(10000) / (half_dim - 1)
+        emb = math.log(10000) / max(half_dim - 1, 1)
         emb = torch.exp(torch.arange(half_dim) * -emb)
         emb = x.unsqueeze(-1) * emb.unsqueeze(0)
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
-- 
2.43.0


From 9b0350a2f1fa7f9683e4d9273c6bf8264ec1ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 12/30] fix: CustomizingAttention called the scaled dot product
 attention without a key

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index cdfc944..6c0ab1f 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -509,7 +509,7 @@ class CustomizingAttention(nn.Module):
         query = query.contiguous().view(-1, q_len, self.dim)
         value = value.contiguous().view(-1, v_len, self.dim)
 
-        context, attn = self.scaled_dot_attn(query, value)
+        context, attn = self.scaled_dot_attn(query, value, value)
         attn = attn.squeeze()
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
-- 
2.43.0


From 54e8ee0d0ff8c8c9d90302f9368ce5aa6aa8d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 13/30] fix: MultiHeadAttention applied the mask of one sample
 to another sample

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 6c0ab1f..7f98bd7 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -324,7 +324,7 @@ class MultiHeadAttention(nn.Module):
         )  # BNxV_LENxD
 
         if mask is not None:
-            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # BxNxQ_LENxK_LEN
+            mask = mask.unsqueeze(0).repeat(self.num_heads, 1, 1, 1)  # NxBxQ_LENxK_LEN
 
         context, attn = self.scaled_dot_attn(query, key, value, mask)
 
-- 
2.43.0


From 094fdd364ad40292a6b7e160b8db69fdc8e8a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 14/30] fix: MultiHeadLocationAwareAttention mixed values of
 different heads and time steps

---
 high_order_layers_torch/attentions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 7f98bd7..4af543c 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -235,11 +235,6 @@ class MultiHeadLocationAwareAttention(nn.Module):
         ).squeeze(2)
         attn = F.softmax(score, dim=1)
 
-        value = value.view(batch_size, seq_len, self.num_heads, self.dim).permute(
-            0, 2, 1, 3
-        )
-        value = value.contiguous().view(-1, seq_len, self.dim)
-
         context = torch.bmm(attn.unsqueeze(1), value).view(
             batch_size, -1, self.num_heads * self.dim
         )
-- 
2.43.0


From 07df08e578f7e180b07838f6e484f1ce88de4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 15/30] fix: plateau scheduler passed the verbose argument that
 torch removed

---
 high_order_layers_torch/modules.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 664e17b..17dedfa 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -73,7 +73,6 @@ class PredictionNetMixin:
                 optimizer,
                 patience=self.cfg.optimizer.patience,
                 factor=self.cfg.optimizer.factor,
-                verbose=True,
             )
             reduce_on_plateau = True
         elif self.cfg.optimizer.scheduler == "exponential":
-- 
2.43.0


From 905cd00a1a54a85fb0601b74a0d023059f52f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 16/30] fix: HighOrderTailFocusNetwork.compute_sizes failed
 with the default stride

---
 high_order_layers_torch/networks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c7a2a08..af809ab 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -752,7 +752,8 @@ class HighOrderTailFocusNetwork(nn.Module):
     def compute_sizes(self, input_size: int):
         widths = [input_size]
         for i, val in enumerate(self.kernel_size):
-            nw = math.ceil((widths[i] - self.kernel_size[i] + 1) / self.stride[i])
+            stride = 1 if self.stride is None else self.stride[i]
+            nw = math.ceil((widths[i] - self.kernel_size[i] + 1) / stride)
             widths.append(nw)
 
         output_sizes = [
-- 
2.43.0


From 6e0ef62140b4306cc31e39dce7e2021e882b9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 17/30] fix: Product layer without bias could not be evaluated

---
 high_order_layers_torch/ProductLayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/ProductLayer.py b/high_order_layers_torch/ProductLayer.py
index 1ed315b..bbd06fc 100644
--- a/high_order_layers_torch/ProductLayer.py
+++ b/high_order_layers_torch/ProductLayer.py
@@ -50,6 +50,8 @@ class Product(Module):
         this_sum = torch.sum(assemble, dim=1)
         assemble = assemble + 1.0
         assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
-        assemble = assemble - 1 + self.bias
+        assemble = assemble - 1
+        if self.bias is not None:
+            assemble = assemble + self.bias
 
         return assemble
-- 
2.43.0


From 4b51c6177de37a6563a5b5b0cbb3a3523ad5f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:53 +0000
Subject: [PATCH 18/30] fix: rescale_output of 1d convolutions divided by
 kernel_size squared

---
 high_order_layers_torch/FunctionalConvolution.py          | 8 ++++----
 high_order_layers_torch/FunctionalConvolutionTranspose.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index d244c83..adf9926 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -207,7 +207,7 @@ class FourierConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * self.conv.weight[0, 0].numel()
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -307,7 +307,7 @@ class PolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * self.conv.weight[0, 0].numel()
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -434,7 +434,7 @@ class PiecewisePolynomialConvolution(nn.Module):
             **kwargs,
         )
 
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * self.conv.weight[0, 0].numel()
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -561,7 +561,7 @@ class PiecewiseDiscontinuousPolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * self.conv.weight[0, 0].numel()
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
diff --git a/high_order_layers_torch/FunctionalConvolutionTranspose.py b/high_order_layers_torch/FunctionalConvolutionTranspose.py
index 552a506..d7be200 100644
--- a/high_order_layers_torch/FunctionalConvolutionTranspose.py
+++ b/high_order_layers_torch/FunctionalConvolutionTranspose.py
@@ -115,7 +115,7 @@ class PiecewisePolynomialConvolutionTranspose(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * self.conv.weight[0, 0].numel()
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
-- 
2.43.0


From 6c52038dfd282440119e2b2e3981ba030313ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:53 +0000
Subject: [PATCH 19/30] fix: piecewise 1d convolutions rejected non contiguous
 inputs

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index c9c0e10..31ba980 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -189,7 +189,7 @@ class PiecewiseExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
@@ -350,7 +350,7 @@ class PiecewiseDiscontinuousExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
-- 
2.43.0


From 4d76ad2645c0c2662bc26186ed3cd9ac455ff5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:53 +0000
Subject: [PATCH 20/30] fix: p refinement of product piecewise layers failed
 with an unbound variable

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 01cbc17..93115b9 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -788,10 +788,10 @@ def interpolate_polynomial_layer(
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
 
-    if isinstance(layer_in, PiecewisePolynomial):
+    if isinstance(layer_in, Piecewise):
         offset = -1
         end = 1
-    elif isinstance(layer_in, PiecewiseDiscontinuousPolynomial):
+    elif isinstance(layer_in, PiecewiseDiscontinuous):
         offset = 0
         end = 0
 
-- 
2.43.0


From 4d327ee1531afd81f4b954e38d44cf967bb5612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:53 +0000
Subject: [PATCH 21/30] fix: h refinement of layers with periodicity shorter
 than the domain folded the nodes

---
 high_order_layers_torch/PolynomialLayers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 93115b9..49d8774 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -269,6 +269,9 @@ class Piecewise(nn.Module):
         if self.periodicity is not None:
             x = make_periodic(x, self.periodicity)
 
+        return self._segment_index(x)
+
+    def _segment_index(self, x: torch.Tensor) -> Tensor:
         # get the segment index
         id_min = (((x + self._half) / self._length) * self._segments).long()
         id_min = id_min.clamp(0, self._segments - 1)
@@ -927,8 +930,9 @@ def refine_polynomial_layer(
                     # compute x in the global space
                     x_global = layer_out.x_global(x_out, j)
 
-                    # figure out which segments these correspond to in the input
-                    index_in = layer_in.which_segment(x_global)
+                    # figure out which segments these correspond to in the input,
+                    # nodes are inside the domain so periodicity must not fold them
+                    index_in = layer_in._segment_index(x_global)
 
                     # compute the local x value in the input so we can interpolate
                     x_local_in = layer_in.x_local(x_global, index_in)
-- 
2.43.0


From 82a492fd318db8b8f3a5b8de24043575f93c86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:53 +0000
Subject: [PATCH 22/30] fix: HighOrderTailFocusNetwork without normalization
 dropped the tails of inner layers

---
 high_order_layers_torch/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index af809ab..b941e1f 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -766,9 +766,11 @@ class HighOrderTailFocusNetwork(nn.Module):
     def forward(self, x: Tensor) -> Tensor:
         early = [x[:, :, -self.focus[0] :].flatten(1)]
         count = 1
+        # The tail is taken after the normalization, if there is one
+        last = "normal" if "normal_0" in self.layer_dict else "conv"
         for name in self.layer_list:
             x = self.layer_dict[name](x)  # Assuming it only does this move once!
-            if "normal" in name and count < len(self.focus):
+            if last in name and count < len(self.focus):
                 tail = x[:, :, -self.focus[count] :].flatten(1)
                 early.append(tail)
                 count += 1
-- 
2.43.0


From 7ee610116ac4eba69452b3edacb47b3bba7752ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:53 +0000
Subject: [PATCH 23/30] fix: select_network read output.width, n_hidden and
 model_type from the wrong place

---
 high_order_layers_torch/modules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 17dedfa..a3b063b 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -117,7 +117,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
         lower_layers = LowOrderMLP(
             in_width=cfg.net.hidden.width,
-            out_width=cfg.output.width,
+            out_width=cfg.net.output.width,
             hidden_width=cfg.net.hidden.width,
             hidden_layers=cfg.net.hidden.layers - 1,
             non_linearity=torch.nn.ReLU(),
@@ -135,7 +135,7 @@ def select_network(cfg: DictConfig, device: str = None):
             layer_type=cfg.net.layer_type,
             n=cfg.net.n,
             n_in=cfg.net.n_in,
-            n_hidden=cfg.net.n_in,
+            n_hidden=cfg.net.n_hidden,
             n_out=cfg.net.n_out,
             in_width=cfg.net.input.width,
             in_segments=cfg.net.input.segments,
@@ -184,7 +184,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
     else:
         raise ValueError(
-            f"Unrecognized model_type {cfg.model_type} should be high_order, high_order_input or high_order_conv!"
+            f"Unrecognized model_type {cfg.net.model_type} should be high_order, high_order_input or high_order_conv!"
         )
 
     return model
-- 
2.43.0


From a378897c373fd80907f3703badd81948f238ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:53 +0000
Subject: [PATCH 24/30] fix: the scale of high order MLPs and switch layers
 never reached the layers

---
 high_order_layers_torch/layers.py   | 1 +
 high_order_layers_torch/networks.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index e30a1a7..2b6bd24 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -201,6 +201,7 @@ class SwitchLayer(Module):
                 segments=segments,
                 rescale_output=False,
                 scale=scale,
+                length=scale,
                 periodicity=None,
                 device=device,
             )
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index b941e1f..9add8e2 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -130,6 +130,7 @@ class HighOrderMLPList(nn.Module):
             segments=segments[0],
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
@@ -147,6 +148,7 @@ class HighOrderMLPList(nn.Module):
                 segments=segments[i],
                 rescale_output=rescale_output,
                 scale=scale,
+                length=scale,
                 periodicity=periodicity,
             )
             layer_list.append(this_layer)
@@ -227,6 +229,7 @@ class HighOrderMLP(nn.Module):
             segments=in_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             intialization=initialization,
@@ -250,6 +253,7 @@ class HighOrderMLP(nn.Module):
                 segments=hidden_segments,
                 rescale_output=rescale_output,
                 scale=scale,
+                length=scale,
                 periodicity=periodicity,
                 device=device,
                 initialization=initialization,
@@ -277,6 +281,7 @@ class HighOrderMLP(nn.Module):
             segments=out_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialization=initialization,
@@ -363,6 +368,7 @@ class HighOrderMultiMLP(nn.Module):
             segments=in_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             intialization=initialization,
@@ -423,6 +429,7 @@ class HighOrderMultiMLP(nn.Module):
             segments=out_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialization=initialization,
-- 
2.43.0


From bb12b4166d1c41e96a86c82287e6cd7d93512c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 25/30] fix: HighOrderMultiMLP recursed forever and could not
 be constructed

---
 high_order_layers_torch/networks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 9add8e2..c43cf64 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -385,10 +385,9 @@ class HighOrderMultiMLP(nn.Module):
             # need to make a special network or special layer
             # think about it.
 
-            replica_network = HighOrderMultiMLP(
+            replica_network = HighOrderMLP(
                 layer_type=layer_type,
                 n=n,
-                replicas=replicas,
                 in_width=hidden_width,
                 out_width=hidden_width,
                 hidden_layers=hidden_layers,
@@ -436,7 +435,7 @@ class HighOrderMultiMLP(nn.Module):
         )
         self.output_list.append(self.output_layer)
 
-        self.model_in = nn.Sequential(*self.input_list)
+        self.model_in = nn.Sequential(*self.layer_list)
         self.model_out = nn.Sequential(*self.output_list)
 
     def forward(self, x: Tensor) -> Tensor:
-- 
2.43.0


From 3623da94aeb1b2856a0a5b61b7710cf8fb897dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 26/30] fix: the initialization option of high order MLPs never
 reached the layers

---
 high_order_layers_torch/PolynomialLayers.py |  8 ++++++++
 high_order_layers_torch/networks.py         | 10 +++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 49d8774..7b89ee1 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -544,6 +544,7 @@ class PiecewisePolynomial(Piecewise):
         weight_magnitude=1.0,
         periodicity: float = None,
         device: str = "cpu",
+        initialize: str = "constant_random",
         **kwargs,
     ):
         super().__init__(
@@ -556,6 +557,7 @@ class PiecewisePolynomial(Piecewise):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            initialize=initialize,
         )
 
 
@@ -570,6 +572,7 @@ class PiecewisePolynomialProd(Piecewise):
         weight_magnitude=1.0,
         periodicity: float = None,
         device: str = "cpu",
+        initialize: str = "constant_random",
         **kwargs,
     ):
         super().__init__(
@@ -582,6 +585,7 @@ class PiecewisePolynomialProd(Piecewise):
             poly=LagrangePolyProd,
             periodicity=periodicity,
             device=device,
+            initialize=initialize,
         )
 
 
@@ -718,6 +722,7 @@ class PiecewiseDiscontinuousPolynomial(PiecewiseDiscontinuous):
         weight_magnitude=1.0,
         periodicity: float = None,
         device: str = "cpu",
+        initialize: str = "constant_random",
         **kwargs,
     ):
         super().__init__(
@@ -730,6 +735,7 @@ class PiecewiseDiscontinuousPolynomial(PiecewiseDiscontinuous):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            initialize=initialize,
         )
 
 
@@ -744,6 +750,7 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
         weight_magnitude=1.0,
         periodicity: float = None,
         device: str = "cpu",
+        initialize: str = "constant_random",
         **kwargs,
     ):
         super().__init__(
@@ -755,6 +762,7 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             weight_magnitude,
             poly=LagrangePolyProd,
             periodicity=periodicity,
+            initialize=initialize,
         )
 
 
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c43cf64..a47bcb1 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -232,7 +232,7 @@ class HighOrderMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.input_layer)
         for i in range(hidden_layers):
@@ -256,7 +256,7 @@ class HighOrderMLP(nn.Module):
                 length=scale,
                 periodicity=periodicity,
                 device=device,
-                initialization=initialization,
+                initialize=initialization,
             )
 
             # This will add the result of the previous layer after normalization
@@ -284,7 +284,7 @@ class HighOrderMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.output_layer)
         self.model = nn.Sequential(*layer_list)
@@ -371,7 +371,7 @@ class HighOrderMultiMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         self.layer_list.append(self.input_layer)
 
@@ -431,7 +431,7 @@ class HighOrderMultiMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         self.output_list.append(self.output_layer)
 
-- 
2.43.0


From 4b7891b60af5f0b09a7125e96c64c4f278b9dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:45 +0000
Subject: [PATCH 27/30] fix: N dimensional interpolation negated the weights
 for an odd number of even n

---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 24aa981..5fbaaf4 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -99,7 +99,7 @@ class LagrangeBasisND:
     def _compute_denominators(self):
         return [
             torch.where(X_diff == 0, torch.tensor(1.0, device=self.device), X_diff)
-            for X_diff in [Xi.unsqueeze(0) - Xi.unsqueeze(1) for Xi in self.X]
+            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
         ]
 
     def _compute_indexes(self):
-- 
2.43.0


From f6dde83d28571f8a8618f4cf05cdeae09fda6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:21 +0000
Subject: [PATCH 28/30] fix: one dimensional PiecewiseND failed in a debugging
 print

---
 high_order_layers_torch/PolynomialLayers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 7b89ee1..3a4abaf 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -438,7 +438,6 @@ class PiecewiseND(torch.nn.Module):
         )
 
     def which_segment(self, x: torch.Tensor) -> torch.Tensor:
-        print('segments x', torch.min(x[:,:,0]), torch.max(x[:,:,1]))
         return (
             (
                 (x + self._half)
-- 
2.43.0


From df5f4e0066064a61b4da08c303090fee846ffc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:59 +0000
Subject: [PATCH 29/30] fix: 2d convolutions with groups could not be
 constructed

---
 high_order_layers_torch/FunctionalConvolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index adf9926..24d89fe 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -355,7 +355,7 @@ class PolynomialConvolution2d(PolynomialConvolution):
             self.conv.weight,
             num_nodes=n,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self.conv.weight.shape[1],  # channels per group
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
@@ -483,7 +483,7 @@ class PiecewisePolynomialConvolution2d(PiecewisePolynomialConvolution):
             self.conv.weight,
             num_nodes=segments * (n - 1) + 1,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self.conv.weight.shape[1],  # channels per group
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
@@ -612,7 +612,7 @@ class PiecewiseDiscontinuousPolynomialConvolution2d(
             self.conv.weight,
             num_nodes=n * segments,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self.conv.weight.shape[1],  # channels per group
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
-- 
2.43.0


From 33ea4da3034f9d47ff8708844c9cb0ba3db34446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:50 +0000
Subject: [PATCH 30/30] fix: select_network passed the number of channels as
 the epsilon of the batch normalization

---
 high_order_layers_torch/modules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index a3b063b..75d51ad 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -155,7 +155,7 @@ def select_network(cfg: DictConfig, device: str = None):
             kernel_size=cfg.net.kernel_size,
             rescale_output=False,
             periodicity=cfg.net.periodicity,
-            normalization=torch.nn.LazyBatchNorm1d,
+            normalization=torch.nn.BatchNorm1d,
             stride=cfg.net.stride,
             pooling=None,  # don't add an average pooling layer
         )
@@ -171,7 +171,7 @@ def select_network(cfg: DictConfig, device: str = None):
             kernel_size=cfg.net.kernel_size,
             rescale_output=False,
             periodicity=cfg.net.periodicity,
-            normalization=torch.nn.LazyBatchNorm1d,
+            normalization=torch.nn.BatchNorm1d,
             stride=cfg.net.stride,
             focus=cfg.net.focus,
         )
-- 
2.43.0

