From 150c5d73d3e91e2d11e5f79d4bdd93119c3d7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:40 +0000
Subject: [PATCH 01/20] fix: accept non-contiguous potentials when scoring
 events and in CKY

Scoring an event and running the sentence grammar used view() on tensors
that inherit the layout of the user's potentials, so permuted or strided
potentials raised an error. Use reshape() instead.
---
 torch_struct/cky.py     | 16 ++++++++--------
 torch_struct/helpers.py |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index 60b4cc1..baf8e79 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -34,7 +34,7 @@ class CKY(_Struct):
         # Split into NT/T groups
         NTs = slice(0, NT)
         Ts = slice(NT, S)
-        rules = rules.view(ssize, batch, 1, NT, S, S)
+        rules = rules.reshape(ssize, batch, 1, NT, S, S)
 
         def arr(a, b):
             return rules[..., a, b].contiguous().view(*v + (NT, -1)).transpose(-2, -1)
@@ -52,21 +52,21 @@ class CKY(_Struct):
 
             Y = beta[A][: N - w, :w, :]
             Z = beta[B][w:, N - w :, :]
-            X1 = matmul(matmul(Y.transpose(-2, -1), Z).view(*v2), X_Y_Z)
+            X1 = matmul(matmul(Y.transpose(-2, -1), Z).reshape(*v2), X_Y_Z)
             all_span.append(X1)
 
             Y_term = term_use[..., : N - w, :, None]
             Z_term = term_use[..., w:, None, :]
 
             Y = Y[..., -1, :].unsqueeze(-1)
-            X2 = matmul(times(Y, Z_term).view(*v2), X_Y_Z1)
+            X2 = matmul(times(Y, Z_term).reshape(*v2), X_Y_Z1)
 
             Z = Z[..., 0, :].unsqueeze(-2)
-            X3 = matmul(times(Y_term, Z).view(*v2), X_Y1_Z)
+            X3 = matmul(times(Y_term, Z).reshape(*v2), X_Y1_Z)
             all_span += [X2, X3]
 
             if w == 1:
-                X4 = matmul(times(Y_term, Z_term).view(*v2), X_Y1_Z1)
+                X4 = matmul(times(Y_term, Z_term).reshape(*v2), X_Y1_Z1)
                 all_span.append(X4)
 
             span[w] = semiring.sum(torch.stack(all_span, dim=-1))
@@ -147,9 +147,9 @@ class CKY(_Struct):
         m_term, m_rule, m_root = parts[:3]
         b = m_term.shape[0]
         return (
-            m_term.mul(terms).view(b, -1).sum(-1)
-            + m_rule.mul(rules).view(b, -1).sum(-1)
-            + m_root.mul(roots).view(b, -1).sum(-1)
+            m_term.mul(terms).reshape(b, -1).sum(-1)
+            + m_rule.mul(rules).reshape(b, -1).sum(-1)
+            + m_root.mul(roots).reshape(b, -1).sum(-1)
         )
 
     @staticmethod
diff --git a/torch_struct/helpers.py b/torch_struct/helpers.py
index a8d2848..85f0c13 100644
--- a/torch_struct/helpers.py
+++ b/torch_struct/helpers.py
@@ -31,7 +31,7 @@ class _Struct:
     def score(self, potentials, parts, batch_dims=[0]):
         score = torch.mul(potentials, parts)
         batch = tuple((score.shape[b] for b in batch_dims))
-        return self.semiring.prod(score.view(batch + (-1,)))
+        return self.semiring.prod(score.reshape(batch + (-1,)))
 
     def _bin_length(self, length):
         log_N = int(math.ceil(math.log(length, 2)))
-- 
2.43.0


From 14b8eb1e3533809d8d48cd3c30e3ed8330fb86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:40 +0000
Subject: [PATCH 02/20] fix: cross-entropy and KL for semi-Markov models

Both pass a pair of potentials. The model called requires_grad_ on the pair
itself, and converted its boolean length mask as if the mask were a pair of
potentials. The potentials are already marked when their shape is read, and
the mask only needs a leading dimension to broadcast.
---
 torch_struct/semimarkov.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 257112e..08cc603 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -24,7 +24,6 @@ class SemiMarkov(_Struct):
         # Setup
         semiring = self.semiring
         ssize = semiring.size()
-        log_potentials.requires_grad_(True)
         log_potentials, batch, N, K, C, lengths = self._check_potentials(
             log_potentials, lengths
         )
@@ -66,7 +65,7 @@ class SemiMarkov(_Struct):
         mask_length = mask_length.to(log_potentials.device)
         for k in range(1, K - 1):
             mask_length_k = mask_length < (lengths - 1 - (k - 1)).view(batch, 1, 1)
-            mask_length_k = semiring.convert(mask_length_k)
+            mask_length_k = mask_length_k.unsqueeze(0)
             mask[:, :, :, k - 1, k].diagonal(0, -2, -1).masked_fill_(mask_length_k, True)
         init = semiring.fill(init, mask, semiring.one)
 
-- 
2.43.0


From 8b856915d0218ba71f87a411d03ada619f757a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:40 +0000
Subject: [PATCH 03/20] fix: cross-entropy and KL for projective dependency
 models

Both pass a pair of potentials, which the model treated as a single tensor.
Move the root arcs of each member of the pair before running the parser.
---
 torch_struct/deptree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/torch_struct/deptree.py b/torch_struct/deptree.py
index 8747d7e..b399e85 100644
--- a/torch_struct/deptree.py
+++ b/torch_struct/deptree.py
@@ -48,12 +48,16 @@ class DepTree(_Struct):
 
     def logpartition(self, arc_scores_in, lengths=None, force_grad=False):
         multiroot = getattr(self, "multiroot", True)
-        if arc_scores_in.dim() not in (3, 4):
+        # Cross-entropy and KL semirings take a pair of potentials.
+        is_pair = isinstance(arc_scores_in, list)
+        scores = arc_scores_in if is_pair else [arc_scores_in]
+        if any(s.dim() not in (3, 4) for s in scores):
             raise ValueError("potentials must have dim of 3 (unlabeled) or 4 (labeled)")
 
-        labeled = arc_scores_in.dim() == 4
+        labeled = scores[0].dim() == 4
         semiring = self.semiring
-        arc_scores_in = convert(arc_scores_in)
+        scores = [convert(s) for s in scores]
+        arc_scores_in = scores if is_pair else scores[0]
         arc_scores_in, batch, N, lengths = self._check_potentials(
             arc_scores_in, lengths
         )
@@ -127,10 +131,10 @@ class DepTree(_Struct):
         semiring = self.semiring
         batch, N, N2, *_ = self._get_dimension(arc_scores)
         assert N == N2, "Non-square potentials"
+        arc_scores = semiring.convert(arc_scores)
         if lengths is None:
             lengths = torch.LongTensor([N - 1] * batch).to(arc_scores.device)
         assert max(lengths) <= N, "Length longer than N"
-        arc_scores = semiring.convert(arc_scores)
 
         # Set the extra elements of the log-potentials to zero.
         keep = torch.ones_like(arc_scores).bool()
-- 
2.43.0


From 2ababeb3f6df8e955f44ecd0a104613a332dced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:03 +0000
Subject: [PATCH 04/20] fix: allow sampling while gradient tracking is disabled

Samples are read off a backward pass, so sample() raised inside
torch.no_grad(). Enable gradients locally, as topk and gumbel_crf already do.
---
 torch_struct/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index a309c28..688b973 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -224,9 +224,10 @@ class StructDistribution(Distribution):
         samples = []
         for k in range(nsamples):
             if k % 10 == 0:
-                sample = self._struct(MultiSampledSemiring).marginals(
-                    self.log_potentials, lengths=self.lengths
-                )
+                with torch.enable_grad():
+                    sample = self._struct(MultiSampledSemiring).marginals(
+                        self.log_potentials, lengths=self.lengths
+                    )
                 sample = sample.detach()
             tmp_sample = MultiSampledSemiring.to_discrete(sample, (k % 10) + 1)
             samples.append(tmp_sample)
-- 
2.43.0


From 42394236c61813067c3cba380a88c810277d4905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:54 +0000
Subject: [PATCH 05/20] fix: log_prob and event conversion for non-projective
 dependency models

These methods relied on a projective structure class that the non-projective
model does not have, so they raised AttributeError. Scoring an event and
converting head sequences do not depend on projectivity, so reuse the
dependency helpers directly.
---
 torch_struct/distributions.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index 688b973..60bd0f5 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -487,6 +487,23 @@ class NonProjectiveDependencyCRF(StructDistribution):
         super(NonProjectiveDependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.multiroot = multiroot
 
+    def log_prob(self, value):
+        batch_dims = range(value.dim() - len(self.event_shape))
+        v = DepTree().score(
+            self.log_potentials,
+            value.type_as(self.log_potentials),
+            batch_dims=batch_dims,
+        )
+        return v - self.partition
+
+    def to_event(self, sequence, extra=None, lengths=None):
+        "Convert simple representation to event."
+        return DepTree.to_parts(sequence, extra, lengths=lengths)
+
+    def from_event(self, event):
+        "Convert event to simple representation."
+        return DepTree.from_parts(event)
+
     @lazy_property
     def marginals(self):
         """
-- 
2.43.0


From ec92c7c5b6d32440ca850d4e5a71232b0a872596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:54 +0000
Subject: [PATCH 06/20] fix: respect lengths when converting segmentations to
 events

SemiMarkov.to_parts accepted lengths but ignored them, so entries in the
padding of a short sequence produced extra segments.
---
 torch_struct/semimarkov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 08cc603..003e6b7 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -140,7 +140,7 @@ class SemiMarkov(_Struct):
         for b in range(batch):
             last = None
             c = None
-            for n in range(0, N):
+            for n in range(0, lengths[b]):
                 if sequence[b, n] == -1:
                     assert n != 0
                     continue
-- 
2.43.0


From faae0de166ab8fef6c914933d8ab74f9c3f7c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:13 +0000
Subject: [PATCH 07/20] fix: checkpointed matmul when only one operand needs a
 gradient

The backward pass asked autograd for the gradient of both operands even if
one of them did not require grad, which raises. Recompute from detached
copies that always require grad; autograd drops the unneeded gradient.
---
 torch_struct/semirings/checkpoint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index f65eec1..55454a9 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -30,7 +30,7 @@ def CheckpointSemiring(cls, min_size=0):
 
         @staticmethod
         def backward(ctx, grad_output):
-            a, b = ctx.saved_tensors
+            a, b = (t.detach().requires_grad_(True) for t in ctx.saved_tensors)
             with torch.enable_grad():
                 q = cls.matmul(a, b)
                 return torch.autograd.grad(q, (a, b), grad_output)
@@ -159,8 +159,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
         with torch.enable_grad():
             a_in = a.clone().requires_grad_(True)
             b_in = b.clone().requires_grad_(True)
-            q = fn(a, b)
-        ag, bg = torch.autograd.grad(q, (a, b), grad_output)
+            q = fn(a_in, b_in)
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output)
         return ag, bg
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
-- 
2.43.0


From b743d3a7b7957931b9c63cf010e5e1f68773c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:13 +0000
Subject: [PATCH 08/20] fix: gradients of sharded checkpointing without
 broadcast dimensions

Summing over an empty list of dimensions reduces the whole tensor, so an
operand with no size-one dimension got a gradient of the wrong shape. Skip
the reduction in that case. Also accept non-contiguous incoming gradients.
---
 torch_struct/semirings/checkpoint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index 55454a9..e2a3ba4 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -171,7 +171,7 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.view(-1, a.shape[-2], b.shape[-1])
+    grad_output = grad_output.reshape(-1, a.shape[-2], b.shape[-1])
     for p in range(0, grad_output.shape[0], step):
         with torch.enable_grad():
             a_in = a2[p : p + step].clone().requires_grad_(True)
@@ -185,7 +185,8 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
     a_ones = ones(a)
     b_ones = ones(b)
-    f1, f2 = a_grad.sum(a_ones, keepdim=True), b_grad.sum(b_ones, keepdim=True)
+    f1 = a_grad.sum(a_ones, keepdim=True) if a_ones else a_grad
+    f2 = b_grad.sum(b_ones, keepdim=True) if b_ones else b_grad
     return f1, f2
 
 
-- 
2.43.0


From 287e7f02c2ae6ea7dc8bd2affb05f807963d51c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:03 +0000
Subject: [PATCH 09/20] fix: sharded checkpointing for semirings with several
 components

Sharding flattened the component dimension of k-best, entropy and similar
semirings together with the batch, so a shard mixed components of different
entries. Keep the component dimension apart and shard over the rest.
---
 torch_struct/semirings/checkpoint.py | 35 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/torch_struct/semirings/checkpoint.py b/torch_struct/semirings/checkpoint.py
index e2a3ba4..5973e1b 100644
--- a/torch_struct/semirings/checkpoint.py
+++ b/torch_struct/semirings/checkpoint.py
@@ -81,6 +81,7 @@ def CheckpointShardSemiring(cls, max_size, min_size=0):
                 size,
                 lambda a, b: cls.matmul(a, b),
                 preserve=len(size),
+                ssize=cls.size(),
                 step=max_size // (b.shape[-2] * a.shape[-1]) + 2,
             )
 
@@ -93,6 +94,7 @@ def CheckpointShardSemiring(cls, max_size, min_size=0):
                 grad_output,
                 len(grad_output.shape),
                 lambda a, b: cls.matmul(a, b),
+                ssize=cls.size(),
                 step=max_size // (b.shape[-2] * a.shape[-1]) + 2,
             )
             return grad_a, grad_b
@@ -124,7 +126,7 @@ def mind(one, inds):
     return inds
 
 
-def accumulate_(a, b, size, fn, preserve, step=10000):
+def accumulate_(a, b, size, fn, preserve, ssize=1, step=10000):
     slices = []
     total = 1
     for s in size[:preserve]:
@@ -138,16 +140,17 @@ def accumulate_(a, b, size, fn, preserve, step=10000):
     a = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
 
-    a2 = a.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b.contiguous().view(-1, b.shape[-2], b.shape[-1])
-    ret = ret.view(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, ret.shape[0], step):
-        ret[p : p + step, :] = fn(a2[p : p + step], b2[p : p + step])
+    # Shard over batch entries, keeping the semiring components together.
+    a2 = a.contiguous().view(ssize, -1, a.shape[-2], a.shape[-1])
+    b2 = b.contiguous().view(ssize, -1, b.shape[-2], b.shape[-1])
+    ret = ret.view(ssize, -1, a.shape[-2], b.shape[-1])
+    for p in range(0, ret.shape[1], step):
+        ret[:, p : p + step] = fn(a2[:, p : p + step], b2[:, p : p + step])
     ret = ret.view(*size)
     return ret
 
 
-def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
+def unaccumulate_(a, b, grad_output, preserve, fn, ssize=1, step=10000):
     slices = []
     total = 1
     size = grad_output.shape[:preserve]
@@ -165,21 +168,21 @@ def unaccumulate_(a, b, grad_output, preserve, fn, step=10000):
 
     a2 = a.expand(*size[:-2], a.shape[-2], a.shape[-1])
     b2 = b.expand(*size[:-2], b.shape[-2], b.shape[-1])
-    a2 = a2.contiguous().view(-1, a.shape[-2], a.shape[-1])
-    b2 = b2.contiguous().view(-1, b.shape[-2], b.shape[-1])
+    a2 = a2.contiguous().view(ssize, -1, a.shape[-2], a.shape[-1])
+    b2 = b2.contiguous().view(ssize, -1, b.shape[-2], b.shape[-1])
 
     a_grad = a2.clone().fill_(0)
     b_grad = b2.clone().fill_(0)
 
-    grad_output = grad_output.reshape(-1, a.shape[-2], b.shape[-1])
-    for p in range(0, grad_output.shape[0], step):
+    grad_output = grad_output.reshape(ssize, -1, a.shape[-2], b.shape[-1])
+    for p in range(0, grad_output.shape[1], step):
         with torch.enable_grad():
-            a_in = a2[p : p + step].clone().requires_grad_(True)
-            b_in = b2[p : p + step].clone().requires_grad_(True)
+            a_in = a2[:, p : p + step].clone().requires_grad_(True)
+            b_in = b2[:, p : p + step].clone().requires_grad_(True)
             q = fn(a_in, b_in)
-        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output[p : p + step])
-        a_grad[p : p + step] += ag
-        b_grad[p : p + step] += bg
+        ag, bg = torch.autograd.grad(q, (a_in, b_in), grad_output[:, p : p + step])
+        a_grad[:, p : p + step] += ag
+        b_grad[:, p : p + step] += bg
 
     a_grad = a_grad.view(*size[:-2], a.shape[-2], a.shape[-1])
     b_grad = b_grad.view(*size[:-2], b.shape[-2], b.shape[-1])
-- 
2.43.0


From cca4d0c7a938bb35789a2e88bbf1481648a7d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:46 +0000
Subject: [PATCH 10/20] fix: value of the sparsemax sum

The sum subtracted the norm of the projected weights instead of half the
squared norm, so its gradient was not the derivative of its value.
---
 torch_struct/semirings/sparse_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index ef688eb..f1baa2c 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -23,7 +23,7 @@ class _SimplexProject(torch.autograd.Function):
     def forward(ctx, input, dim, z=1):
         w_star = project_simplex(input, dim)
         ctx.save_for_backward(input, w_star.clone(), torch.tensor(dim))
-        x = input.mul(w_star).sum(dim) - w_star.norm(p=2, dim=dim)
+        x = input.mul(w_star).sum(dim) - 0.5 * w_star.pow(2).sum(dim)
         return x
 
     @staticmethod
-- 
2.43.0


From e37188059baedc4a79f4e2a4e0c003c3ad55cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:46 +0000
Subject: [PATCH 11/20] fix: sparsemax projection along dimensions other than
 the last

The rank of each sorted entry was always broadcast along the last dimension.
---
 torch_struct/semirings/sparse_max.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index f1baa2c..4c7acce 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -54,6 +54,9 @@ def project_simplex(v, dim, z=1):
     v_sorted, _ = torch.sort(v, dim=dim, descending=True)
     cssv = torch.cumsum(v_sorted, dim=dim) - z
     ind = torch.arange(1, 1 + v.shape[dim]).to(dtype=v.dtype).to(v.device)
+    shape = [1] * v.dim()
+    shape[dim] = -1
+    ind = ind.view(shape)
     cond = v_sorted - cssv / ind >= 0
     k = cond.sum(dim=dim, keepdim=True)
     tau = cssv.gather(dim, k - 1) / k.to(dtype=v.dtype)
-- 
2.43.0


From 234722755f738d555e78bc70a70c2e8e6bf29bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:46 +0000
Subject: [PATCH 12/20] fix: second derivatives of the sparsemax sum

The projected weights were detached from the scores, so differentiating
sparsemax marginals gave no gradient to the potentials.
---
 torch_struct/semirings/sparse_max.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/torch_struct/semirings/sparse_max.py b/torch_struct/semirings/sparse_max.py
index 4c7acce..66ffae4 100644
--- a/torch_struct/semirings/sparse_max.py
+++ b/torch_struct/semirings/sparse_max.py
@@ -29,25 +29,23 @@ class _SimplexProject(torch.autograd.Function):
     @staticmethod
     def backward(ctx, grad_output):
         input, w_star, dim = ctx.saved_tensors
-        w_star.requires_grad_(True)
-
         grad_input = None
         if ctx.needs_input_grad[0]:
-            wstar = _SparseMaxGrad.apply(w_star, dim)
+            wstar = _SparseMaxGrad.apply(input, w_star, dim)
             grad_input = grad_output.unsqueeze(dim).mul(wstar)
         return grad_input, None, None
 
 
 class _SparseMaxGrad(torch.autograd.Function):
     @staticmethod
-    def forward(ctx, w_star, dim):
+    def forward(ctx, input, w_star, dim):
         ctx.save_for_backward(w_star, dim)
-        return w_star
+        return w_star.clone()
 
     @staticmethod
     def backward(ctx, grad_output):
         w_star, dim = ctx.saved_tensors
-        return sparsemax_grad(grad_output, w_star, dim.item()), None
+        return sparsemax_grad(grad_output, w_star, dim.item()), None, None
 
 
 def project_simplex(v, dim, z=1):
-- 
2.43.0


From a357af4617ee1cc86bceafd258649e9439fbf749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:50 +0000
Subject: [PATCH 13/20] fix: keep the multiroot setting of dependency models
 per instance

The flag was stored on the shared DepTree class, so building a second
DependencyCRF changed the answers of every model built before it.
---
 torch_struct/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index 60bd0f5..8088cb3 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -394,7 +394,12 @@ class DependencyCRF(StructDistribution):
     def __init__(self, log_potentials, lengths=None, args={}, multiroot=True, validate_args=False):
         super(DependencyCRF, self).__init__(log_potentials, lengths, args, validate_args=validate_args)
         self.struct = DepTree
-        setattr(self.struct, "multiroot", multiroot)
+        self.multiroot = multiroot
+
+    def _struct(self, sr=None):
+        struct = super(DependencyCRF, self)._struct(sr)
+        struct.multiroot = self.multiroot
+        return struct
 
 
 class TreeCRF(StructDistribution):
-- 
2.43.0


From cb997a01e8785d8dff9ff6fd8be8498dae18a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:11 +0000
Subject: [PATCH 14/20] fix: allow autoregressive search while gradient
 tracking is disabled

Back pointers are read off with autograd, so decoding inside no_grad raised
an error. Structured distributions already enable gradients for this.
---
 torch_struct/autoregressive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index e3eb49f..cf300bf 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -117,6 +117,7 @@ class Autoregressive(Distribution):
         scores = log_probs[:, :-1].gather(2, value[:, 1:].unsqueeze(-1)).sum(-1).sum(-1)
         return wrap(scores, sample)
 
+    @torch.enable_grad()
     def _beam_search(self, semiring, gumbel=False):
         beam = semiring.fill(
             torch.zeros((semiring.size(),) + self.batch_shape, device=self.device),
-- 
2.43.0


From 34c06b25c82b4740c4c66f7372f361fb61a863f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:59 +0000
Subject: [PATCH 15/20] fix: grammar event conversion without lengths

CKY.to_parts declares lengths as optional but failed when it was left out.
---
 torch_struct/cky.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_struct/cky.py b/torch_struct/cky.py
index baf8e79..ad8d67e 100644
--- a/torch_struct/cky.py
+++ b/torch_struct/cky.py
@@ -158,6 +158,8 @@ class CKY(_Struct):
 
         batch, N, N, S = spans.shape
         assert S == NT + T
+        if lengths is None:
+            lengths = [N] * batch
         terms = torch.zeros(batch, N, T)
         rules = torch.zeros(batch, NT, S, S)
         roots = torch.zeros(batch, NT)
-- 
2.43.0


From 2c959a5d3e4f48546b80be6f6285a8e0329ab1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:03 +0000
Subject: [PATCH 16/20] fix: ignore segmental potentials of segments that end
 after the item

---
 torch_struct/semimarkov.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index 003e6b7..a1dd4c9 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -56,6 +56,11 @@ class SemiMarkov(_Struct):
         mask = mask >= (lengths - 1).view(batch, 1)
         mask = mask.view(batch * bin_N, 1, 1, 1).to(lp.device)
         lp.data[:] = semiring.fill(lp.data, mask, semiring.zero)
+        # Segments that would end after the item
+        ends = torch.arange(bin_N).view(bin_N, 1) + torch.arange(K).view(1, K)
+        past = ends.to(lp.device) > (lengths.to(lp.device) - 1).view(batch, 1, 1)
+        past = past.view(batch * bin_N, K, 1, 1)
+        lp.data[:] = semiring.fill(lp.data, past, semiring.zero)
         c.data[:, :, :, 0] = semiring.fill(c.data[:, :, :, 0], (~mask), semiring.zero)
         c[:, :, : K - 1, 0] = semiring.sum(
             torch.stack([c.data[:, :, : K - 1, 0], lp[:, :, 1:K]], dim=-1)
-- 
2.43.0


From 30e4e85ef2f9bb329f95d34d8b5a92782220bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:42 +0000
Subject: [PATCH 17/20] fix: length mask of long chains in low precision

---
 torch_struct/linearchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_struct/linearchain.py b/torch_struct/linearchain.py
index 1a8dc2e..9afd642 100644
--- a/torch_struct/linearchain.py
+++ b/torch_struct/linearchain.py
@@ -70,7 +70,7 @@ class LinearChain(_Struct):
         big[:, :, : N - 1] = log_potentials
         c = chart[:, :, :].view(ssize, batch * bin_N, C, C)
         lp = big[:, :, :].view(ssize, batch * bin_N, C, C)
-        mask = torch.arange(bin_N).view(1, bin_N).expand(batch, bin_N).type_as(c)
+        mask = torch.arange(bin_N).view(1, bin_N).expand(batch, bin_N).to(c.device)
         mask = mask >= (lengths - 1).view(batch, 1)
         mask = mask.view(batch * bin_N, 1, 1).to(lp.device)
         lp.data[:] = semiring.fill(lp.data, mask, semiring.zero)
-- 
2.43.0


From 18f76a532c16d1500096cc9a68635a03afa55f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:42 +0000
Subject: [PATCH 18/20] fix: validate and print models whose optional arguments
 are missing

---
 torch_struct/distributions.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/torch_struct/distributions.py b/torch_struct/distributions.py
index 8088cb3..32c79f3 100644
--- a/torch_struct/distributions.py
+++ b/torch_struct/distributions.py
@@ -48,8 +48,17 @@ class StructDistribution(Distribution):
         self.log_potentials = log_potentials
         self.lengths = lengths
         self.args = args
+        self._constrain_tensors()
         super().__init__(batch_shape=batch_shape, event_shape=event_shape, validate_args=validate_args)
 
+    def _constrain_tensors(self):
+        "Only tensor arguments can be validated and printed, optional ones may be missing."
+        self.arg_constraints = {
+            name: constraint
+            for name, constraint in self.arg_constraints.items()
+            if torch.is_tensor(getattr(self, name))
+        }
+
     def _new(self, *args, **kwargs):
         return self._param.new(*args, **kwargs)
 
@@ -451,12 +460,20 @@ class SentCFG(StructDistribution):
     """
 
     struct = CKY
+    arg_constraints = {
+        "terms": constraints.real,
+        "rules": constraints.real,
+        "roots": constraints.real,
+        "lengths": constraints.nonnegative_integer
+    }
 
     def __init__(self, log_potentials, lengths=None, validate_args=False):
         batch_shape = log_potentials[0].shape[:1]
         event_shape = log_potentials[0].shape[1:]
         self.log_potentials = log_potentials
+        self.terms, self.rules, self.roots = log_potentials[:3]
         self.lengths = lengths
+        self._constrain_tensors()
         super(StructDistribution, self).__init__(
             batch_shape=batch_shape, event_shape=event_shape, validate_args=validate_args
         )
-- 
2.43.0


From a5199481815e4c42ef5ff23c96fdb9c7dfc27fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:42 +0000
Subject: [PATCH 19/20] fix: print autoregressive models

---
 torch_struct/autoregressive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_struct/autoregressive.py b/torch_struct/autoregressive.py
index cf300bf..2d27c6a 100644
--- a/torch_struct/autoregressive.py
+++ b/torch_struct/autoregressive.py
@@ -46,6 +46,8 @@ class Autoregressive(Distribution):
         n_length (int): max length of sequence
     """
 
+    arg_constraints = {}
+
     def __init__(
         self,
         model,
-- 
2.43.0


From 3ee5cc1b14951491355e1e48d1eecd795fecd623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:47:05 +0000
Subject: [PATCH 20/20] fix: masked potentials of padded items no longer
 receive gradients

The chain and segmental programs masked padding through .data, which autograd
does not see. With the counting semiring the derivative of the total by the
padding potentials was not zero.
---
 torch_struct/linearchain.py | 2 +-
 torch_struct/semimarkov.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/torch_struct/linearchain.py b/torch_struct/linearchain.py
index 9afd642..bda6432 100644
--- a/torch_struct/linearchain.py
+++ b/torch_struct/linearchain.py
@@ -73,7 +73,7 @@ class LinearChain(_Struct):
         mask = torch.arange(bin_N).view(1, bin_N).expand(batch, bin_N).to(c.device)
         mask = mask >= (lengths - 1).view(batch, 1)
         mask = mask.view(batch * bin_N, 1, 1).to(lp.device)
-        lp.data[:] = semiring.fill(lp.data, mask, semiring.zero)
+        lp = semiring.fill(lp, mask, semiring.zero)
         c.data[:] = semiring.fill(c.data, ~mask, semiring.zero)
 
         c[:] = semiring.sum(torch.stack([c.data, lp], dim=-1))
diff --git a/torch_struct/semimarkov.py b/torch_struct/semimarkov.py
index a1dd4c9..bc2b117 100644
--- a/torch_struct/semimarkov.py
+++ b/torch_struct/semimarkov.py
@@ -55,12 +55,12 @@ class SemiMarkov(_Struct):
         mask = mask.to(log_potentials.device)
         mask = mask >= (lengths - 1).view(batch, 1)
         mask = mask.view(batch * bin_N, 1, 1, 1).to(lp.device)
-        lp.data[:] = semiring.fill(lp.data, mask, semiring.zero)
+        lp = semiring.fill(lp, mask, semiring.zero)
         # Segments that would end after the item
         ends = torch.arange(bin_N).view(bin_N, 1) + torch.arange(K).view(1, K)
         past = ends.to(lp.device) > (lengths.to(lp.device) - 1).view(batch, 1, 1)
         past = past.view(batch * bin_N, K, 1, 1)
-        lp.data[:] = semiring.fill(lp.data, past, semiring.zero)
+        lp = semiring.fill(lp, past, semiring.zero)
         c.data[:, :, :, 0] = semiring.fill(c.data[:, :, :, 0], (~mask), semiring.zero)
         c[:, :, : K - 1, 0] = semiring.sum(
             torch.stack([c.data[:, :, : K - 1, 0], lp[:, :, 1:K]], dim=-1)
-- 
2.43.0

