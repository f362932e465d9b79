From 1c05dc93d4f3f1ab2bcfa9ffdcf014e2f4f936fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 01/57] fix: store self-attribution scores at the rows of their
 batch

BaseInnerProductAttributor.self_attribute added every batch's scores to the
whole output tensor, which fails (or broadcasts, for batches of one sample)
whenever the loader has more than one batch.
---
 dattri/algorithm/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index 66ccd2f..8bf7384 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -500,7 +500,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         for checkpoint_idx in range(len(self.task.get_checkpoints())):
             # Multiply by current index to prepare for running average
             tda_output *= checkpoint_idx
-            for _, train_batch_data_ in enumerate(
+            for train_batch_idx, train_batch_data_ in enumerate(
                 tqdm(
                     train_dataloader,
                     desc="calculating gradient of training set...",
@@ -578,10 +578,15 @@ class BaseInnerProductAttributor(BaseAttributor):
                     else torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
                 )
 
-                tda_output += (
-                    # Accumulate influence values across checkpoints
-                    influence_values
+                # results position based on batch info
+                row_st = train_batch_idx * train_dataloader.batch_size
+                row_ed = min(
+                    (train_batch_idx + 1) * train_dataloader.batch_size,
+                    len(train_dataloader.sampler),
                 )
+
+                # Accumulate influence values across checkpoints
+                tda_output[row_st:row_ed] += influence_values
             tda_output /= (
                 checkpoint_idx + 1
             )  # Calculate running average by dividing by number of checkpoints
-- 
2.43.0


From dc8787c70c185ad6d50ff770a7ec2b30ebf301d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 02/57] fix: divide self-attribution scores by their own
 denominators

With relatif_method set, the (batch,) scores were divided by a (batch, 1)
denominator, which broadcasts to (batch, batch) and cannot be stored.
---
 dattri/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index 8bf7384..da09319 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -573,7 +573,7 @@ class BaseInnerProductAttributor(BaseAttributor):
                     )
                 influence_values = (
                     torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
-                    / denom.unsqueeze(-1)
+                    / denom
                     if denom is not None
                     else torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
                 )
-- 
2.43.0


From 1c8fbca00d8395228253baf1032ef96417fb50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 03/57] fix: make TRAK self_attribute work after cache

The cached path checked the shuffling of a None loader and read the
projected training gradients, which cache() did not keep.
---
 dattri/algorithm/trak.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index d2a66d0..a114837 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -118,6 +118,7 @@ class TRAKAttributor(BaseAttributor):
         _check_shuffle(full_train_dataloader)
         self.full_train_dataloader = full_train_dataloader
         inv_XTX_XT_list = []
+        full_train_projected_grad_list = []
         running_Q = 0
         running_count = 0
         for ckpt_idx in range(len(self.task.get_checkpoints())):
@@ -195,10 +196,12 @@ class TRAKAttributor(BaseAttributor):
             kernel_matrix.diagonal().add_(self.regularization)
             inv_XTX_XT = torch.linalg.solve(kernel_matrix, full_train_projected_grad.T)
             inv_XTX_XT_list.append(inv_XTX_XT)
+            full_train_projected_grad_list.append(full_train_projected_grad)
             running_Q = running_Q * running_count + Q
             running_count += 1  # noqa: SIM113
             running_Q /= running_count
         self.inv_XTX_XT_list = inv_XTX_XT_list
+        self.full_train_projected_grad_list = full_train_projected_grad_list
         self.Q = running_Q
 
     def attribute(  # noqa: PLR0912, PLR0914, PLR0915
@@ -415,8 +418,6 @@ class TRAKAttributor(BaseAttributor):
                 dataloader is cached or no train_loader is provided in both cases.
             TypeError: If train/test data is not tuple, list, or dict.
         """
-        test_dataloader = train_dataloader
-        _check_shuffle(test_dataloader)
         if train_dataloader is not None:
             _check_shuffle(train_dataloader)
 
@@ -532,7 +533,7 @@ class TRAKAttributor(BaseAttributor):
                     running_xinv_XTX_XT * running_count
                     + torch.einsum(
                         "ij,ij->i",
-                        train_projected_grad,
+                        self.full_train_projected_grad_list[ckpt_idx],
                         self.inv_XTX_XT_list[ckpt_idx].T,
                     )
                 )
-- 
2.43.0


From e2db75838b52e79971c93733b65cd6707c34f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 04/57] fix: return TRAK self-attribution scores with the
 documented shape

self_attribute returned (num_train_samples, 1) instead of (num_train_samples,).
---
 dattri/algorithm/trak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index a114837..6e5e889 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -545,5 +545,5 @@ class TRAKAttributor(BaseAttributor):
                 running_Q /= running_count
             running_xinv_XTX_XT /= running_count
         if train_dataloader is not None:
-            return (running_xinv_XTX_XT * running_Q.to(self.device).unsqueeze(0)).T
-        return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T
+            return running_xinv_XTX_XT * running_Q.to(self.device)
+        return running_xinv_XTX_XT * self.Q.to(self.device)
-- 
2.43.0


From 7205eb41e36eda4b75d3f8ee6318fa30f017f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 05/57] fix: estimate the EK-FAC Fisher statistics from the
 loss function

---
 dattri/algorithm/influence_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 0033745..faab5fe 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -993,7 +993,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             mod = self.task.model.get_submodule(name)
             handles.append(mod.register_forward_hook(_ekfac_hook))
 
-        func = partial(self.task.get_target_func(), self.task.get_param()[0])
+        func = partial(self.task.get_loss_func(), self.task.get_param()[0])
         # 1. Use random batch to estimate covariance matrices S and A
         cov_matrices = estimate_covariance(
             func,
-- 
2.43.0


From fe69dfc53f9de7e769ed99376ec8507f747a7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 06/57] fix: represent DVEmb test samples by the target
 function

---
 dattri/algorithm/dvemb.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index b88f1b9..975c825 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -412,11 +412,14 @@ class DVEmbAttributor:
     def _calculate_full_gradients(
         self,
         batch_data: tuple[Tensor, ...],
+        is_test: bool = False,
     ) -> Tensor:
         """Calculate full per-sample gradients.
 
         Args:
             batch_data: A tuple of data tensors for a batch.
+            is_test: Whether the batch holds test samples, which are represented
+                by the target function instead of the loss function.
 
         Returns:
             A tensor of per-sample gradients, possibly projected.
@@ -424,12 +427,15 @@ class DVEmbAttributor:
         batch_data_tensors = tuple(d.to(self.device) for d in batch_data)
 
         in_dims = (None, tuple(0 for _ in batch_data_tensors))
-        grad_loss_fn = self.task.get_grad_loss_func(in_dims=in_dims)
+        if is_test:
+            grad_fn = self.task.get_grad_target_func(in_dims=in_dims)
+        else:
+            grad_fn = self.task.get_grad_loss_func(in_dims=in_dims)
 
         model_params = flatten_params(
             {k: v.detach() for k, v in self.model.named_parameters()},
         )
-        per_sample_grads = grad_loss_fn(model_params, batch_data_tensors)
+        per_sample_grads = grad_fn(model_params, batch_data_tensors)
 
         if self.projection_dim_per_layer is not None:
             # Create projector if needed
@@ -480,11 +486,14 @@ class DVEmbAttributor:
     def _calculate_gradient_factors(
         self,
         batch_data: tuple[Tensor, ...],
+        is_test: bool = False,
     ) -> List[Dict[str, Tensor]]:
         """Calculate per-layer gradient factors.
 
         Args:
             batch_data: A tuple of data tensors for a batch.
+            is_test: Whether the batch holds test samples, which are represented
+                by the target function instead of the loss function.
 
         Returns:
             A list of cached factor dictionaries for each linear layer.
@@ -494,7 +503,10 @@ class DVEmbAttributor:
 
         # Strict requirements on batch_data
         batch_data_tensors = [d.to(self.device) for d in batch_data]
-        loss = self.task.original_loss_func(self.model, batch_data_tensors, self.device)
+        func = (
+            self.task.original_target_func if is_test else self.task.original_loss_func
+        )
+        loss = func(self.model, batch_data_tensors, self.device)
         loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
         loss.backward()
 
@@ -835,7 +847,7 @@ class DVEmbAttributor:
         test_grads = []
         for batch_data in tqdm(test_dataloader, desc="Calculating test gradients"):
             if self.use_factorization:
-                factors = self._calculate_gradient_factors(batch_data)
+                factors = self._calculate_gradient_factors(batch_data, is_test=True)
                 if self.projection_dim_per_layer is None:
                     grads = self._reconstruct_gradients(factors)
                 elif self.factorization_type == "kronecker":
@@ -844,7 +856,7 @@ class DVEmbAttributor:
                 else:
                     grads = self._project_gradients_factors_elementwise(factors)
             else:
-                grads = self._calculate_full_gradients(batch_data)
+                grads = self._calculate_full_gradients(batch_data, is_test=True)
             test_grads.append(grads)
         test_grads_tensor = torch.cat(test_grads, dim=0).to(self.device)
 
-- 
2.43.0


From 12c13d3c8307000187b149699d75f95b810f744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 07/57] fix: represent test samples of block-projected
 attribution by the target function

---
 .../block_projected_if/block_projected_if.py  | 29 ++++---------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4a7ced7..430ed22 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -812,7 +812,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         )
         return if_score
 
-    def _compute_test_gradients(  # noqa: PLR0912 - Complex gradient computation requires multiple branches for different input types and error handling
+    def _compute_test_gradients(
         self,
         test_dataloader: DataLoader,
     ) -> Tuple[torch.Tensor, Dict]:
@@ -827,9 +827,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
                   Shape:(num_test_samples, total_proj_dim)
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
-
-        Raises:
-            ValueError: If model can't return loss for dict-style inputs.
         """
         # Create hook manager if needed
         if self.hook_manager is None:
@@ -850,26 +847,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
         ):
             self.model.zero_grad()
 
-            # Prepare inputs and compute loss
-            if isinstance(batch, dict):
-                inputs = {k: v.to(self.device) for k, v in batch.items()}
-                batch_size = next(iter(batch.values())).shape[0]
-                outputs = self.model(**inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    msg = "Model must return loss for dict-style inputs"
-                    raise ValueError(msg)
-            else:
-                inputs, targets = batch
-                inputs = inputs.to(self.device)
-                targets = targets.to(self.device)
-                batch_size = inputs.shape[0]
-                outputs = self.model(inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    loss = nn.functional.cross_entropy(outputs, targets)
+            # Prepare inputs and compute the target function
+            first = next(iter(batch.values())) if isinstance(batch, dict) else batch[0]
+            batch_size = first.shape[0]
+            loss = self.task.original_target_func(self.model, batch, self.device)
 
             loss.backward()
 
-- 
2.43.0


From 5f44b805da2f2c36b9b5c578d064934867541d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 08/57] fix: keep the task's parameters unchanged when
 evaluating a layer-restricted function

---
 dattri/func/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ba58561..ee9065c 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -309,14 +309,16 @@ def partial_param(
         @functools.wraps(function)
         def _function_partial(*args, **kwargs: Dict[str, Any]) -> torch.Tensor:
             new_args = list(args)
+            # work on a copy, the caller's parameters should not be changed
+            merged_param = dict(full_param)
             index_counter = 0
             for layer in layer_name:
                 length_param = full_param[layer].numel()
-                full_param[layer] = new_args[param_num][
+                merged_param[layer] = new_args[param_num][
                     index_counter : index_counter + length_param
                 ]
                 index_counter += length_param
-            new_args[param_num] = flatten_params(full_param)
+            new_args[param_num] = flatten_params(merged_param)
             return function(*new_args, **kwargs)
 
         return _function_partial
-- 
2.43.0


From 1f30e4fbb82dcd14874a2ee9776e40b5dde369bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 09/57] fix: accept a single layer name where the documentation
 allows one

---
 dattri/func/utils.py | 10 ++++++----
 dattri/task.py       |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ee9065c..22af02e 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -9,7 +9,7 @@ import numpy as np
 
 if TYPE_CHECKING:
     from collections.abc import Callable
-    from typing import Any, Dict, Optional, Tuple
+    from typing import Any, Dict, Optional, Tuple, Union
 
 import functools
 
@@ -276,7 +276,7 @@ def flatten_func(model: torch.nn.Module, param_num: int = 0) -> Callable:
 
 def partial_param(
     full_param: Dict[str, Tensor],
-    layer_name: List[str],
+    layer_name: Union[str, List[str]],
     param_num: int = 0,
 ) -> Callable:
     """A decorator that edit a function from taking full parameter to partial parameter.
@@ -286,14 +286,16 @@ def partial_param(
 
     Args:
         full_param: A dictionary of full parameters.
-        layer_name: A list of layer names to that will be left as
-            parameter input of the function.
+        layer_name: A layer name or a list of layer names to that will be left
+            as parameter input of the function.
         param_num: The index of the parameter in function's input.
 
     Returns:
         (Callable): A decorator that edit a function from taking full parameter to
             partial parameter.
     """
+    if isinstance(layer_name, str):
+        layer_name = [layer_name]
 
     def partial_param_wrapper(function: Callable) -> Callable:
         """A wrapper function that edit the parameter from full to partial.
diff --git a/dattri/task.py b/dattri/task.py
index fc57f3c..cb1f702 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -425,6 +425,8 @@ class AttributionTask:
         """
         self._load_checkpoints(ckpt_idx)
 
+        if isinstance(layer_name, str):
+            layer_name = [layer_name]
         if layer_name is not None:
             named_parameters = {
                 k: self.named_parameters[k]
-- 
2.43.0


From 2822398f4e4788b85f1e272d498fe7b63a151cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 10/57] fix: split DataInf representations by the layers the
 attributor is restricted to

---
 dattri/algorithm/influence_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index faab5fe..ee4f867 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -839,6 +839,7 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
         """
         model_params, param_layer_map = self.task.get_param(
             ckpt_idx,
+            layer_name=self.layer_name,
             layer_split=True,
         )
         split_index = [0] * (param_layer_map[-1] + 1)
-- 
2.43.0


From 3e671af392670ceb1e5889c5bc36972e38dc0265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 11/57] fix: pass LiSSA batch size and repetitions to the
 parameters they name

---
 dattri/func/hessian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index f2fc444..c111117 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -989,8 +989,8 @@ def ihvp_at_x_lissa(
         ihvp_lissa_func = ihvp_lissa(
             func,
             argnums,
-            num_repeat,
             batch_size,
+            num_repeat,
             recursion_depth,
             damping,
             scaling,
-- 
2.43.0


From 0bbca07eb6c3af84ca5c8e0b02a6a1957c01ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 12/57] fix: apply the requested relative-influence
 normalisation in every inner-product attributor

---
 dattri/algorithm/base.py               | 25 ++++++++++++-----
 dattri/algorithm/influence_function.py | 39 ++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index da09319..9146d5a 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -257,10 +257,10 @@ class BaseInnerProductAttributor(BaseAttributor):
 
     def _compute_denom(
         self,
-        ckpt_idx: int,  # noqa: ARG002
+        ckpt_idx: int,
         train_batch_rep: torch.Tensor,
         test_batch_rep: Optional[torch.Tensor] = None,
-        relatif_method: Optional[str] = None,  # noqa: ARG002
+        relatif_method: Optional[str] = None,
     ) -> torch.Tensor:
         """Compute the denominator for the influence calculation.
 
@@ -280,12 +280,23 @@ class BaseInnerProductAttributor(BaseAttributor):
         Returns:
             torch.Tensor: The computed denominator for normalization. It is a
             1-d dimensional tensor with the shape of (batch_size).
-        """
-        _ = self
-        _ = test_batch_rep
 
-        batch_size = train_batch_rep.size(0)
-        return train_batch_rep.new_ones(batch_size)
+        Raises:
+            ValueError: If an unknown `method` is provided.
+        """
+        transformed = self.transform_test_rep(ckpt_idx, train_batch_rep)
+
+        if relatif_method == "l":
+            # g_i^T (H^-1 g_i)
+            test_batch_rep = self.transform_train_rep(ckpt_idx, test_batch_rep)
+            val = (test_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()
+        elif relatif_method == "theta":
+            # ||H^-1 g_i||
+            val = transformed.norm(dim=1).clamp_min(1e-12)
+        else:
+            error_msg = f"Unknown method: {relatif_method}"
+            raise ValueError(error_msg)
+        return val
 
     def attribute(  # noqa: PLR0912
         self,
diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index ee4f867..a402405 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -485,6 +485,45 @@ class IFAttributorArnoldi(BaseInnerProductAttributor):
 
         return self.arnoldi_projectors[ckpt_idx](train_rep).detach()
 
+    def _compute_denom(
+        self,
+        ckpt_idx: int,
+        train_batch_rep: torch.Tensor,
+        test_batch_rep: Optional[torch.Tensor] = None,
+        relatif_method: Optional[str] = None,
+    ) -> torch.Tensor:
+        """Compute the denominator for the influence calculation.
+
+        Args:
+            ckpt_idx (int): The index of the checkpoint being used for influence
+                calculation.
+            train_batch_rep (torch.Tensor): The representation of the training batch
+                at the given checkpoint.
+            test_batch_rep (Optional[torch.Tensor]): The representation of the
+                training batch, generated using `generate_test_rep` at the given
+                checkpoint.
+            relatif_method (Optional[str]): Normalization method.
+                - `"l"`: Computes `sqrt(g_i^T (H^-1 g_i))`.
+                - `None`: Raises an error.
+
+        Returns:
+            torch.Tensor: The computed denominator for normalization. It is a
+            1-d dimensional tensor with the shape of (batch_size).
+
+        Raises:
+            NotImplementedError: If `method` is `"theta"`. The representations are
+                projected, `H^-1 g_i` is not available.
+        """
+        if relatif_method == "theta":
+            error_msg = "`relatif_method='theta'` is not supported by Arnoldi."
+            raise NotImplementedError(error_msg)
+        return super()._compute_denom(
+            ckpt_idx,
+            train_batch_rep,
+            test_batch_rep,
+            relatif_method,
+        )
+
 
 class IFAttributorLiSSA(BaseInnerProductAttributor):
     """The inner product attributor with LiSSA inverse hessian transformation."""
-- 
2.43.0


From ca6745d59bbfb5ca8bf9204458ac3efe755288f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 13/57] fix: cache tuple batches for Arnoldi and leave the
 caller's batches unchanged

---
 dattri/algorithm/influence_function.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index a402405..4d98e12 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -390,23 +390,12 @@ class IFAttributorArnoldi(BaseInnerProductAttributor):
                 break
             data_target_pair_list.append(batch)
 
-        # concatenate all data
-        data_target_pair = data_target_pair_list[0]
-        for batch_idx in range(1, len(data_target_pair_list)):
-            for data_item_idx in range(len(data_target_pair_list[0])):
-                data_target_pair[data_item_idx] = torch.cat(
-                    (
-                        data_target_pair[data_item_idx],
-                        data_target_pair_list[batch_idx][data_item_idx],
-                    ),
-                    dim=0,
-                )
-
-        # to device (only once for all data)
-        for data_item_idx in range(len(data_target_pair)):
-            data_target_pair[data_item_idx] = data_target_pair[data_item_idx].to(
-                self.device,
-            )
+        # concatenate all data and move to device (only once for all data),
+        # the batches of the data loader should not be changed
+        data_target_pair = tuple(
+            torch.cat(data_items, dim=0).to(self.device)
+            for data_items in zip(*data_target_pair_list)
+        )
 
         from dattri.func.projection import arnoldi_project
 
-- 
2.43.0


From b9c49b92547f7fa77871bbcf93ebf94a50ac0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 14/57] fix: keep weight and bias entries apart in the EK-FAC
 transformation

---
 dattri/algorithm/influence_function.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 4d98e12..44ef3f5 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1097,16 +1097,14 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
 
         for name in self.module_name:
             if self.name_to_module[name].bias is not None:
-                dim_out = layer_test_rep[name + ".weight"].shape[1]
-                dim_in = layer_test_rep[name + ".weight"].shape[2] + 1
+                # The bias is the last input dimension, as in the cached inputs
                 _v = torch.cat(
                     [
-                        layer_test_rep[name + ".weight"].flatten(start_dim=1),
-                        layer_test_rep[name + ".bias"].flatten(start_dim=1),
+                        layer_test_rep[name + ".weight"],
+                        layer_test_rep[name + ".bias"].unsqueeze(-1),
                     ],
                     dim=-1,
                 )
-                _v = _v.reshape(-1, dim_out, dim_in)
             else:
                 _v = layer_test_rep[name + ".weight"]
 
@@ -1114,7 +1112,14 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             q_a, q_s = self.cached_q[name]
 
             _ifvp = q_s.T @ ((q_s @ _v @ q_a.T) / (_lambda + self.damping)) @ q_a
-            ifvp[name] = _ifvp.flatten(start_dim=1)
+            if self.name_to_module[name].bias is not None:
+                # Back to the order of the parameters, weight and then bias
+                ifvp[name] = torch.cat(
+                    [_ifvp[:, :, :-1].flatten(start_dim=1), _ifvp[:, :, -1]],
+                    dim=1,
+                )
+            else:
+                ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
         transformed_test_rep_layers = [ifvp[name] for name in self.module_name]
-- 
2.43.0


From 9d7dd96c8ce3175b00897e022f9201278e560d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 15/57] fix: remove the EK-FAC hooks when caching fails

---
 dattri/algorithm/influence_function.py | 62 +++++++++++++-------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 44ef3f5..90c71c4 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1015,39 +1015,41 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             # Cache the inputs and outputs
             self.layer_cache[name] = (inputs, outputs)
 
-        handles = []
-        for name in self.module_name:
-            # Once the model is forward once, the input and output of the layer
-            # in `module_name` will be stored in `self.layer_cache[name]`
-            mod = self.task.model.get_submodule(name)
-            handles.append(mod.register_forward_hook(_ekfac_hook))
-
         func = partial(self.task.get_loss_func(), self.task.get_param()[0])
-        # 1. Use random batch to estimate covariance matrices S and A
-        cov_matrices = estimate_covariance(
-            func,
-            full_train_dataloader,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
 
-        # 2. Calculate the eigenvalue decomposition of S and A
-        self.cached_q = estimate_eigenvector(cov_matrices)
-
-        # 3. Use random batch for eigenvalue correction
-        self.cached_lambdas = estimate_lambda(
-            func,
-            full_train_dataloader,
-            self.cached_q,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
+        handles = []
+        try:
+            for name in self.module_name:
+                # Once the model is forward once, the input and output of the layer
+                # in `module_name` will be stored in `self.layer_cache[name]`
+                mod = self.task.model.get_submodule(name)
+                handles.append(mod.register_forward_hook(_ekfac_hook))
+
+            # 1. Use random batch to estimate covariance matrices S and A
+            cov_matrices = estimate_covariance(
+                func,
+                full_train_dataloader,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
 
-        # Remove hooks after preprocessing the FIM
-        for handle in handles:
-            handle.remove()
+            # 2. Calculate the eigenvalue decomposition of S and A
+            self.cached_q = estimate_eigenvector(cov_matrices)
+
+            # 3. Use random batch for eigenvalue correction
+            self.cached_lambdas = estimate_lambda(
+                func,
+                full_train_dataloader,
+                self.cached_q,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
+        finally:
+            # Remove hooks after preprocessing the FIM
+            for handle in handles:
+                handle.remove()
 
     def transform_test_rep(
         self,
-- 
2.43.0


From 7903959433f1b53d33b27c4123f0e7138ab5dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 16/57] fix: remove the final-layer hook when the forward pass
 fails

---
 dattri/model_util/hook.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dattri/model_util/hook.py b/dattri/model_util/hook.py
index 19c0f92..4c797cf 100644
--- a/dattri/model_util/hook.py
+++ b/dattri/model_util/hook.py
@@ -57,11 +57,13 @@ def get_final_layer_io(
     hook_handle = model_layer.register_forward_hook(_forward_hook)
 
     # perform a forward pass through the dataloader
-    with torch.no_grad():
-        for x, _ in dataloader:
-            _ = model(x.to(device))
+    try:
+        with torch.no_grad():
+            for x, _ in dataloader:
+                _ = model(x.to(device))
+    finally:
+        hook_handle.remove()
 
-    hook_handle.remove()
     return torch.cat(feature_list, dim=0).to(device), torch.cat(output_list, dim=0).to(
         device,
     )
-- 
2.43.0


From 6e43d09686daab82801882587548c9b1f51f0d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 17/57] fix: remove the DVEmb factor hooks when the loss fails

---
 dattri/algorithm/dvemb.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 975c825..7e89541 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -501,17 +501,20 @@ class DVEmbAttributor:
         self.model.zero_grad()
         handles, caches = self._register_factorization_hooks()
 
-        # Strict requirements on batch_data
-        batch_data_tensors = [d.to(self.device) for d in batch_data]
-        func = (
-            self.task.original_target_func if is_test else self.task.original_loss_func
-        )
-        loss = func(self.model, batch_data_tensors, self.device)
-        loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
-        loss.backward()
-
-        for h in handles:
-            h.remove()
+        try:
+            # Strict requirements on batch_data
+            batch_data_tensors = [d.to(self.device) for d in batch_data]
+            func = (
+                self.task.original_target_func
+                if is_test
+                else self.task.original_loss_func
+            )
+            loss = func(self.model, batch_data_tensors, self.device)
+            loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
+            loss.backward()
+        finally:
+            for h in handles:
+                h.remove()
 
         return caches
 
-- 
2.43.0


From 0511190f461732154839d2c0f702938594b59070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 18/57] fix: keep gradients and learning rates passed to DVEmb
 by the caller

---
 dattri/algorithm/dvemb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 7e89541..0e3366f 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -694,11 +694,12 @@ class DVEmbAttributor:
 
     def clear_cache(self) -> None:
         """Clears cached gradients and factors to free memory."""
+        # Drop the references only, the dictionaries may belong to the caller
         if self.use_factorization:
-            self.cached_factors.clear()
-        self.cached_gradients.clear()
-        self.learning_rates.clear()
-        self.data_indices.clear()
+            self.cached_factors = {}
+        self.cached_gradients = {}
+        self.learning_rates = {}
+        self.data_indices = {}
 
     def cache(  # noqa: PLR0912, PLR0914, PLR0915
         self,
-- 
2.43.0


From a540ff7c41f860cc885765d03ac70361d3affff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 19/57] fix: discard earlier DVEmb embeddings when caching
 again

---
 dattri/algorithm/dvemb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 0e3366f..885b4f7 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -769,6 +769,9 @@ class DVEmbAttributor:
             dtype=grad_dtype,
         )
 
+        # Embeddings of an earlier cache are replaced
+        self.embeddings = {}
+
         # Calculate data embeddings for each epoch in reverse order
         sorted_epochs = sorted(self.learning_rates.keys(), reverse=True)
         # Going through epochs in reverse order
-- 
2.43.0


From 429598ed5f1b4fc55045ec72512104084d600a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 20/57] fix: use the projection seed and batch size given to
 FactGraSS

---
 dattri/algorithm/factgrass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/factgrass.py b/dattri/algorithm/factgrass.py
index b2c1e2b..5f84394 100644
--- a/dattri/algorithm/factgrass.py
+++ b/dattri/algorithm/factgrass.py
@@ -100,13 +100,15 @@ class FactGraSSAttributor(BlockProjectedIFAttributor):
         # Set FactGraSS-specific configuration
         sparsifier_params = GeneralProjectionParams(
             proj_dim=per_component_dim,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="random_mask",
         )
 
         projector_params = GeneralProjectionParams(
             proj_dim=self.proj_params.proj_dim_per_layer,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="sjlt" if device == "cuda" else "normal",
         )
 
-- 
2.43.0


From c79f3108bc231f02cdc0b53b88669417d1ee3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 21/57] fix: report a SubsetRandomSampler as shuffling

---
 dattri/algorithm/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/utils.py b/dattri/algorithm/utils.py
index b3bf1ac..ebb6981 100644
--- a/dattri/algorithm/utils.py
+++ b/dattri/algorithm/utils.py
@@ -11,7 +11,7 @@ from scipy.stats import pearsonr
 from torch import Tensor, optim
 from torch.autograd import Variable
 from torch.func import grad
-from torch.utils.data import RandomSampler
+from torch.utils.data import RandomSampler, SubsetRandomSampler
 
 
 def _check_shuffle(dataloader: torch.utils.data.DataLoader) -> None:
@@ -20,7 +20,10 @@ def _check_shuffle(dataloader: torch.utils.data.DataLoader) -> None:
     Args:
         dataloader (torch.utils.data.DataLoader): The dataloader to be checked.
     """
-    is_shuffling = isinstance(dataloader.sampler, RandomSampler)
+    is_shuffling = isinstance(
+        dataloader.sampler,
+        (RandomSampler, SubsetRandomSampler),
+    )
     if is_shuffling:
         warnings.warn(
             "The dataloader is shuffling the data. The influence \
-- 
2.43.0


From 3e513aa4f74f42d8e687bc075aa3035e06dbd7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 22/57] fix: warn about shuffled loaders when caching block
 gradients and in DVEmb

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 1 +
 dattri/algorithm/dvemb.py                                 | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 430ed22..0b67f16 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -216,6 +216,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             self.offload,
         )
 
+        _check_shuffle(full_train_dataloader)
         self.full_train_dataloader = full_train_dataloader
 
         # Setup compressors if not already done
diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 885b4f7..01fe006 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -24,6 +24,7 @@ import torch
 from torch import nn
 from tqdm import tqdm
 
+from dattri.algorithm.utils import _check_shuffle
 from dattri.func.projection import random_project
 from dattri.func.utils import flatten_params
 
@@ -849,6 +850,8 @@ class DVEmbAttributor:
             msg = "Embeddings not computed. Call cache first."
             raise RuntimeError(msg)
 
+        _check_shuffle(test_dataloader)
+
         # Create test gradients
         self.model.eval()
         test_grads = []
-- 
2.43.0


From 6490708b84ec13c4e77f167b398867d31c4879fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 23/57] fix: refuse unknown DVEmb factorization types and
 epochs up front

---
 dattri/algorithm/dvemb.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 01fe006..459b32a 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -87,6 +87,10 @@ class DVEmbAttributor:
                         or if no Linear layers are found for factorization or
                         if the loss function format is incorrect.
         """
+        if factorization_type not in {"none", "kronecker", "elementwise"}:
+            msg = f"Unknown factorization type: {factorization_type}"
+            raise ValueError(msg)
+
         self.task = task
         self.model = task.get_model()
         self.device = next(self.model.parameters()).device
@@ -141,13 +145,10 @@ class DVEmbAttributor:
                     * self.projection_dim_per_layer
                     * self.projection_dim_per_layer
                 )
-            elif self.factorization_type == "elementwise":
+            else:
                 self._params_dim = (
                     len(self._linear_layers) * self.projection_dim_per_layer
                 )
-            else:
-                msg = f"Unknown factorization type: {self.factorization_type}"
-                raise ValueError(msg)
 
         self.cached_gradients: Dict[int, List[Tensor]] = {}
         self.learning_rates: Dict[int, List[float]] = {}
@@ -849,6 +850,9 @@ class DVEmbAttributor:
         if not self.embeddings:
             msg = "Embeddings not computed. Call cache first."
             raise RuntimeError(msg)
+        if epoch is not None and epoch not in self.embeddings:
+            msg = f"Embeddings for epoch {epoch} not found."
+            raise ValueError(msg)
 
         _check_shuffle(test_dataloader)
 
@@ -872,9 +876,6 @@ class DVEmbAttributor:
 
         # Select active embeddings (according to epoch if specified)
         if epoch is not None:
-            if epoch not in self.embeddings:
-                msg = f"Embeddings for epoch {epoch} not found."
-                raise ValueError(msg)
             active_embeddings = self.embeddings[epoch]
         else:
             active_embeddings = torch.stack(list(self.embeddings.values())).sum(dim=0)
-- 
2.43.0


From 1edbae21ab0b9dc5593bab32cd532f7d60b5b08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 24/57] fix: refuse unknown relatif methods and uncached
 Arnoldi before computing

---
 dattri/algorithm/base.py               | 15 +++++++++++++++
 dattri/algorithm/influence_function.py | 20 ++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index 9146d5a..d78508b 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -255,6 +255,19 @@ class BaseInnerProductAttributor(BaseAttributor):
         """
         self._set_full_train_data(full_train_dataloader)
 
+    def _check_request(self, relatif_method: Optional[str]) -> None:  # noqa: PLR6301
+        """Refuse an attribution request that can not be computed.
+
+        Args:
+            relatif_method (Optional[str]): Normalization method.
+
+        Raises:
+            ValueError: If an unknown `relatif_method` is provided.
+        """
+        if relatif_method not in {None, "l", "theta"}:
+            error_msg = f"Unknown method: {relatif_method}"
+            raise ValueError(error_msg)
+
     def _compute_denom(
         self,
         ckpt_idx: int,
@@ -330,6 +343,7 @@ class BaseInnerProductAttributor(BaseAttributor):
 
         """
         super().attribute(train_dataloader, test_dataloader)
+        self._check_request(relatif_method)
         if self.full_train_dataloader is None:
             self.full_train_dataloader = train_dataloader
             warnings.warn(
@@ -492,6 +506,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         """
         test_dataloader = train_dataloader
         super().attribute(train_dataloader, test_dataloader)
+        self._check_request(relatif_method)
         if self.full_train_dataloader is None:
             self.full_train_dataloader = train_dataloader
             warnings.warn(
diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 90c71c4..d953b4c 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -474,6 +474,26 @@ class IFAttributorArnoldi(BaseInnerProductAttributor):
 
         return self.arnoldi_projectors[ckpt_idx](train_rep).detach()
 
+    def _check_request(self, relatif_method: Optional[str]) -> None:
+        """Refuse an attribution request that can not be computed.
+
+        Args:
+            relatif_method (Optional[str]): Normalization method.
+
+        Raises:
+            ValueError: If the Arnoldi projector has not been cached.
+            NotImplementedError: If `relatif_method` is `"theta"`. The
+                representations are projected, `H^-1 g_i` is not available.
+        """
+        super()._check_request(relatif_method)
+        if not hasattr(self, "arnoldi_projectors"):
+            error_msg = "The Arnoldi projector has not been cached.\
+                         Please call cache() first."
+            raise ValueError(error_msg)
+        if relatif_method == "theta":
+            error_msg = "`relatif_method='theta'` is not supported by Arnoldi."
+            raise NotImplementedError(error_msg)
+
     def _compute_denom(
         self,
         ckpt_idx: int,
-- 
2.43.0


From c70565f77b361a2d0a5bb3c7b7b1577b058e355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 25/57] fix: replace stored gradients and metadata when block
 gradients are cached again

---
 .../block_projected_if/block_projected_if.py          |  3 +++
 dattri/algorithm/block_projected_if/core/metadata.py  |  8 ++++----
 dattri/algorithm/block_projected_if/offload/disk.py   |  1 +
 .../block_projected_if/offload/disk_io/manager.py     | 11 +++++++++++
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 0b67f16..f384b4d 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -219,6 +219,9 @@ class BlockProjectedIFAttributor(BaseAttributor):
         _check_shuffle(full_train_dataloader)
         self.full_train_dataloader = full_train_dataloader
 
+        # Discard everything stored for an earlier training set
+        self.offload_manager.clear_cache()
+
         # Setup compressors if not already done
         if self.compressors is None:
             self._setup_compressors(full_train_dataloader)
diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 8f85cf1..d92733d 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -61,10 +61,10 @@ class MetadataManager:
         total_batches = len(train_dataloader)
         batch_size = train_dataloader.batch_size
 
-        # Check if already initialized
-        if len(self.batch_info) == total_batches:
-            logger.info("Dataset metadata already complete, skipping initialization")
-            return
+        # Start over, an earlier dataset may have been batched differently
+        with self._metadata_lock:
+            self.batch_info = {}
+            self._pending_batches.clear()
 
         # Compute complete batch structure
         if hasattr(train_dataloader.dataset, "__len__"):
diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index 29e088a..df56afa 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -217,6 +217,7 @@ class DiskOffloadManager(Offload):
     def clear_cache(self) -> None:
         """Clear all cached data from disk."""
         self.disk_io.wait_for_async_operations()
+        self.disk_io.clear_buffers()
 
         for subdir in ["grad", "ifvp", "precond"]:
             subdir_path = pathlib.Path(self.cache_dir) / subdir
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 66971ef..ce61163 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -926,6 +926,17 @@ class ChunkedDiskIOManager:
         """
         return "grad" if data_type == "gradients" else data_type
 
+    def clear_buffers(self) -> None:
+        """Drop data held in memory for chunks that are about to be removed."""
+        for buffer_key in list(self._chunk_buffers.keys()):
+            with self._buffer_locks[buffer_key]:
+                buffer = self._chunk_buffers.pop(buffer_key, None)
+                if buffer is not None:
+                    self._get_or_create_buffer_pool(buffer_key[0]).return_buffer(buffer)
+
+        with self._read_cache_lock:
+            self._read_cache.clear()
+
     def wait_for_async_operations(self) -> None:  # noqa: ARG002
         """Wait for all async operations to complete."""
         if self._shutdown:
-- 
2.43.0


From 2df7f77aa2f80cd8c429cfa950ece0d9f9c2db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 26/57] fix: remove hooks and restore forward methods when
 gradient capture fails

---
 .../block_projected_if/block_projected_if.py  | 54 +++++++++++--------
 .../block_projected_if/core/compressor.py     | 35 ++++++------
 2 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index f384b4d..1019caa 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -205,7 +205,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             if self.metadata.layer_dims is None:
                 self.metadata.set_layer_dims(self.layer_dims)
 
-    def cache(self, full_train_dataloader: DataLoader) -> None:  # noqa: PLR0912
+    def cache(self, full_train_dataloader: DataLoader) -> None:
         """Cache gradients and IFVP for the full training dataset.
 
         Args:
@@ -229,6 +229,32 @@ class BlockProjectedIFAttributor(BaseAttributor):
         # Initialize metadata for complete dataset
         self.metadata.initialize_complete_dataset(full_train_dataloader)
 
+        try:
+            self._store_train_gradients(full_train_dataloader)
+        finally:
+            self._remove_hooks()
+
+        # Compute preconditioners and IFVP if needed
+        if self.hessian == "eFIM":
+            logger.info("Computing preconditioners...")
+            self.compute_preconditioners()
+            logger.info("Computing IFVP...")
+            self.compute_ifvp()
+
+        logger.info("Caching completed")
+
+    def _remove_hooks(self) -> None:
+        """Restore the forward methods replaced by the hook manager."""
+        if self.hook_manager is not None:
+            self.hook_manager.remove_hooks()
+            self.hook_manager = None
+
+    def _store_train_gradients(self, full_train_dataloader: DataLoader) -> None:
+        """Compute the gradients of the training data and store them.
+
+        Args:
+            full_train_dataloader: DataLoader for full training data
+        """
         # Create hook manager
         if self.hook_manager is None:
             self.hook_manager = HookManager(
@@ -311,19 +337,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
         # Save metadata
         self.metadata.save_metadata()
 
-        # Clean up hooks
-        self.hook_manager.remove_hooks()
-        self.hook_manager = None
-
-        # Compute preconditioners and IFVP if needed
-        if self.hessian == "eFIM":
-            logger.info("Computing preconditioners...")
-            self.compute_preconditioners()
-            logger.info("Computing IFVP...")
-            self.compute_ifvp()
-
-        logger.info("Caching completed")
-
     def compute_preconditioners(  # noqa: PLR0912, PLR0914 - Complex preconditioner computation requires multiple branches and variables
         self,
         damping: Optional[float] = None,
@@ -732,9 +745,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         # Compute test gradients
         logger.info("Computing test gradients")
-        test_grads_tensor, _test_batch_mapping = self._compute_test_gradients(
-            test_dataloader,
-        )
+        try:
+            test_grads_tensor, _test_batch_mapping = self._compute_test_gradients(
+                test_dataloader,
+            )
+        finally:
+            self._remove_hooks()
 
         if test_grads_tensor is None or test_grads_tensor.numel() == 0:
             logger.warning("No test gradients computed")
@@ -883,10 +899,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             torch.cuda.empty_cache()
 
-        # Clean up hooks
-        self.hook_manager.remove_hooks()
-        self.hook_manager = None
-
         # Combine all test gradients
         if all_test_grads:
             return torch.cat(all_test_grads, dim=0), test_batch_mapping
diff --git a/dattri/algorithm/block_projected_if/core/compressor.py b/dattri/algorithm/block_projected_if/core/compressor.py
index 0fe6d2c..cba57eb 100644
--- a/dattri/algorithm/block_projected_if/core/compressor.py
+++ b/dattri/algorithm/block_projected_if/core/compressor.py
@@ -294,24 +294,25 @@ def setup_model_compressors(  # noqa: PLR0912, PLR0914, PLR0915 - Complex setup
         layer_inputs[name] = inp[0] if isinstance(inp, tuple) and len(inp) > 0 else inp
         layer_outputs[name] = out
 
-    # Register temporary hooks to capture layer I/O
-    for name, module in model.named_modules():
-        if name in layer_names:
-            hook = module.register_forward_hook(
-                lambda mod, inp, out, n=name: capture_hook(n, mod, inp, out),
-            )
-            hooks.append(hook)
-
-    # Run another forward pass to capture inputs/outputs
-    with torch.no_grad():
-        if isinstance(sample_inputs, dict):
-            model(**inputs)
-        else:
-            model(inputs)
+    try:
+        # Register temporary hooks to capture layer I/O
+        for name, module in model.named_modules():
+            if name in layer_names:
+                hook = module.register_forward_hook(
+                    lambda mod, inp, out, n=name: capture_hook(n, mod, inp, out),
+                )
+                hooks.append(hook)
 
-    # Remove temporary hooks
-    for hook in hooks:
-        hook.remove()
+        # Run another forward pass to capture inputs/outputs
+        with torch.no_grad():
+            if isinstance(sample_inputs, dict):
+                model(**inputs)
+            else:
+                model(inputs)
+    finally:
+        # Remove temporary hooks
+        for hook in hooks:
+            hook.remove()
 
     # Create sparsifiers and projectors for each layer
     module_list = list(model.named_modules())
-- 
2.43.0


From f5b11e489a99481c142b2062402488ccf776a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 27/57] fix: handle inputs with a time dimension in the EK-FAC
 statistics

a_prev was only assigned for two-dimensional layer inputs.
---
 dattri/func/fisher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index fe879dd..6bd5bca 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -264,6 +264,7 @@ def _update_covariance(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
+        a_prev = a_prev_raw
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
 
@@ -334,6 +335,7 @@ def _update_lambda(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
+        a_prev = a_prev_raw
         ds_curr = s_curr_raw.grad
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
-- 
2.43.0


From c53f623bbd7fdb57bfba5b5b223b6177990fe66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 28/57] fix: RPS fine-tuning with gradients above 10000

The best weights were only recorded once the mean absolute gradient fell
below an arbitrary constant; otherwise reading them failed.
---
 dattri/algorithm/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/utils.py b/dattri/algorithm/utils.py
index ebb6981..b0bbf17 100644
--- a/dattri/algorithm/utils.py
+++ b/dattri/algorithm/utils.py
@@ -130,9 +130,10 @@ def rps_finetune_theta(
     # depending on the number of classes
     y = torch.sigmoid(y) if init_theta.shape[0] == 1 else torch.softmax(y, dim=1)
 
-    min_loss = 10000.0
     # define a trainable last layer
     theta = Variable(init_theta.to(device), requires_grad=True)
+    finetuned_theta = theta.data
+    min_loss = init_grad = float("inf")
 
     optimizer = optim.SGD([theta], lr=1.0)
     for epoch in range(num_epoch):
-- 
2.43.0


From 8e00e6844249ad592847f4aab0c3ee47b5802483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 29/57] fix: refuse DataInf and EK-FAC attribution before cache

Both read statistics that only cache() computes.
---
 dattri/algorithm/influence_function.py | 34 ++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index d953b4c..511dbf9 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -782,6 +782,23 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
                 dim=0,
             )
 
+    def _check_request(self, relatif_method: Optional[str]) -> None:
+        """Refuse an attribution request that can not be computed.
+
+        Args:
+            relatif_method (Optional[str]): Normalization method.
+
+        Raises:
+            ValueError: If `cache` has not been called.
+        """
+        super()._check_request(relatif_method)
+        if not hasattr(self, "_cached_train_reps"):
+            error_msg = (
+                "The training data of DataInf has not been cached. "
+                "Please call cache() first."
+            )
+            raise ValueError(error_msg)
+
     def transform_test_rep(
         self,
         ckpt_idx: int,
@@ -1071,6 +1088,23 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             for handle in handles:
                 handle.remove()
 
+    def _check_request(self, relatif_method: Optional[str]) -> None:
+        """Refuse an attribution request that can not be computed.
+
+        Args:
+            relatif_method (Optional[str]): Normalization method.
+
+        Raises:
+            ValueError: If `cache` has not been called.
+        """
+        super()._check_request(relatif_method)
+        if not hasattr(self, "cached_lambdas"):
+            error_msg = (
+                "The EK-FAC statistics have not been cached. "
+                "Please call cache() first."
+            )
+            raise ValueError(error_msg)
+
     def transform_test_rep(
         self,
         ckpt_idx: int,
-- 
2.43.0


From 8593754eb1665e65a6268c04935bedb62bf38aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 30/57] fix: DVEmb with epochs that do not start at 0

The gradient shape was read from epoch 0 instead of a recorded epoch.
---
 dattri/algorithm/dvemb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 459b32a..fa2d25a 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -752,17 +752,18 @@ class DVEmbAttributor:
         num_total_samples = all_indices.max().item() + 1
 
         # Determine gradient dimension and data type from cached data
+        first_epoch = min(self.learning_rates)
         if self.use_factorization:
             grad_dim = self._params_dim
             if self.projection_dim_per_layer is None:
                 # No projection: use cached factors
-                grad_dtype = self.cached_factors[0][0][0]["A"].dtype
+                grad_dtype = self.cached_factors[first_epoch][0][0]["A"].dtype
             else:
                 # With projection (kronecker or elementwise): use cached gradients
-                grad_dtype = self.cached_gradients[0][0].dtype
+                grad_dtype = self.cached_gradients[first_epoch][0].dtype
         else:
-            grad_dim = self.cached_gradients[0][0].shape[1]
-            grad_dtype = self.cached_gradients[0][0].dtype
+            grad_dim = self.cached_gradients[first_epoch][0].shape[1]
+            grad_dtype = self.cached_gradients[first_epoch][0].dtype
 
         # Create weighting matrix
         m_matrix = torch.zeros(
-- 
2.43.0


From 2db0ae222cc14af95d107e28fcaeb6264203ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 31/57] fix: leave the global random state alone in the Arnoldi
 projection

---
 dattri/func/projection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d06f2e0..6966eda 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1010,10 +1010,14 @@ class ArnoldiProjector(AbstractProjector):
 
     def get_eigenspace(self) -> None:
         """Compute the approximate eigenspaces of inverse Hessian."""
-        # set torch seed
-        torch.manual_seed(self.seed)
+        # seed a generator of our own, the global random state is the user's
+        generator = torch.Generator().manual_seed(self.seed)
         # init a random vector
-        v0 = torch.rand(self.feature_dim).to(self.device)
+        v0 = torch.rand(
+            self.feature_dim,
+            generator=generator,
+            device=generator.device,
+        ).to(self.device)
 
         # perform arnoldi iteration
         appr_mat, proj = self._arnoldi_iter(
-- 
2.43.0


From ef753e3d99de876452b9981f74cca4177b527370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 32/57] fix: the same GraSS projection for an ensemble index
 whatever came before

---
 dattri/func/projection.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 6966eda..b03e470 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -557,8 +557,6 @@ class CudaProjector(AbstractProjector):
         # Ensure intermediate_dim doesn't exceed feature_dim
         if intermediate_dim > self.feature_dim:
             intermediate_dim = self.feature_dim
-            # Update grass_multiplier to reflect actual ratio used
-            self.grass_multiplier = intermediate_dim // self.proj_dim
 
         # Generate random mask indices (feature_dim -> intermediate_dim)
         self._gen_randomness_mask(
-- 
2.43.0


From 30ca0fc7fa4ef5f030508ee66ae3bf2b9e89e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 33/57] fix: count queued disk writes and raise their errors
 where they are waited for

---
 .../offload/disk_io/manager.py                | 42 ++++++++++++++-----
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index ce61163..45e95d6 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -8,7 +8,7 @@ import pathlib
 import queue
 import threading
 import time
-from collections import defaultdict
+from collections import Counter, defaultdict
 from concurrent.futures import ThreadPoolExecutor
 from dataclasses import dataclass
 from typing import Any, Literal
@@ -204,7 +204,10 @@ class ChunkedDiskIOManager:
         logger.info("Started %s write workers", num_write_workers)
 
         # Pending writes tracking
-        self._pending_writes = set()  # Track chunk_ids being written
+        # (data_type, chunk_id) -> number of queued writes, a chunk that outgrows
+        # its buffer is written more than once
+        self._pending_writes = Counter()
+        self._write_errors = []  # Exceptions of failed writes, not yet reported
         self._pending_writes_lock = threading.Lock()
 
         # Read cache for recently accessed chunks
@@ -358,11 +361,19 @@ class ChunkedDiskIOManager:
                         batch_info,
                     )
 
-                    # Remove from pending writes
+                except Exception as e:
+                    # Keep the error for whoever waits for this write
                     with self._pending_writes_lock:
-                        self._pending_writes.discard((data_type, chunk_id))
+                        self._write_errors.append(e)
+                    raise
 
                 finally:
+                    # Remove from pending writes
+                    with self._pending_writes_lock:
+                        self._pending_writes[data_type, chunk_id] -= 1
+                        if self._pending_writes[data_type, chunk_id] <= 0:
+                            del self._pending_writes[data_type, chunk_id]
+
                     # Return buffer to pool if provided (for backward compatibility)
                     if buffer is not None:
                         pool = self._get_or_create_buffer_pool(data_type)
@@ -549,7 +560,7 @@ class ChunkedDiskIOManager:
 
         # Mark as pending write
         with self._pending_writes_lock:
-            self._pending_writes.add((data_type, chunk_id))
+            self._pending_writes[data_type, chunk_id] += 1
 
         # Submit to write queue without the buffer (since we already returned it)
         write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
@@ -690,13 +701,26 @@ class ChunkedDiskIOManager:
                 self._async_flush_chunk_buffer(buffer_key)
 
         # Wait for all pending writes
+        self._wait_for_pending_writes()
+
+        self.current_batch_range = None
+
+    def _wait_for_pending_writes(self) -> None:
+        """Wait until every queued write has ended.
+
+        Raises:
+            RuntimeError: If a write failed since the last wait.
+        """
         while True:
             with self._pending_writes_lock:
                 if len(self._pending_writes) == 0:
+                    errors, self._write_errors = self._write_errors, []
                     break
             time.sleep(0.1)
 
-        self.current_batch_range = None
+        if errors:
+            msg = f"{len(errors)} writes to {self.cache_dir} failed"
+            raise RuntimeError(msg) from errors[0]
 
     def _retrieve_batch_data_with_cache(  # noqa: PLR0912, PLR0914
         self,
@@ -947,11 +971,7 @@ class ChunkedDiskIOManager:
             time.sleep(0.1)
 
         # Wait for pending writes
-        while True:
-            with self._pending_writes_lock:
-                if len(self._pending_writes) == 0:
-                    break
-            time.sleep(0.1)
+        self._wait_for_pending_writes()
 
         # Wait for other futures and collect errors
         # Using list comprehension to check futures without try-except in loop
-- 
2.43.0


From 4eb77dd67aa7c3cb192db24a8aa5cca460d17055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 34/57] fix: raise when a preconditioner could not be saved

---
 .../block_projected_if/offload/disk_io/manager.py  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 45e95d6..5202280 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -962,7 +962,11 @@ class ChunkedDiskIOManager:
             self._read_cache.clear()
 
     def wait_for_async_operations(self) -> None:  # noqa: ARG002
-        """Wait for all async operations to complete."""
+        """Wait for all async operations to complete.
+
+        Raises:
+            RuntimeError: If one of the operations failed.
+        """
         if self._shutdown:
             return  # Skip if we're shutting down
 
@@ -975,13 +979,13 @@ class ChunkedDiskIOManager:
 
         # Wait for other futures and collect errors
         # Using list comprehension to check futures without try-except in loop
+        futures, self.futures = self.futures, []
         errors = [
-            future for future in self.futures if not self._check_future_result(future)
+            future for future in futures if not self._check_future_result(future)
         ]
         if errors:
-            logger.warning("Some async operations failed: %s errors", len(errors))
-
-        self.futures = []
+            msg = f"{len(errors)} async operations failed"
+            raise RuntimeError(msg) from errors[0].exception()
 
     @staticmethod
     def _check_future_result(future: Any) -> bool:  # noqa: ANN401
-- 
2.43.0


From 19ac7dcdd6635a2afd13abb0c0d827175112fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 35/57] fix: wait for queued writes before reading gradients
 back from disk

---
 .../offload/disk_io/manager.py                | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 5202280..f7064c2 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -554,6 +554,10 @@ class ChunkedDiskIOManager:
         filled_tensor = buffer.tensor[: buffer.current_row].clone().contiguous()
         batch_info_copy = buffer.batch_info.copy()
 
+        # What was read from this chunk before is no longer all of it
+        with self._read_cache_lock:
+            self._read_cache.pop(buffer_key, None)
+
         # Return buffer to pool immediately after cloning
         pool = self._get_or_create_buffer_pool(data_type)
         pool.return_buffer(buffer)
@@ -694,17 +698,20 @@ class ChunkedDiskIOManager:
         if self.current_batch_range is None:
             return
 
-        # Flush all remaining buffers
-        remaining_buffers = list(self._chunk_buffers.keys())
-        for buffer_key in remaining_buffers:
-            with self._buffer_locks[buffer_key]:
-                self._async_flush_chunk_buffer(buffer_key)
+        self._flush_remaining_buffers()
 
         # Wait for all pending writes
         self._wait_for_pending_writes()
 
         self.current_batch_range = None
 
+    def _flush_remaining_buffers(self) -> None:
+        """Queue the buffers of chunks that are not complete yet."""
+        remaining_buffers = list(self._chunk_buffers.keys())
+        for buffer_key in remaining_buffers:
+            with self._buffer_locks[buffer_key]:
+                self._async_flush_chunk_buffer(buffer_key)
+
     def _wait_for_pending_writes(self) -> None:
         """Wait until every queued write has ended.
 
@@ -775,7 +782,8 @@ class ChunkedDiskIOManager:
                         batch_tensor = tensor[start_row:end_row]
                         return self._split_tensor_to_layers(batch_tensor)
 
-        # Load from disk
+        # Load from disk, once everything queued has been written
+        self._wait_for_pending_writes()
         subdir = ChunkedDiskIOManager._get_chunk_subdir(data_type)
         chunk_path = str(pathlib.Path(self.cache_dir) / subdir)
 
@@ -889,6 +897,10 @@ class ChunkedDiskIOManager:
         """
         from .prefetch_dataset import create_tensor_dataloader
 
+        # The loader lists the chunks on disk now, so all data has to be there
+        self._flush_remaining_buffers()
+        self._wait_for_pending_writes()
+
         return create_tensor_dataloader(
             disk_io=self,
             data_type=data_type,
@@ -933,6 +945,8 @@ class ChunkedDiskIOManager:
         Returns:
             Preconditioner tensor, or None if not found.
         """
+        self.wait_for_async_operations()
+
         file_path = pathlib.Path(self.cache_dir) / "precond" / f"layer_{layer_idx}.pt"
         if file_path.exists():
             return torch.load(file_path, weights_only=True)
@@ -1011,6 +1025,8 @@ class ChunkedDiskIOManager:
         Returns:
             bool: True if preconditioner files exist in cache directory.
         """
+        self.wait_for_async_operations()
+
         precond_dir = pathlib.Path(self.cache_dir) / "precond"
         if not precond_dir.exists():
             return False
@@ -1022,6 +1038,9 @@ class ChunkedDiskIOManager:
         Returns:
             bool: True if IFVP chunk files exist in cache directory.
         """
+        self._flush_remaining_buffers()
+        self._wait_for_pending_writes()
+
         ifvp_dir = pathlib.Path(self.cache_dir) / "ifvp"
         if not ifvp_dir.exists():
             return False
-- 
2.43.0


From d46cd3c79af44bba88c15a5b0b8cc48551afd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 36/57] fix: storing no preconditioner on disk removes the
 earlier one

---
 .../block_projected_if/offload/disk_io/manager.py        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index f7064c2..795a2e9 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -919,9 +919,16 @@ class ChunkedDiskIOManager:
 
         Args:
             layer_idx: Index of the layer to store preconditioner for.
-            preconditioner: Preconditioner tensor to store, or None to skip.
+            preconditioner: Preconditioner tensor to store, or None if the layer
+                has none.
         """
         if preconditioner is None:
+            # Do not let a preconditioner stored earlier come back
+            self.wait_for_async_operations()
+            stale_path = (
+                pathlib.Path(self.cache_dir) / "precond" / f"layer_{layer_idx}.pt"
+            )
+            stale_path.unlink(missing_ok=True)
             return
 
         cpu_precond = (
-- 
2.43.0


From 60ebdf002e320ac2c8d169ba13becc6ace508790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 37/57] fix: raise when gradient chunks cannot be read

---
 .../offload/disk_io/prefetch_dataset.py       | 38 ++++++++-----------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index a777fcd..6137a6b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -275,29 +275,21 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         chunk_path = chunk_info["chunk_path"]
 
         _lazy_import_memory_map()
-        try:
-            # Load chunk as tensor with batch mapping
-            (
-                tensor,
-                batch_mapping,
-            ) = ChunkedMemoryMapHandler.load_chunk_batch_range(
-                chunk_path,
-                chunk_filename,
-                self.batch_range,
-            )
-        except Exception:
-            logger.exception("Error loading chunk %s", chunk_filename)
-            # Return empty data on error
-            layer_dims = chunk_info["metadata"].get("layer_dims", [])
-            total_proj_dim = sum(layer_dims) if layer_dims else 0
-            empty_tensor = torch.empty(0, total_proj_dim)
-            return empty_tensor, {}
-        else:
-            # Add to cache for potential reuse
-            with self._cache_lock:
-                self._chunk_cache[idx] = (tensor, batch_mapping)
-
-            return tensor, batch_mapping
+        # Load chunk as tensor with batch mapping
+        (
+            tensor,
+            batch_mapping,
+        ) = ChunkedMemoryMapHandler.load_chunk_batch_range(
+            chunk_path,
+            chunk_filename,
+            self.batch_range,
+        )
+
+        # Add to cache for potential reuse
+        with self._cache_lock:
+            self._chunk_cache[idx] = (tensor, batch_mapping)
+
+        return tensor, batch_mapping
 
     def __del__(self) -> None:
         """Clean up prefetch thread."""
-- 
2.43.0


From 3d9d2768c601d6d75d42cf2d500f89af018ae9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 38/57] fix: write chunk metadata atomically and never while
 its data is being written

---
 .../block_projected_if/offload/disk_io/memory_map.py      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py b/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
index 36c90b7..e12e6e6 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
@@ -60,6 +60,9 @@ class ChunkedMemoryMapHandler:
             pathlib.Path(save_path) / f"{chunk_filename}_metadata.json",
         )
 
+        # No index may describe the data while it is being written
+        pathlib.Path(metadata_path).unlink(missing_ok=True)
+
         # Create memory-mapped file
         # Determine storage dtype
         storage_dtype = "uint16" if tensor.dtype == torch.bfloat16 else dtype
@@ -127,8 +130,11 @@ class ChunkedMemoryMapHandler:
             "flush_mode": flush_mode,  # Track how it was written
         }
 
-        with pathlib.Path(metadata_path).open("w", encoding="utf-8") as f:
+        # Write to a temporary file first, so that the index appears complete
+        temp_path = pathlib.Path(metadata_path + ".tmp")
+        with temp_path.open("w", encoding="utf-8") as f:
             json.dump(metadata, f, separators=(",", ":"))
+        temp_path.replace(metadata_path)
 
         logger.debug(
             "Wrote tensor chunk %s: shape=%s, flush_mode=%s",
-- 
2.43.0


From 617667b7f920f9b7d2b01ed75a91ec556e009f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 39/57] fix: keep test gradients apart on disk as in memory

---
 .../block_projected_if/offload/disk.py        |  9 ++++---
 .../offload/disk_io/manager.py                | 27 ++++++++++---------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index df56afa..b35a7c5 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -82,7 +82,7 @@ class DiskOffloadManager(Offload):
         self,
         batch_idx: int,
         gradients: List[torch.Tensor],
-        is_test: bool = False,  # noqa: ARG002 - Kept for API compatibility with other offload managers
+        is_test: bool = False,
     ) -> None:
         """Store gradients for a batch on disk using async pipeline.
 
@@ -96,7 +96,7 @@ class DiskOffloadManager(Offload):
     def retrieve_gradients(
         self,
         batch_idx: int,
-        is_test: bool = False,  # noqa: ARG002 - Kept for API compatibility with other offload managers
+        is_test: bool = False,
     ) -> List[torch.Tensor]:
         """Retrieve gradients for a batch from disk and move to device.
 
@@ -177,7 +177,7 @@ class DiskOffloadManager(Offload):
         batch_size: int = 1,
         pin_memory: bool = True,
         batch_range: Optional[Tuple[int, int]] = None,
-        is_test: bool = False,  # noqa: ARG002 - Kept for API compatibility with other offload managers
+        is_test: bool = False,
     ) -> DataLoader:
         """Create an optimized DataLoader with async prefetching.
 
@@ -196,6 +196,7 @@ class DiskOffloadManager(Offload):
             batch_size=batch_size,
             pin_memory=pin_memory,
             batch_range=batch_range,
+            is_test=is_test,
         )
 
     def has_preconditioners(self) -> bool:
@@ -219,7 +220,7 @@ class DiskOffloadManager(Offload):
         self.disk_io.wait_for_async_operations()
         self.disk_io.clear_buffers()
 
-        for subdir in ["grad", "ifvp", "precond"]:
+        for subdir in ["grad", "test", "ifvp", "precond"]:
             subdir_path = pathlib.Path(self.cache_dir) / subdir
             if subdir_path.exists():
                 for file_path in subdir_path.iterdir():
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 795a2e9..a944af4 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -19,7 +19,7 @@ from .memory_map import ChunkedMemoryMapHandler
 
 logger = logging.getLogger(__name__)
 
-DataTypeOptions = Literal["gradients", "preconditioners", "ifvp"]
+DataTypeOptions = Literal["gradients", "test", "preconditioners", "ifvp"]
 HessianOptions = Literal["identity", "eFIM"]
 
 
@@ -168,7 +168,7 @@ class ChunkedDiskIOManager:
         # Create cache directory structure
         if cache_dir:
             pathlib.Path(cache_dir).mkdir(exist_ok=True, parents=True)
-            for subdir in ["grad", "ifvp", "precond"]:
+            for subdir in ["grad", "test", "ifvp", "precond"]:
                 (pathlib.Path(cache_dir) / subdir).mkdir(
                     exist_ok=True,
                     parents=True,
@@ -442,14 +442,11 @@ class ChunkedDiskIOManager:
         Args:
             batch_idx: Index of the batch to store gradients for.
             gradients: List of gradient tensors to store.
-            is_test: Whether these are test gradients (currently skipped).
+            is_test: Whether these are test gradients.
 
         Raises:
             RuntimeError: If failed to get new buffer after overflow.
         """
-        if is_test:
-            return  # Skip test gradients for now
-
         # Detect layer dimensions on first store
         if self.layer_dims is None:
             self.layer_dims = [g.shape[1] if g.numel() > 0 else 0 for g in gradients]
@@ -461,8 +458,9 @@ class ChunkedDiskIOManager:
             )
 
         chunk_id = self.get_chunk_id(batch_idx)
-        buffer_key = ("gradients", chunk_id)
-        pool = self._get_or_create_buffer_pool("gradients")
+        data_type = "test" if is_test else "gradients"
+        buffer_key = (data_type, chunk_id)
+        pool = self._get_or_create_buffer_pool(data_type)
 
         with self._buffer_locks[buffer_key]:
             # Get or create buffer
@@ -534,7 +532,7 @@ class ChunkedDiskIOManager:
             buffer.current_row = end_row
 
             # Check if chunk is complete
-            if self._is_chunk_complete("gradients", chunk_id):
+            if self._is_chunk_complete(data_type, chunk_id):
                 self._async_flush_chunk_buffer(buffer_key)
 
     def _async_flush_chunk_buffer(self, buffer_key: tuple[str, int]) -> None:
@@ -835,18 +833,19 @@ class ChunkedDiskIOManager:
     def retrieve_gradients(
         self,
         batch_idx: int,
-        is_test: bool = False,  # noqa: ARG002
+        is_test: bool = False,
     ) -> list[torch.Tensor]:
         """Retrieve gradients for a batch and split into layers.
 
         Args:
             batch_idx: Index of the batch to retrieve gradients for.
-            is_test: Whether to retrieve test gradients (currently unused).
+            is_test: Whether to retrieve test gradients.
 
         Returns:
             List of gradient tensors split by layers.
         """
-        return self._retrieve_batch_data_with_cache("gradients", batch_idx)
+        data_type = "test" if is_test else "gradients"
+        return self._retrieve_batch_data_with_cache(data_type, batch_idx)
 
     def retrieve_ifvp(self, batch_idx: int) -> list[torch.Tensor]:
         """Retrieve IFVP for a batch and split into layers.
@@ -883,6 +882,7 @@ class ChunkedDiskIOManager:
         batch_size: int = 1,
         pin_memory: bool = True,
         batch_range: tuple[int, int] | None = None,
+        is_test: bool = False,
     ) -> torch.utils.data.DataLoader | None:
         """Create a DataLoader for loading chunked data with prefetching.
 
@@ -891,6 +891,7 @@ class ChunkedDiskIOManager:
             batch_size: Batch size for the DataLoader.
             pin_memory: Whether to use pinned memory.
             batch_range: Optional range of batches to load.
+            is_test: Whether to load the gradients of test data.
 
         Returns:
             DataLoader for the chunked data, or None if creation failed.
@@ -903,7 +904,7 @@ class ChunkedDiskIOManager:
 
         return create_tensor_dataloader(
             disk_io=self,
-            data_type=data_type,
+            data_type="test" if is_test and data_type == "gradients" else data_type,
             batch_size=batch_size,
             pin_memory=pin_memory,
             batch_range=batch_range,
-- 
2.43.0


From 9722bf78f36ba47e3b293049b4b492a53463ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 40/57] fix: same dataloader parameters in the offload
 interface and its strategies

---
 dattri/algorithm/block_projected_if/offload/offload.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/offload.py b/dattri/algorithm/block_projected_if/offload/offload.py
index a0ef7b0..0d8f268 100644
--- a/dattri/algorithm/block_projected_if/offload/offload.py
+++ b/dattri/algorithm/block_projected_if/offload/offload.py
@@ -111,7 +111,6 @@ class Offload(ABC):
         self,
         data_type: str,
         batch_size: int = 1,
-        num_workers: int = 4,
         pin_memory: bool = True,
         batch_range: Optional[Tuple[int, int]] = None,
         is_test: bool = False,
-- 
2.43.0


From 8a42d4eb7a420dc04c958770f655bffd108e8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 41/57] fix: raise when batch metadata cannot be saved

---
 dattri/algorithm/block_projected_if/core/metadata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index d92733d..6250669 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -267,6 +267,7 @@ class MetadataManager:
             if pathlib.Path(temp_path).exists():
                 with contextlib.suppress(builtins.BaseException):
                     pathlib.Path(temp_path).unlink()
+            raise
 
     def _get_metadata_path(self) -> str:
         """Get the path to the metadata file.
-- 
2.43.0


From ae08c5ff075ab3cd114894f4053e5428070d399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 42/57] fix: clear the disk cache index first and raise when
 that fails

---
 dattri/algorithm/block_projected_if/offload/disk.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index b35a7c5..c0a9695 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -223,11 +223,12 @@ class DiskOffloadManager(Offload):
         for subdir in ["grad", "test", "ifvp", "precond"]:
             subdir_path = pathlib.Path(self.cache_dir) / subdir
             if subdir_path.exists():
-                for file_path in subdir_path.iterdir():
-                    try:
-                        file_path.unlink()
-                    except OSError as e:  # noqa: PERF203 - Exception needed for file cleanup
-                        logger.warning("Error removing %s: %s", file_path, e)
+                # The index goes first, it must not outlive the data it describes
+                for file_path in sorted(
+                    subdir_path.iterdir(),
+                    key=lambda path: path.suffix != ".json",
+                ):
+                    file_path.unlink()
 
     def wait_for_async_operations(self) -> None:
         """Wait for any pending asynchronous disk operations to complete."""
-- 
2.43.0


From 18a06be4274f86cd3adb34a12894b4dcd66bb51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 43/57] fix: drop the removed parameter from the offload
 interface's documentation

---
 dattri/algorithm/block_projected_if/offload/offload.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/offload.py b/dattri/algorithm/block_projected_if/offload/offload.py
index 0d8f268..c72284b 100644
--- a/dattri/algorithm/block_projected_if/offload/offload.py
+++ b/dattri/algorithm/block_projected_if/offload/offload.py
@@ -120,7 +120,6 @@ class Offload(ABC):
         Args:
             data_type: Type of data to load ("gradients" or "ifvp")
             batch_size: Batch size
-            num_workers: Number of worker processes
             pin_memory: Whether to pin memory
             batch_range: Optional range of batches to include
             is_test: Whether to load test data
-- 
2.43.0


From 46e36f2745032316a1a0f2b3367a1a0fef6465f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 44/57] fix: raise when the chunk index cannot be read

---
 .../offload/disk_io/prefetch_dataset.py       | 47 +++++++++----------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index 6137a6b..07ec841 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -103,33 +103,28 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         )
 
         for chunk_filename in chunk_files:
-            try:
-                # Load chunk metadata
-                metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
-                    chunk_path,
-                    chunk_filename,
-                )
-
-                # Check if chunk contains batches in our range
-                if self.batch_range is not None:
-                    start_batch, end_batch = self.batch_range
-                    chunk_batches = [b["batch_idx"] for b in metadata["batches"]]
-
-                    # Skip chunks that don't overlap with our range
-                    if not any(start_batch <= idx < end_batch for idx in chunk_batches):
-                        continue
-
-                chunk_info.append(
-                    {
-                        "chunk_filename": chunk_filename,
-                        "chunk_path": chunk_path,
-                        "metadata": metadata,
-                    },
-                )
+            # Load chunk metadata
+            metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
+                chunk_path,
+                chunk_filename,
+            )
 
-            except Exception:
-                logger.exception("Error loading chunk %s", chunk_filename)
-                continue
+            # Check if chunk contains batches in our range
+            if self.batch_range is not None:
+                start_batch, end_batch = self.batch_range
+                chunk_batches = [b["batch_idx"] for b in metadata["batches"]]
+
+                # Skip chunks that don't overlap with our range
+                if not any(start_batch <= idx < end_batch for idx in chunk_batches):
+                    continue
+
+            chunk_info.append(
+                {
+                    "chunk_filename": chunk_filename,
+                    "chunk_path": chunk_path,
+                    "metadata": metadata,
+                },
+            )
 
         # Sort by chunk filename for consistency
         chunk_info.sort(key=operator.itemgetter("chunk_filename"))
-- 
2.43.0


From 84692196abc91327de79bec7bf7cdf4a81e7678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 45/57] fix: raise when self-attribution finds no readable
 batch metadata

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 1019caa..0973213 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -632,6 +632,9 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         if not self.metadata.batch_info:
             self.metadata._load_metadata_if_exists()
+            if not self.metadata.batch_info:
+                msg = "No batch metadata found. Call cache first."
+                raise ValueError(msg)
 
         # Synchronize layer dimensions
         self._sync_layer_dims()
-- 
2.43.0


From c9cc69ece0a05bfd2ccba87a1a0372361d4031cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 46/57] fix: raise when stored gradients do not cover the
 training set

---
 .../block_projected_if/block_projected_if.py  | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 0973213..e1ed99e 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -35,6 +35,23 @@ from dattri.params.projection import GeneralProjectionParams
 logger = logging.getLogger(__name__)
 
 
+def _check_complete(missing_batches: set) -> None:
+    """Check that stored gradients were found for every training batch.
+
+    Args:
+        missing_batches: Indices of the training batches without stored gradients
+
+    Raises:
+        RuntimeError: If there are such batches.
+    """
+    if missing_batches:
+        msg = (
+            "No stored gradients found for training batches "
+            f"{sorted(missing_batches)}. Call cache again."
+        )
+        raise RuntimeError(msg)
+
+
 class BlockProjectedIFAttributor(BaseAttributor):
     """Block-Projected Influence Function Attributor.
 
@@ -648,6 +665,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         batch_to_sample_mapping = self.metadata.get_batch_to_sample_mapping()
         total_samples = self.metadata.get_total_samples()
         self_influence = torch.zeros(total_samples, device="cpu")
+        missing_batches = set(batch_to_sample_mapping)
 
         # Use tensor dataloaders for both gradients and IFVP
         grad_dataloader = self.offload_manager.create_gradient_dataloader(
@@ -693,9 +711,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
                     # Compute dot product
                     batch_influence = torch.sum(batch_grad * batch_ifvp, dim=1).cpu()
                     self_influence[sample_start:sample_end] = batch_influence
+                    missing_batches.discard(batch_idx)
 
                 torch.cuda.empty_cache()
 
+        _check_complete(missing_batches)
         return self_influence
 
     def attribute(  # noqa: PLR0914 - Complex attribution computation requires multiple local variables for dataloader management and tensor processing
@@ -790,6 +810,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         logger.info("Starting influence computation")
 
+        missing_batches = set(batch_to_sample_mapping)
+
         # Configure test batching for memory efficiency
         test_batch_size = min(32, test_sample_count)
 
@@ -824,11 +846,14 @@ class BlockProjectedIFAttributor(BaseAttributor):
                     if_score[train_start:train_end, test_start:test_end] = (
                         batch_scores.to(if_score.device)
                     )
+                    missing_batches.discard(batch_idx)
 
                 torch.cuda.empty_cache()
 
             torch.cuda.empty_cache()
 
+        _check_complete(missing_batches)
+
         logger.info(
             "Attribution computation completed. Result shape: %s",
             if_score.shape,
-- 
2.43.0


From 8dde15f30ca40d7f21efb8ac466c7ffd1edc411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 47/57] fix: project parameters chunk by chunk in
 ChunkedCudaProjector.dict_project

---
 dattri/func/projection.py | 70 +++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index b03e470..e3e9f8d 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -726,10 +726,11 @@ class ChunkedCudaProjector:
             dtype=self.dtype,
         )
         pointer = 0
-        # iterate over feature dimensions, keep a counter of #dim so far, and when prev
-        # chunk reaches max_chunk_size, project and accumulate.
+        # iterate over feature dimensions, keep a counter of #dim so far, and when
+        # the present chunk is full, project and accumulate.
         projector_index = 0
         vector_dim = 1
+        msg = "Number of accumulated #dim does not match the #feature dim of the chunks."
         for _, p in enumerate(features.values()):
             # check the shape of p, if vector then unsqueeze.
             if len(p.shape) <= vector_dim:
@@ -737,48 +738,37 @@ class ChunkedCudaProjector:
             else:
                 p_flat = p.data.flatten(start_dim=1)
 
-            feature_dim_size = p_flat.size(1)
-            # if current accumulated params exceed max_chunk_size,
-            # then stop accumulation.
-            if pointer + feature_dim_size > self.max_chunk_size:
-                # fill remaining entries with 0
-                if pointer != self.dim_per_chunk[projector_index]:
-                    msg = "Current number of accumulated #dim does not match \
-                    the #feature dim of current chunk."
+            actual_bs = min(self.ch_input.size(0), p_flat.size(0))
+            start = 0
+            # one parameter may end a chunk and begin the next
+            while start < p_flat.size(1):
+                if projector_index == len(self.dim_per_chunk):
                     raise ValueError(msg)
-                # project and accumulate
-                ch_output.add_(
-                    self.projector_per_chunk[projector_index].project(
-                        self.ch_input[:, :pointer].contiguous(),
-                        ensemble_id=ensemble_id,
-                    ),
+                size = min(
+                    p_flat.size(1) - start,
+                    self.dim_per_chunk[projector_index] - pointer,
                 )
-                # reset counter
-                pointer = 0
-                projector_index += 1
-
-            # continue accumulation
-            actual_bs = min(self.ch_input.size(0), p_flat.size(0))
-            self.ch_input[:actual_bs, pointer : pointer + feature_dim_size].copy_(
-                p_flat,
-            )
-            pointer += feature_dim_size
-
-        # at the end, we need to project remaining items
-        # fill remaining entries with 0
-        if pointer != self.dim_per_chunk[projector_index]:
-            msg = "Current number of accumulated #dim does not match \
-                    the #feature dim of current chunk."
+                self.ch_input[:actual_bs, pointer : pointer + size].copy_(
+                    p_flat[:, start : start + size],
+                )
+                pointer += size
+                start += size
+
+                if pointer == self.dim_per_chunk[projector_index]:
+                    # project and accumulate
+                    ch_output[:actual_bs].add_(
+                        self.projector_per_chunk[projector_index].project(
+                            self.ch_input[:actual_bs, :pointer].contiguous(),
+                            ensemble_id=ensemble_id,
+                        ),
+                    )
+                    # reset counter
+                    pointer = 0
+                    projector_index += 1
+
+        if projector_index != len(self.dim_per_chunk):
             raise ValueError(msg)
 
-        # project and accumulate
-        ch_output[:actual_bs].add_(
-            self.projector_per_chunk[projector_index].project(
-                self.ch_input[:actual_bs, :pointer].contiguous(),
-                ensemble_id=ensemble_id,
-            ),
-        )
-
         return ch_output[:actual_bs]
 
     def project(self, features: Tensor, ensemble_id: int) -> Tensor:
-- 
2.43.0


From e9fb4a475d105ccada164d10f7f7d3c157a39e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 48/57] fix: flatten only trainable parameters for full
 gradients in DVEmb

---
 dattri/algorithm/dvemb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index fa2d25a..a8b4c86 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -435,7 +435,11 @@ class DVEmbAttributor:
             grad_fn = self.task.get_grad_loss_func(in_dims=in_dims)
 
         model_params = flatten_params(
-            {k: v.detach() for k, v in self.model.named_parameters()},
+            {
+                k: v.detach()
+                for k, v in self.model.named_parameters()
+                if v.requires_grad
+            },
         )
         per_sample_grads = grad_fn(model_params, batch_data_tensors)
 
-- 
2.43.0


From 5d05bfac0623f1c36c954039241c2f4273038dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 49/57] fix: load the whole models that retrain_loo saves

---
 dattri/metric/ground_truth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/metric/ground_truth.py b/dattri/metric/ground_truth.py
index 85373bd..c9cacc8 100644
--- a/dattri/metric/ground_truth.py
+++ b/dattri/metric/ground_truth.py
@@ -84,7 +84,8 @@ def calculate_loo_ground_truth(
     model_indices = torch.empty(length_dir)
     for dir_cnt, model_file in enumerate(model_dirs_sorted):
         model_path = Path(retrain_dir) / model_file / "model_weights.pt"
-        model = torch.load(model_path)
+        # The whole model is saved by retrain_loo, not only the weights.
+        model = torch.load(model_path, weights_only=False)
         # Calculate target function values.
         values = target_func(model, test_dataloader)
         loo_results[dir_cnt, :] = values
-- 
2.43.0


From 48f8799bb75d730afcaeb36425ba198e196b5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 50/57] fix: pair leave-one-out ground truth with the recorded
 samples in loo_corr

---
 dattri/metric/metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/metric/metrics.py b/dattri/metric/metrics.py
index 93d1ecc..ca50644 100644
--- a/dattri/metric/metrics.py
+++ b/dattri/metric/metrics.py
@@ -100,8 +100,9 @@ def loo_corr(
             metric values and their corresponding p-values. Both tensors have the
             shape (num_test_samples,).
     """
-    score = score.cpu()
-    gt_values, _ = ground_truth
+    gt_values, indices = ground_truth
+    # each model in the ground truth is paired with the sample removed from it
+    score = score.cpu()[indices.long().cpu()]
     num_test_samples = score.shape[1]
 
     loo_corr = torch.stack(
-- 
2.43.0


From 09f213ed4830c48db02f1c26ab2a9f3811367c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 51/57] fix: translate score positions to dataset indices in
 brittleness

---
 dattri/metric/britteness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 56437ef..3249d49 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -53,7 +53,9 @@ def brittleness(
     k_values = list(search_space)
     if isinstance(scores, torch.Tensor):
         scores = scores.cpu().numpy() if scores.is_cuda else scores.numpy()
-    sorted_indices = np.argsort(scores)[::-1]
+    # one score per training sample, in the order of the sampler
+    sorted_positions = np.argsort(scores.reshape(-1))[::-1]
+    sorted_indices = np.asarray(train_loader.sampler.indices)[sorted_positions]
     for k in tqdm(
         k_values,
         desc="Calculating brittleness",
-- 
2.43.0


From 6b30e7723c5a0748b0c806f2c563aac9640ecff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 52/57] fix: record model directories as plain strings in
 retrain_loo metadata

---
 dattri/model_util/retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 28f492d..5306757 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -125,7 +125,7 @@ def retrain_loo(
         # Call the user specified train_func.
         model = train_func(modified_dataloader, seed=seed, **kwargs)
         # Update the metadata.
-        metadata["map_index_dir"][index] = model_dir
+        metadata["map_index_dir"][index] = str(model_dir)
         torch.save(model, weights_dir)
 
     metadata_file = Path(path) / "metadata.yml"
-- 
2.43.0


From d9b68e2acc982f30aca3d9c9739c181543a97d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 53/57] fix: write complete metadata for retrain_lds runs split
 into partitions

---
 dattri/model_util/retrain.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 5306757..c421b5d 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -229,7 +229,6 @@ def retrain_lds(
     data_length = len(dataloader.sampler)
     subset_length = int(data_length * subset_ratio)
 
-    subset_dir_map = {}
     rng = np.random.default_rng(seed)  # this can also handle seed=None
 
     # seed control
@@ -267,23 +266,23 @@ def retrain_lds(
             model_path.parent.mkdir(parents=True, exist_ok=True)
             torch.save(model.state_dict(), model_path)
 
-        # Save the subset directory
-        subset_dir_map[i] = str(path / str(i))
-
     # Save metadata
     if (
         total_num_subsets == 0  # noqa: PLR1714
-        or (start_id + 1) * num_subsets == total_num_subsets
+        or start_id + num_subsets == total_num_subsets
     ):
         # Create metadata to save
         metadata = {
             "mode": "lds",
             "data_length": data_length,
             "train_func": train_func.__name__,
-            "num_subsets": (start_id + 1) * num_subsets,
+            "num_subsets": start_id + num_subsets,
             "subset_ratio": subset_ratio,
             "num_runs_per_subset": num_runs_per_subset,
-            "subset_dir_map": subset_dir_map,
+            # the subsets before start_id are retrained by other partitions
+            "subset_dir_map": {
+                i: str(path / str(i)) for i in range(start_id + num_subsets)
+            },
         }
         with (path / "metadata.yml").open("w") as f:
             yaml.safe_dump(metadata, f)
-- 
2.43.0


From ac42e14a89ccf7589b9b9f8bbb7233d92800b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 54/57] fix: retrain on the samples that the dataloader goes
 through

---
 dattri/model_util/retrain.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index c421b5d..a7941b7 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -21,6 +21,26 @@ from torch.utils.data import DataLoader, Subset
 from tqdm import tqdm
 
 
+def _dataset_indices(
+    dataloader: torch.utils.data.DataLoader,
+    positions: List[int],
+) -> List[int]:
+    """Find the samples of the dataset that some samples of the dataloader are.
+
+    Args:
+        dataloader (torch.utils.data.DataLoader): The dataloader used for training,
+            which may go through a part of its dataset only.
+        positions (List[int]): The positions of the samples in the dataloader.
+
+    Returns:
+        List[int]: The indices of these samples in the dataset.
+    """
+    sampler_indices = getattr(dataloader.sampler, "indices", None)
+    if sampler_indices is None:
+        return positions
+    return [int(sampler_indices[position]) for position in positions]
+
+
 def retrain_loo(
     train_func: Callable,
     dataloader: torch.utils.data.DataLoader,
@@ -116,7 +136,10 @@ def retrain_loo(
             model_dir.mkdir(parents=True)
         # Create a subset of the dataset.
         weights_dir = Path(model_dir) / "model_weights.pt"
-        dataset_subset = Subset(dataloader.dataset, remaining_indices)
+        dataset_subset = Subset(
+            dataloader.dataset,
+            _dataset_indices(dataloader, remaining_indices),
+        )
         # Create a new DataLoader with this subset.
         modified_dataloader = DataLoader(
             dataset_subset,
@@ -244,7 +267,10 @@ def retrain_lds(
             rng = np.random.default_rng(seed + i)
         indices = rng.choice(data_length, subset_length, replace=False)
         subset_dataloader = torch.utils.data.DataLoader(
-            dataset=torch.utils.data.Subset(dataloader.dataset, indices),
+            dataset=torch.utils.data.Subset(
+                dataloader.dataset,
+                _dataset_indices(dataloader, indices),
+            ),
             batch_size=dataloader.batch_size,
             shuffle=True,
         )
-- 
2.43.0


From 10c4f41ef8104a32203a7bf5f4f2cdc501e13d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 55/57] fix: pass only seeds that the training function can use
 when retraining

---
 dattri/model_util/retrain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index a7941b7..6c7eb19 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -111,6 +111,7 @@ def retrain_loo(
     if seed is not None:
         # Manually set the seed.
         torch.manual_seed(seed)
+        kwargs["seed"] = seed
 
     if dataloader.sampler is not None:
         all_indices = list(range(len(dataloader.sampler)))
@@ -146,7 +147,7 @@ def retrain_loo(
             batch_size=dataloader.batch_size,
         )
         # Call the user specified train_func.
-        model = train_func(modified_dataloader, seed=seed, **kwargs)
+        model = train_func(modified_dataloader, **kwargs)
         # Update the metadata.
         metadata["map_index_dir"][index] = str(model_dir)
         torch.save(model, weights_dir)
@@ -231,9 +232,10 @@ def retrain_lds(
         ValueError: If `total_num_subsets` is negative.
         ValueError: If `num_subsets` does not divide `total_num_subsets`.
     """
-    # generate a random seed if seed is not explicitly provided
+    # generate a random seed if seed is not explicitly provided, small enough for
+    # every random number generator
     if seed is None:
-        seed = random.getrandbits(64)
+        seed = random.getrandbits(31)
 
     # Check that num_subsets and total_num_subsets are valid
     if total_num_subsets < 0:
-- 
2.43.0


From 4bebf6164f1ec55062921188f5d2e9ad7738b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 56/57] fix: retrain by default for the samples that the
 sampler goes through

---
 dattri/script/dattri_retrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/script/dattri_retrain.py b/dattri/script/dattri_retrain.py
index ed18c3f..26eb654 100644
--- a/dattri/script/dattri_retrain.py
+++ b/dattri/script/dattri_retrain.py
@@ -198,9 +198,9 @@ def main() -> None:
     )
 
     if args.partition[1] is None:
-        args.partition[1] = len(dataset_train) if args.mode == "loo" else 100
+        args.partition[1] = len(train_loader.sampler) if args.mode == "loo" else 100
     if args.partition[2] is None:
-        args.partition[2] = len(dataset_train) if args.mode == "loo" else 100
+        args.partition[2] = len(train_loader.sampler) if args.mode == "loo" else 100
 
     if args.mode == "lds":
         kwargs = {}
-- 
2.43.0


From 351e4b051a2ab576278b253f0a9df8d731e178b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 57/57] fix: offer the mlp model that the mnist_mlp setting
 needs

---
 dattri/script/dattri_retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/script/dattri_retrain.py b/dattri/script/dattri_retrain.py
index 26eb654..3e1c91d 100644
--- a/dattri/script/dattri_retrain.py
+++ b/dattri/script/dattri_retrain.py
@@ -32,7 +32,7 @@ from dattri.benchmark.datasets.mnist import (
 )
 from dattri.model_util.retrain import retrain_lds, retrain_loo
 
-SUPPORTED_MODELS = ["lr", "resnet18", "resnet9", "musictransformer"]
+SUPPORTED_MODELS = ["lr", "mlp", "resnet18", "resnet9", "musictransformer"]
 
 SUPPORTED_SETTINGS = {
     "mnist_lr": train_mnist_lr,
-- 
2.43.0

