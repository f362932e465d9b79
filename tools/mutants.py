"""Variants for tools/mut.py: (id, properties, edits, expectation)."""
A = "dattri/algorithm/"
M = []


def m(id, props, edits, expect="bad", **k):
    if isinstance(props, str):
        props = [props]
    if isinstance(edits, tuple):
        edits = [edits]
    M.append(dict(id=id, props=props, edits=edits, expect=expect, **k))


# ---- C01
m("c01-tracin-col-bs", "C01", (A + "tracin.py", "col_st = test_batch_idx * test_dataloader.batch_size", "col_st = test_batch_idx * train_dataloader.batch_size"))
m("c01-tracin-colend", "C01", (A + "tracin.py", "len(test_dataloader.sampler),\n                    )\n                    # acc", "len(train_dataloader.sampler),\n                    )\n                    # acc"))
m("c01-tracin-swap", "C01", (A + "tracin.py", "train_batch_grad @ test_batch_grad.T * ckpt_weight", "test_batch_grad @ train_batch_grad.T * ckpt_weight"))
m("c01-tracin-idx", "C01", (A + "tracin.py", "tda_output[row_st:row_ed, col_st:col_ed] += (\n                            (train", "tda_output[col_st:col_ed, row_st:row_ed] += (\n                            (train"))
m("c01-tracin-self-off", "C01", (A + "tracin.py", "(train_batch_idx + 1) * train_dataloader.batch_size,\n                    len(train_dataloader.sampler),\n                )\n                if", "(train_batch_idx + 1) * train_dataloader.batch_size - 1,\n                    len(train_dataloader.sampler),\n                )\n                if"))
m("c01-base-shape", "C01", (A + "base.py", "size=(len(train_dataloader.sampler), len(test_dataloader.sampler))", "size=(len(test_dataloader.sampler), len(train_dataloader.sampler))"))
m("c01-base-dataset", "C01", (A + "base.py", "size=(len(train_dataloader.sampler), len(test_dataloader.sampler))", "size=(len(train_dataloader.dataset), len(test_dataloader.sampler))"))
m("c01-base-denom", "C01", (A + "base.py", "@ test_batch_rep.T / denom.unsqueeze(-1)", "@ test_batch_rep.T / denom.unsqueeze(0)"))
m("c01-trak-noT", "C01", (A + "trak.py", "return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T", "return running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)"))
m("c01-trak-unsq", "C01", (A + "trak.py", "return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T", "return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(1)).T"))
m("c01-rps-swap", "C01", (A + "rps.py", "return intermediate_x_train @ intermediate_x_test.T * alpha", "return intermediate_x_test @ intermediate_x_train.T * alpha"))
m("c01-rps-swap2", "C01", (A + "rps.py", "return intermediate_x_train @ intermediate_x_test.T * alpha", "return intermediate_x_train @ intermediate_x_train.T * alpha"))
m("c01-knn-idx", "C01", (A + "data_shapley.py", "col_st = train_batch_idx * train_dataloader.batch_size", "col_st = train_batch_idx * test_dataloader.batch_size"))
m("c01-knn-dist", "C01", (A + "data_shapley.py", "self.distance_func(test_batch_data, train_batch_data)", "self.distance_func(train_batch_data, test_batch_data)"))
m("c01-enum1", "C01", (A + "tracin.py", """                    desc="calculating gradient of training set...",
                    leave=False,
                ),
            ):""", """                    desc="calculating gradient of training set...",
                    leave=False,
                ), start=1,
            ):"""))
m("c01-q-running", "C01", (A + "tracin.py", """                    row_st = train_batch_idx * train_dataloader.batch_size
                    row_ed = min(
                        (train_batch_idx + 1) * train_dataloader.batch_size,
                        len(train_dataloader.sampler),
                    )

                    col""", """                    row_st = train_batch_idx * train_dataloader.batch_size
                    row_ed = row_st + train_batch_grad.shape[0]

                    col"""), "quiet")
m("c01-q-hi", "C01", (A + "base.py", """                    row_ed = min(
                        (train_batch_idx + 1) * train_dataloader.batch_size,
                        len(train_dataloader.sampler),
                    )
""", """                    n_train = len(train_dataloader.sampler)
                    row_ed = row_st + train_dataloader.batch_size
                    if row_ed > n_train:
                        row_ed = n_train
"""), "quiet")
m("c01-q-helper", "C01", [(A + "base.py", """                    row_ed = min(
                        (train_batch_idx + 1) * train_dataloader.batch_size,
                        len(train_dataloader.sampler),
                    )
""", """                    row_st, row_ed = _span(train_batch_idx, train_dataloader)
"""), (A + "base.py", "class BaseInnerProductAttributor", """def _span(i, loader):
    bs = loader.batch_size
    start = i * bs
    return start, min(start + bs, len(loader.sampler))


class BaseInnerProductAttributor""")], "quiet")
m("c01-q-cat", "C01", (A + "base.py", "train_batch_rep @ test_batch_rep.T / denom", "torch.matmul(train_batch_rep, test_batch_rep.transpose(0, 1)) / denom"), "quiet")
m("c01-q-while", "C01", [(A + "data_shapley.py", """        for test_batch_idx, test_batch_data in enumerate(
            tqdm(
                test_dataloader,
                desc="fitting KNN...",
                leave=False,
            ),
        ):
""", """        test_batch_idx = -1
        for test_batch_data in test_dataloader:
            test_batch_idx += 1
""")], "quiet")

# ---- C02
T_ = A + "tracin.py"; K_ = A + "trak.py"; B_ = A + "base.py"; F_ = A + "influence_function.py"; D_ = A + "dvemb.py"; R_ = A + "rps.py"
TK = "dattri/task.py"; BL = A + "block_projected_if/"
m("c02-base-train-target", "C02", (B_, "grad_loss_func = self.task.get_grad_loss_func(", "grad_loss_func = self.task.get_grad_target_func("))
m("c02-base-test-loss", "C02", (B_, "return self.task.get_grad_target_func(", "return self.task.get_grad_loss_func("))
m("c02-tracin-train", "C02", (T_, "grad_t = self.grad_loss_func(parameters, train_batch_data)", "grad_t = self.grad_target_func(parameters, train_batch_data)"))
m("c02-tracin-test", "C02", (T_, "grad_t = self.grad_target_func(parameters, test_batch_data)", "grad_t = self.grad_loss_func(parameters, test_batch_data)"))
m("c02-tracin-layer", "C02", (T_, "self.grad_loss_func = self.task.get_grad_loss_func(\n                    in_dims=(None, 0),\n                    layer_name", "self.grad_loss_func = self.task.get_grad_target_func(\n                    in_dims=(None, 0),\n                    layer_name"))
m("c02-trak-cache", "C02", (K_, "grad_t = self.grad_loss_func(parameters, train_batch_data)", "grad_t = self.grad_target_func(parameters, train_batch_data)"))
m("c02-cg-target", "C02", (F_, "self.task.get_loss_func(", "self.task.get_target_func("))
m("c02-lissa-target", "C02", (F_, "self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),", "self.task.get_target_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),"))
m("c02-ekfac-target", "C02", (F_, "func = partial(self.task.get_loss_func(), ", "func = partial(self.task.get_target_func(), "))
m("c02-task-swap", "C02", (TK, "self.target_func = flatten_func(self.model)(target_func)", "self.target_func = flatten_func(self.model)(loss_func)"))
m("c02-task-grad", "C02", (TK, "grad(self.target_func),", "grad(self.loss_func),"))
m("c02-q-alias", "C02", (T_, "grad_t = self.grad_loss_func(parameters, train_batch_data)", "train_fn = self.grad_loss_func\n                grad_t = train_fn(parameters, train_batch_data)"), "quiet")
m("c02-q-helper", "C02", [(B_, """        return grad_loss_func(model_params, data)
""", """        return self._apply(grad_loss_func, model_params, data)

    @staticmethod
    def _apply(fn, params, data):
        return fn(params, data)
""")], "quiet")
m("c02-q-getter", "C02", (B_, "grad_loss_func = self.task.get_grad_loss_func(", "getter = self.task.get_grad_loss_func\n        grad_loss_func = getter("), "quiet")

# ---- C03
m("c03-base-ckpt0", "C03", (B_, "model_params, _ = self.task.get_param(ckpt_idx, layer_name=self.layer_name)\n        grad_loss_func", "model_params, _ = self.task.get_param(0, layer_name=self.layer_name)\n        grad_loss_func"))
m("c03-base-skip", "C03", (B_, "for checkpoint_idx in range(len(self.task.get_checkpoints())):", "for checkpoint_idx in range(1, len(self.task.get_checkpoints())):"))
m("c03-base-norun", "C03", (B_, "            tda_output *= checkpoint_idx\n", ""))
m("c03-base-nodiv", "C03", (B_, "            tda_output /= checkpoint_idx + 1\n", ""))
m("c03-base-div", "C03", (B_, "            tda_output /= checkpoint_idx + 1\n", "            tda_output /= max(checkpoint_idx, 1)\n"))
m("c03-base-assign", "C03", (B_, "tda_output[row_st:row_ed, col_st:col_ed] += (", "tda_output[row_st:row_ed, col_st:col_ed] = ("))
m("c03-tracin-wt", "C03", (T_, "(train_batch_grad @ test_batch_grad.T * ckpt_weight)", "(train_batch_grad @ test_batch_grad.T)"))
m("c03-tracin-wt2", "C03", (T_, "@ normalize(test_batch_grad).T\n                                * ckpt_weight", "@ normalize(test_batch_grad).T\n                                * ckpt_weight ** 2"))
m("c03-tracin-w0", "C03", (T_, "(train_batch_grad @ test_batch_grad.T * ckpt_weight)", "(train_batch_grad @ test_batch_grad.T * self.weight_list[0])"))
m("c03-tracin-layerck", "C03", (T_, "layer_name=self.layer_name,\n                    ckpt_idx=ckpt_idx,\n                )\n                self.grad_loss_func", "layer_name=self.layer_name,\n                    ckpt_idx=0,\n                )\n                self.grad_loss_func"))
m("c03-trak-stat", "C03", (K_, "self.inv_XTX_XT_list[ckpt_idx]", "self.inv_XTX_XT_list[-1]"))
m("c03-trak-stat0", "C03", (K_, "self.inv_XTX_XT_list[ckpt_idx]", "self.inv_XTX_XT_list[0]"))
m("c03-trak-Q", "C03", (K_, "running_Q = running_Q * running_count + Q\n            running_count", "running_Q = running_Q + Q\n            running_count"))
m("c03-trak-count", "C03", (K_, "            running_count += 1  # noqa: SIM113\n            if train_dataloader is not None:\n                running_Q /= running_count\n            running_xinv_XTX_XT /= running_count", "            if train_dataloader is not None:\n                running_Q /= running_count + 1\n            running_xinv_XTX_XT /= running_count + 1"))
m("c03-trak-prob", "C03", (K_, "full_parameters, _ = self.task.get_param(ckpt_idx=ckpt_idx)", "full_parameters, _ = self.task.get_param(ckpt_idx=0)"))
m("c03-datainf-stat", "C03", (F_, "self._cached_train_reps[ckpt_idx],", "self._cached_train_reps[0],"))
m("c03-arnoldi-stat", "C03", (F_, "return self.arnoldi_projectors[ckpt_idx](test_rep).detach()", "return self.arnoldi_projectors[-1](test_rep).detach()"))
m("c03-arnoldi-params", "C03", (F_, "model_params, _ = self.task.get_param(i, layer_name=self.layer_name)", "model_params, _ = self.task.get_param(0, layer_name=self.layer_name)"))
m("c03-load", "C03", (TK, "            or self.current_checkpoint_idx != ckpt_idx\n", "            or self.current_checkpoint_idx < ckpt_idx\n"))
m("c03-load2", "C03", (TK, "                self.checkpoints[ckpt_idx],\n            )\n            self.current", "                self.checkpoints[ckpt_idx - 1],\n            )\n            self.current"))
m("c03-load3", "C03", (TK, "            self.current_checkpoint_idx = ckpt_idx\n            self.named_parameters = {", "            self.current_checkpoint_idx = ckpt_idx\n            self.named_parameters = self.named_parameters if hasattr(self, 'named_parameters') else {"))
m("c03-q-enum", "C03", (B_, "for checkpoint_idx in range(len(self.task.get_checkpoints())):", "for checkpoint_idx, _ in enumerate(self.task.get_checkpoints()):"), "quiet")
m("c03-q-mean", "C03", [(B_, "            tda_output *= checkpoint_idx\n            for", "            for"), (B_, "            tda_output /= checkpoint_idx + 1\n\n        return", "        tda_output /= len(self.task.get_checkpoints())\n\n        return")], "quiet")
m("c03-q-weight", "C03", (T_, "(train_batch_grad @ test_batch_grad.T * ckpt_weight)", "(ckpt_weight * (train_batch_grad @ test_batch_grad.T))"), "quiet")
m("c03-q-range", "C03", (K_, "for ckpt_idx in range(len(self.task.get_checkpoints())):", "n_ckpts = len(self.task.get_checkpoints())\n        for ckpt_idx in range(n_ckpts):"), "quiet")
m("c03-q-zip", "C03", (T_, """for ckpt_idx, ckpt_weight in zip(
            range(len(self.task.get_checkpoints())),
            self.weight_list,
        ):""", """for ckpt_idx, ckpt_weight in enumerate(self.weight_list):"""), "quiet")

# ---- C04
m("c04-base-params", "C04", (B_, "model_params, _ = self.task.get_param(ckpt_idx, layer_name=self.layer_name)\n        grad_loss_func", "model_params, _ = self.task.get_param(ckpt_idx)\n        grad_loss_func"))
m("c04-base-func", "C04", (B_, "return self.task.get_grad_target_func(\n            layer_name=self.layer_name,\n", "return self.task.get_grad_target_func(\n"))
m("c04-cg", "C04", (F_, "self.task.get_loss_func(\n                        layer_name=self.layer_name,\n                        ckpt_idx=ckpt_idx,\n", "self.task.get_loss_func(\n                        ckpt_idx=ckpt_idx,\n", 1))
m("c04-tracin-target", "C04", (T_, "                self.grad_target_func = self.task.get_grad_target_func(\n                    in_dims=(None, 0),\n                    layer_name=self.layer_name,\n                    ckpt_idx=ckpt_idx,\n                )\n", ""))
m("c04-trak-cache", "C04", (K_, "                    layer_name=self.layer_name,\n                    ckpt_idx=ckpt_idx,\n                )\n\n            full_train", "                    ckpt_idx=ckpt_idx,\n                )\n\n            full_train"))
m("c04-trak-param", "C04", (K_, "            parameters, _ = self.task.get_param(\n                ckpt_idx=ckpt_idx,\n                layer_name=self.layer_name,\n            )", "            parameters, _ = self.task.get_param(\n                ckpt_idx=ckpt_idx,\n            )", 1))
m("c04-arnoldi", "C04", (F_, "model_params, _ = self.task.get_param(i, layer_name=self.layer_name)", "model_params, _ = self.task.get_param(i)"))
m("c04-split", "C04", (F_, "            layer_name=self.layer_name,\n            layer_split=True,", "            layer_split=True,"))
m("c04-memo", "C04", (TK, """            "in_dims": in_dims,
            "layer_name": layer_name,
            "ckpt_idx": ckpt_idx,
        }
        if self.grad_loss_func_kwargs""", """            "in_dims": in_dims,
            "layer_name": None,
            "ckpt_idx": ckpt_idx,
        }
        if self.grad_loss_func_kwargs"""))
m("c03-memo", "C03", (TK, """            "in_dims": in_dims,
            "layer_name": layer_name,
            "ckpt_idx": ckpt_idx,
        }
        if self.grad_target_func_kwargs""", """            "in_dims": in_dims,
            "layer_name": layer_name,
            "ckpt_idx": self.grad_target_func_kwargs["ckpt_idx"],
        }
        if self.grad_target_func_kwargs"""))
m("c04-task-ln", "C04", (TK, """        if layer_name is not None:
            self._load_checkpoints(ckpt_idx)
            loss_func = partial_param(
                full_param=self.named_parameters,
                layer_name=layer_name,
            )(loss_func)
""", ""))
m("c04-task-param", "C04", (TK, "                for k in layer_name\n                if k in self.named_parameters", "                for k in self.named_parameters"))
m("c04-str", "C04", (TK, "        if isinstance(layer_name, str):\n            layer_name = [layer_name]\n", ""))
m("c04-str2", "C04", ("dattri/func/utils.py", "    if isinstance(layer_name, str):\n        layer_name = [layer_name]\n", ""))
m("c04-q-local", "C04", (B_, "model_params, _ = self.task.get_param(ckpt_idx, layer_name=self.layer_name)\n        grad_loss_func", "layers = self.layer_name\n        model_params = self.task.get_param(ckpt_idx, layer_name=layers)[0]\n        grad_loss_func"), "quiet")
m("c04-q-always", "C04", (T_, "            if self.layer_name is not None:\n                self.grad_target_func = self.task.get_grad_target_func(", "            if True:\n                self.grad_target_func = self.task.get_grad_target_func("), "quiet")
m("c04-q-memo", "C04", (TK, "        if self.grad_loss_func_kwargs != loss_target_func_kwargs:\n", "        changed = self.grad_loss_func_kwargs != loss_target_func_kwargs\n        if changed:\n"), "quiet")
m("c04-q-str", "C04", (TK, "        if isinstance(layer_name, str):\n            layer_name = [layer_name]\n", "        layer_name = [layer_name] if isinstance(layer_name, str) else layer_name\n"), "quiet")

# ---- C16
UT = A + "utils.py"
DV = A + "dvemb.py"
LG, FG, RT = A + "logra.py", A + "factgrass.py", "dattri/model_util/retrain.py"
m("c16-tracin-test", "C16", (T_, "        _check_shuffle(test_dataloader)\n        _check_shuffle(train_dataloader)\n", "        _check_shuffle(train_dataloader)\n"))
m("c16-tracin-self", "C16", (T_, "        _check_shuffle(test_dataloader)\n        _check_shuffle(train_dataloader)\n", "", 1))
m("c16-trak-else", "C16", (K_, "        if train_dataloader is not None:\n            _check_shuffle(train_dataloader)\n", "        if train_dataloader is None:\n            _check_shuffle(test_dataloader)\n"))
m("c16-trak-cache", "C16", (K_, "        _check_shuffle(full_train_dataloader)\n", ""))
m("c16-class", "C16", (UT, "(RandomSampler, SubsetRandomSampler),", "(RandomSampler,),"))
m("c16-type", "C16", (UT, "isinstance(\n        dataloader.sampler,\n        (RandomSampler, SubsetRandomSampler),\n    )", "isinstance(\n        dataloader.batch_sampler,\n        (RandomSampler, SubsetRandomSampler),\n    )"))
m("c16-neg", "C16", (UT, "    if is_shuffling:", "    if is_shuffling and dataloader.batch_size is None:"))
m("c16-dup", "C16", (B_, "        _check_shuffle(train_dataloader)\n        _check_shuffle(test_dataloader)\n", "        _check_shuffle(train_dataloader)\n        _check_shuffle(train_dataloader)\n"))
m("c16-late", "C16", [(BL + "block_projected_if.py", "        _check_shuffle(full_train_dataloader)\n", "")])
m("c16-q-order", "C16", (T_, "        _check_shuffle(test_dataloader)\n        _check_shuffle(train_dataloader)\n", "        for loader in (train_dataloader, test_dataloader):\n            _check_shuffle(loader)\n"), "quiet")
m("c16-q-inline", "C16", (UT, "    is_shuffling = isinstance(\n        dataloader.sampler,\n        (RandomSampler, SubsetRandomSampler),\n    )\n    if is_shuffling:", "    sampler = dataloader.sampler\n    if isinstance(sampler, RandomSampler) or isinstance(sampler, SubsetRandomSampler):"), "quiet")
m("c16-q-early", "C16", (UT, "    if is_shuffling:\n        warnings", "    if not is_shuffling:\n        return\n    if True:\n        warnings"), "quiet")
# ---- C17
m("c17-weights", "C17", (T_, "if len(self.task.get_checkpoints()) != len(self.weight_list):", "if len(self.task.get_checkpoints()) > len(self.weight_list):"))
m("c17-weights-self", "C17", (T_, "if len(self.task.get_checkpoints()) != len(self.weight_list):", "if len(self.task.get_checkpoints()) < len(self.weight_list):", 1))
m("c17-trak", "C17", (K_, "if train_dataloader is None and self.full_train_dataloader is None:", "if train_dataloader is None and test_dataloader is None:"))
m("c17-trak2", "C17", (K_, "if train_dataloader is not None and self.full_train_dataloader is not None:", "if train_dataloader is self.full_train_dataloader:"))
m("c17-relatif", "C17", (B_, 'if relatif_method not in {None, "l", "theta"}:', 'if relatif_method and relatif_method not in {None, "l", "theta"}:'))
m("c17-knn", "C17", ("dattri/algorithm/data_shapley.py", "if train_labels is not None and len(train_labels) != len(\n", "if train_labels is not None and len(train_labels) < len(\n"))
m("c17-knn2", "C17", ("dattri/algorithm/data_shapley.py", "if test_labels is not None and len(test_labels) != len(test_dataloader.sampler):", "if test_labels is not None and len(test_labels) != len(train_dataloader.sampler):"))
m("c17-logra", "C17", (LG, "sqrt_dim * sqrt_dim != dim_per_layer", "sqrt_dim * sqrt_dim > dim_per_layer"))
m("c17-fact", "C17", (FG, "sqrt_intermediate_dim * sqrt_intermediate_dim != intermediate_dim", "sqrt_intermediate_dim**2 != self.proj_params.proj_dim_per_layer"))
m("c17-lds", "C17", (RT, "if total_num_subsets % num_subsets != 0:", "if total_num_subsets % num_subsets > 1:"))
m("c17-lds2", "C17", (RT, "if total_num_subsets < 0:", "if total_num_subsets < -1:"))
m("c17-ekfac", "C17", (F_, "if len(self.task.checkpoints) > 1:", "if len(self.task.checkpoints) > 2:"))
m("c17-dv", "C17", (DV, "if not self.embeddings:", "if self.embeddings is None:"))
m("c17-arnoldi", "C17", (F_, '        if not hasattr(self, "arnoldi_projectors"):\n            error_msg = "The Arnoldi projector has not been cached.\\\n                         Please call cache() first."\n            raise ValueError(error_msg)\n        if relatif', '        if relatif'))
m("c17-q-logra", "C17", (LG, "sqrt_dim = int(math.sqrt(dim_per_layer))\n        if sqrt_dim * sqrt_dim != dim_per_layer:", "sqrt_dim = math.isqrt(dim_per_layer)\n        if sqrt_dim**2 != dim_per_layer:"), "quiet")
m("c17-q-trak", "C17", (K_, "if train_dataloader is None and self.full_train_dataloader is None:", "missing = self.full_train_dataloader is None and train_dataloader is None\n        if missing:"), "quiet")
m("c17-q-weights", "C17", (T_, "if len(self.task.get_checkpoints()) != len(self.weight_list):", "n_ckpts = len(self.task.get_checkpoints())\n        if not n_ckpts == len(self.weight_list):"), "quiet")
# ---- C23
m("c23-drop", "C23", (B_, "                        train_batch_rep @ test_batch_rep.T / denom.unsqueeze(-1)\n                        if denom is not None\n                        else train_batch_rep @ test_batch_rep.T\n", "                        train_batch_rep @ test_batch_rep.T\n"))
m("c23-selfonly-l", "C23", (B_, "                denom = None\n                if relatif_method is not None:", "                denom = None\n                if relatif_method == \"l\":", 1))
m("c23-sqrt", "C23", (B_, ".sum(dim=1).clamp_min(1e-12).sqrt()", ".sum(dim=1).clamp_min(1e-12)"))
m("c23-theta-raw", "C23", (B_, "val = transformed.norm(dim=1).clamp_min(1e-12)", "val = train_batch_rep.norm(dim=1).clamp_min(1e-12)"))
m("c23-theta-axis", "C23", (F_, "val = transformed.norm(dim=1).clamp_min(1e-12)", "val = transformed.norm().clamp_min(1e-12)"))
m("c23-l-gg", "C23", (F_, "val = (test_batch_rep * transformed).sum(dim=1)", "val = (transformed * transformed).sum(dim=1)", 1))
m("c23-swap", "C23", (F_, 'if relatif_method == "l":', 'if relatif_method == "theta":', 0))
m("c23-tr", "C23", (T_, "                                @ normalize(test_batch_grad).T", "                                @ test_batch_grad.T"))
m("c23-tr-dim", "C23", (T_, "normalize(train_batch_grad)", "normalize(train_batch_grad, dim=0)"))
m("c23-tr-neg", "C23", (T_, "                if self.normalized_grad:\n                    tda_output[row_st:row_ed] += (\n                        (torch.ones(row_ed - row_st) * ckpt_weight).detach().cpu()\n                    )\n                else:\n                    tda_output", "                if self.normalized_grad and self.projector_kwargs:\n                    tda_output[row_st:row_ed] += (\n                        (torch.ones(row_ed - row_st) * ckpt_weight).detach().cpu()\n                    )\n                else:\n                    tda_output"))
m("c23-rps", "C23", (R_, "normalize(intermediate_x_train)\n                @ normalize(intermediate_x_test).T", "normalize(intermediate_x_train)\n                @ intermediate_x_test.T"))
m("c23-ckpt", "C23", (B_, "denom = self._compute_denom(\n                        checkpoint_idx,", "denom = self._compute_denom(\n                        0,"))
m("c23-stale", "C23", [(B_, "        for checkpoint_idx in range(len(self.task.get_checkpoints())):\n            tda_output *= checkpoint_idx\n            for train_batch_idx, train_batch_data_ in enumerate(\n                tqdm(\n                    train_dataloader,", "        denom = None\n        for checkpoint_idx in range(len(self.task.get_checkpoints())):\n            tda_output *= checkpoint_idx\n            for train_batch_idx, train_batch_data_ in enumerate(\n                tqdm(\n                    train_dataloader,"), (B_, "                denom = None\n                if relatif_method is not None:", "                if relatif_method is not None and denom is None:")])
m("c23-q-recip", "C23", (B_, "train_batch_rep @ test_batch_rep.T / denom.unsqueeze(-1)\n", "(train_batch_rep / denom.unsqueeze(-1)) @ test_batch_rep.T\n"), "quiet")
m("c23-q-div", "C23", (B_, "                    torch.einsum(\"ij,ij->i\", train_batch_rep, test_batch_rep)\n                    / denom\n", "                    torch.div((train_batch_rep * test_batch_rep).sum(dim=1), denom)\n"), "quiet")
m("c23-q-if", "C23", (B_, """                    tda_output[row_st:row_ed, col_st:col_ed] += (
                        train_batch_rep @ test_batch_rep.T / denom.unsqueeze(-1)
                        if denom is not None
                        else train_batch_rep @ test_batch_rep.T
                    )
""", """                    block = train_batch_rep @ test_batch_rep.T
                    if denom is not None:
                        block = block / denom.unsqueeze(-1)
                    tda_output[row_st:row_ed, col_st:col_ed] += block
"""), "quiet")
m("c23-q-norm", "C23", (B_, "val = transformed.norm(dim=1).clamp_min(1e-12)", "val = (transformed**2).sum(dim=1).sqrt().clamp_min(1e-12)"), "quiet")
m("c23-q-tr", "C23", (T_, "                            (\n                                normalize(train_batch_grad)\n                                @ normalize(test_batch_grad).T\n", "                            (\n                                normalize(train_batch_grad, p=2.0, dim=1)\n                                @ normalize(test_batch_grad).T\n"), "quiet")
# ---- C05
HK = "dattri/model_util/hook.py"
BH = "dattri/algorithm/block_projected_if/core/hook.py"
BC = "dattri/algorithm/block_projected_if/core/compressor.py"
BB = "dattri/algorithm/block_projected_if/block_projected_if.py"
DVP, IFP = "dattri/algorithm/dvemb.py", "dattri/algorithm/influence_function.py"
m("c05-io-plain", "C05", [(HK, "    try:\n        with torch.no_grad():\n            for x, _ in dataloader:\n                _ = model(x.to(device))\n    finally:\n        hook_handle.remove()\n", "    with torch.no_grad():\n        for x, _ in dataloader:\n            _ = model(x.to(device))\n    hook_handle.remove()\n")])
m("c05-io-except", "C05", (HK, "    finally:\n        hook_handle.remove()\n", "    except ValueError:\n        hook_handle.remove()\n        raise\n    hook_handle.remove()\n"))
m("c05-io-cond", "C05", (HK, "        hook_handle.remove()\n", "        if feature_list:\n            hook_handle.remove()\n"))
m("c05-ekfac-overwrite", "C05", (IFP, "handles.append(mod.register_forward_hook(_ekfac_hook))", "handles = [mod.register_forward_hook(_ekfac_hook)]"))
m("c05-ekfac-last", "C05", (IFP, "            for handle in handles:\n                handle.remove()", "            if handles:\n                handles[-1].remove()"))
m("c05-ekfac-early", "C05", (IFP, "        finally:\n            # Remove hooks after preprocessing the FIM\n            for handle in handles:\n                handle.remove()", "        except RuntimeError:\n            for handle in handles:\n                handle.remove()\n            raise\n        for handle in handles:\n            handle.remove()"))
m("c05-dv-late", "C05", [(DVP, "            for h in handles:\n                h.remove()\n\n            # Adjust", "            # Adjust"), (DVP, "            self.learning_rates[epoch].append(learning_rate / len(indices))\n            self.data_indices[epoch].append(indices.cpu())\n\n    def _calculate_full_gradients", "            self.learning_rates[epoch].append(learning_rate / len(indices))\n            self.data_indices[epoch].append(indices.cpu())\n            for h in handles:\n                h.remove()\n\n    def _calculate_full_gradients")])
m("c05-dv-fwd", "C05", (DVP, "            for h in handles:\n                h.remove()\n\n        return caches", "            for h in handles[::2]:\n                h.remove()\n\n        return caches"))
m("c05-dv-split", "C05", (DVP, "        try:\n            # Strict requirements on batch_data\n            batch_data_tensors = [d.to(self.device) for d in batch_data]\n            func = (\n                self.task.original_target_func\n                if is_test\n                else self.task.original_loss_func\n            )\n            loss = func(self.model, batch_data_tensors, self.device)\n", "        batch_data_tensors = [d.to(self.device) for d in batch_data]\n        func = (\n            self.task.original_target_func\n            if is_test\n            else self.task.original_loss_func\n        )\n        loss = func(self.model, batch_data_tensors, self.device)\n        try:\n"))
m("c05-dv-unkept", "C05", (DVP, "            handles.extend(\n                [\n                    layer.register_forward_hook(fwd_hook(i)),\n                    layer.register_full_backward_hook(bwd_hook(i)),\n                ],\n            )", "            handles.append(layer.register_forward_hook(fwd_hook(i)))\n            layer.register_full_backward_hook(bwd_hook(i))"))
m("c05-b-cache", "C05", (BB, "        try:\n            self._store_train_gradients(full_train_dataloader)\n        finally:\n            self._remove_hooks()\n", "        self._store_train_gradients(full_train_dataloader)\n        self._remove_hooks()\n"))
m("c05-b-test", "C05", (BB, "        finally:\n            self._remove_hooks()\n", "        finally:\n            pass\n", 1))
m("c05-b-forget", "C05", (BB, "            self.hook_manager.remove_hooks()\n            self.hook_manager = None\n", "            self.hook_manager = None\n"))
m("c05-b-restore", "C05", (BH, "                module.forward = module._original_forward\n                delattr", "                delattr"))
m("c05-b-enabled", "C05", (BH, "        for module in self.layer_name_to_module.values():\n            if hasattr", "        if not self.hooks_enabled:\n            return\n        for module in self.layer_name_to_module.values():\n            if hasattr"))
m("c05-b-comp", "C05", (BC, "    finally:\n        # Remove temporary hooks\n        for hook in hooks:\n            hook.remove()\n", "    finally:\n        logger.debug(\"captured\")\n    for hook in hooks:\n        hook.remove()\n"))
m("c05-q-stack", "C05", [(HK, "import torch\nfrom torch import Tensor\n", "from contextlib import ExitStack\n\nimport torch\nfrom torch import Tensor\n"), (HK, "    hook_handle = model_layer.register_forward_hook(_forward_hook)\n\n    # perform a forward pass through the dataloader\n    try:\n        with torch.no_grad():\n            for x, _ in dataloader:\n                _ = model(x.to(device))\n    finally:\n        hook_handle.remove()\n", "    with ExitStack() as stack:\n        hook_handle = model_layer.register_forward_hook(_forward_hook)\n        stack.callback(hook_handle.remove)\n        stack.enter_context(torch.no_grad())\n        for x, _ in dataloader:\n            _ = model(x.to(device))\n")], "quiet")
m("c05-q-with", "C05", (HK, "    hook_handle = model_layer.register_forward_hook(_forward_hook)\n\n    # perform a forward pass through the dataloader\n    try:\n        with torch.no_grad():\n            for x, _ in dataloader:\n                _ = model(x.to(device))\n    finally:\n        hook_handle.remove()\n", "    with model_layer.register_forward_hook(_forward_hook), torch.no_grad():\n        for x, _ in dataloader:\n            _ = model(x.to(device))\n"), "quiet")
m("c05-q-except", "C05", (HK, "    finally:\n        hook_handle.remove()\n", "    except BaseException:\n        hook_handle.remove()\n        raise\n    hook_handle.remove()\n"), "quiet")
m("c05-q-dict", "C05", [(IFP, "        handles = []\n        try:\n            for name in self.module_name:", "        handles = {}\n        try:\n            for name in self.module_name:"), (IFP, "handles.append(mod.register_forward_hook(_ekfac_hook))", "handles[name] = mod.register_forward_hook(_ekfac_hook)"), (IFP, "            for handle in handles:\n                handle.remove()", "            for handle in handles.values():\n                handle.remove()")], "quiet")
m("c05-q-comp", "C05", (DVP, "            for h in handles:\n                h.remove()\n\n        return caches", "            self._drop(handles)\n\n        return caches\n\n    @staticmethod\n    def _drop(handles) -> None:\n        while handles:\n            handles.pop().remove()"), "quiet")
m("c05-q-ctx", "C05", [(DVP, "        handles, caches = self._register_factorization_hooks()\n\n        try:\n            # Strict requirements on batch_data\n            batch_data_tensors = [d.to(self.device) for d in batch_data]\n            func = (\n                self.task.original_target_func\n                if is_test\n                else self.task.original_loss_func\n            )\n            loss = func(self.model, batch_data_tensors, self.device)\n            loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size\n            loss.backward()\n        finally:\n            for h in handles:\n                h.remove()\n\n        return caches", "        with self._hooked() as caches:\n            batch_data_tensors = [d.to(self.device) for d in batch_data]\n            func = (\n                self.task.original_target_func\n                if is_test\n                else self.task.original_loss_func\n            )\n            loss = func(self.model, batch_data_tensors, self.device)\n            loss *= batch_data_tensors[0].shape[0]\n            loss.backward()\n        return caches\n\n    @contextmanager\n    def _hooked(self):\n        handles, caches = self._register_factorization_hooks()\n        try:\n            yield caches\n        finally:\n            for h in handles:\n                h.remove()")], "quiet")
m("c05-q-b", "C05", (BH, "            if hasattr(module, \"_original_forward\"):\n                module.forward = module._original_forward\n                delattr(module, \"_original_forward\")", "            original = getattr(module, \"_original_forward\", None)\n            if original is not None:\n                module.forward = original\n                del module._original_forward"), "quiet")
m("c05-q-b2", "C05", [(BH, "                module._original_forward = module.forward\n", "                self._originals.append((module, module.forward))\n"), (BH, "        self.hooks_enabled = True\n", "        self.hooks_enabled = True\n        self._originals = []\n", 0), (BH, "        for module in self.layer_name_to_module.values():\n            if hasattr(module, \"_original_forward\"):\n                module.forward = module._original_forward\n                delattr(module, \"_original_forward\")\n", "        for module, original in self._originals:\n            module.forward = original\n        self._originals = []\n")], "quiet")
# ---- C18
BO = "dattri/algorithm/block_projected_if/offload/"
BM = "dattri/algorithm/block_projected_if/core/metadata.py"
TP, RP = "dattri/algorithm/trak.py", "dattri/algorithm/rps.py"
m("c18-trak-lists", "C18", [(TP, "        inv_XTX_XT_list = []\n        full_train_projected_grad_list = []\n        running_Q = 0", "        inv_XTX_XT_list = getattr(self, \"inv_XTX_XT_list\", [])\n        full_train_projected_grad_list = []\n        running_Q = 0")])
m("c18-trak-q", "C18", (TP, "        running_Q = 0\n        running_count = 0\n        for ckpt_idx", "        running_Q = getattr(self, \"Q\", 0)\n        running_count = 0\n        for ckpt_idx"))
m("c18-rps-warm", "C18", (RP, "        init_theta = getattr(self.model, self.final_linear_layer_name).weight.data\n        # fine-tuning", "        init_theta = getattr(self.model, self.final_linear_layer_name).weight.data\n        init_theta = getattr(self, \"finetuned_theta\", init_theta)\n        # fine-tuning"))
m("c18-rps-once", "C18", [(RP, "        self.full_train_dataloader = None\n\n    def cache", "        self.full_train_dataloader = None\n        self.finetuned_theta = None\n\n    def cache"), (RP, "        # fine-tuning on the full train dataloader\n        self.finetuned_theta = rps_finetune_theta(", "        # fine-tuning on the full train dataloader\n        if self.finetuned_theta is not None:\n            return\n        self.finetuned_theta = rps_finetune_theta(")])
m("c18-arnoldi", "C18", [(IFP, "        self.arnoldi_projectors = []\n", "        if not hasattr(self, \"arnoldi_projectors\"):\n            self.arnoldi_projectors = []\n", 0)])
m("c18-datainf", "C18", (IFP, "        self._cached_train_reps = {}\n", "        if not getattr(self, \"_cached_train_reps\", None):\n            self._cached_train_reps = {}\n", 0))
m("c18-mem", "C18", (BO + "memory.py", "        self.cached_ifvp = {}\n        # Don't clear", "        # Don't clear"))
m("c18-cpu", "C18", (BO + "cpu.py", "        self.cached_gradients = {}\n        self.cached_test_gradients = {}\n        self.preconditioners = [None] * len(self.layer_names)\n        self.cached_ifvp = {}\n        # Don't clear", "        self.cached_ifvp = {}\n        # Don't clear"))
m("c18-disk", "C18", (BO + "disk.py", "for subdir in [\"grad\", \"test\", \"ifvp\", \"precond\"]:\n            subdir_path = pathlib.Path(self.cache_dir) / subdir\n            if", "for subdir in [\"grad\", \"test\", \"precond\"]:\n            subdir_path = pathlib.Path(self.cache_dir) / subdir\n            if"))
m("c18-block", "C18", (BB, "        self.offload_manager.clear_cache()\n", "        if self.full_train_dataloader is None:\n            self.offload_manager.clear_cache()\n"))
m("c18-meta", "C18", (BM, "        with self._metadata_lock:\n            self.batch_info = {}\n            self._pending_batches.clear()\n", "        if self.batch_info:\n            return\n"))
m("c18-dv", "C18", (DVP, "        # Embeddings of an earlier cache are replaced\n        self.embeddings = {}\n", ""))
m("c18-q-trak", "C18", (TP, "        inv_XTX_XT_list = []\n        full_train_projected_grad_list = []\n        running_Q = 0", "        running_Q = 0\n        inv_XTX_XT_list = list()\n        full_train_projected_grad_list = []"), "quiet")
m("c18-q-dv", "C18", (DVP, "        self.embeddings = {}\n\n        # Calculate data", "        self.embeddings.clear()\n\n        # Calculate data"), "quiet")
m("c18-q-mem", "C18", (BO + "memory.py", "        self.cached_ifvp = {}\n        # Don't clear", "        self.cached_ifvp.clear()\n        # Don't clear"), "quiet")
m("c18-q-arn", "C18", (IFP, "        self.arnoldi_projectors = []\n", "        projectors = []\n        self.arnoldi_projectors = projectors\n", 0), "quiet")
m("c18-q-meta", "C18", (BM, "        with self._metadata_lock:\n            self.batch_info = {}\n            self._pending_batches.clear()\n", "        with self._metadata_lock:\n            self.batch_info.clear()\n            self._pending_batches = {}\n"), "quiet")

# ---- C07
FI = "dattri/func/fisher.py"
BLOCKC = "dattri/algorithm/block_projected_if/core/compressor.py"
m("c07-fisher", "C07", (FI, "        a_prev = a_prev_raw\n        if a_prev_raw.ndim == 2:", "        if a_prev_raw.ndim == 2:"))
m("c07-fisher2", "C07", (FI, "        a_prev = a_prev_raw\n        ds_curr", "        ds_curr"))
m("c07-rps", "C07", ("dattri/algorithm/utils.py", "    finetuned_theta = theta.data\n    min_loss", "    min_loss"))
m("c07-dv-epoch", "C07", (DVP, "self.cached_gradients[first_epoch][0].dtype\n\n", "self.cached_gradients[0][0].dtype\n\n"))
m("c07-dv-epoch2", "C07", (DVP, "self.cached_factors[first_epoch][0][0]", "self.cached_factors[0][0][0]"))
m("c07-datainf", "C07", (IFP, "        if not hasattr(self, \"_cached_train_reps\"):", "        if False:"))
m("c07-dv-proj", "C07", (DVP, "            hasattr(self, \"random_projectors\") is False\n            and self.use_factorization\n", "            hasattr(self, \"random_projectors\") is False\n            and self.use_factorization\n            and self.factorization_type == \"kronecker\"\n"))
m("c07-dv-lin", "C07", (DVP, "            self._linear_layers = self._get_target_linear_layers()\n", "            if self.projection_dim_per_layer is None:\n                self._linear_layers = self._get_target_linear_layers()\n"))
m("c07-tracin", "C07", ("dattri/algorithm/tracin.py", "                    elif isinstance(train_batch_data, dict):\n                        feature_batch_size = \\\n                            train_batch_data[list(train_batch_data.keys())[0]].shape[0]  # noqa: RUF015\n", ""))
m("c07-proj-identity", "C07", ("dattri/func/projection.py", "        elif self.proj_type == ProjectionType.identity:\n            result = features\n\n        return result", "\n        return result"))
m("c07-retrain-mode", "C07", ("dattri/script/dattri_retrain.py", "    if args.mode == \"loo\":\n        kwargs = {}\n", "    if args.mode == \"loo\" and args.partition[1] is not None:\n        kwargs = {}\n"))
m("c07-trak-q", "C07", (TP, "        running_Q = 0\n        running_count = 0\n", "        running_count = 0\n"))
m("c07-import", "C07", ("dattri/metric/ground_truth.py", "import yaml\n", ""))
m("c07-compress", "C07", (BLOCKC, "            # Already 2D\n            batch_size = v2.shape[0]\n", "            # Already 2D\n"))
m("c07-grass", "C07", ("dattri/func/projection.py", "    if isinstance(proj_params.proj_type, str):\n        proj_type, grass", "    if proj_params.proj_type.startswith(\"grass\"):\n        proj_type, grass"))
m("c07-q-tracin", "C07", ("dattri/algorithm/tracin.py", "                    elif isinstance(train_batch_data, dict):\n                        feature_batch_size = \\\n", "                    else:\n                        feature_batch_size = \\\n"), "quiet")
m("c07-q-flag", "C07", ("dattri/func/fisher.py", "        a_prev = a_prev_raw\n        if a_prev_raw.ndim == 2:  # noqa: PLR2004\n            a_prev = a_prev_raw.unsqueeze(1)\n\n", "        if a_prev_raw.ndim == 2:  # noqa: PLR2004\n            a_prev = a_prev_raw.unsqueeze(1)\n        if a_prev_raw.ndim != 2:\n            a_prev = a_prev_raw\n\n"), "quiet")
m("c07-q-flag2", "C07", ("dattri/func/fisher.py", "        a_prev = a_prev_raw\n        if a_prev_raw.ndim == 2:  # noqa: PLR2004\n            a_prev = a_prev_raw.unsqueeze(1)\n\n", "        is2d = a_prev_raw.ndim == 2\n        if is2d:\n            a_prev = a_prev_raw.unsqueeze(1)\n        if not is2d:\n            a_prev = a_prev_raw\n\n"), "quiet")
m("c07-q-compress", "C07", (BLOCKC, "        if is_3d:\n            batch_size, seq_length, _hidden_size = input_features.shape\n            input_features = input_features.reshape(-1, _hidden_size)\n        else:\n            batch_size = input_features.shape[0]\n", "        if not is_3d:\n            batch_size = input_features.shape[0]\n        else:\n            batch_size, seq_length, _hidden_size = input_features.shape\n            input_features = input_features.reshape(-1, _hidden_size)\n"), "quiet")

# ---- C08
BA = A + "base.py"; TR = A + "tracin.py"; IFF = A + "influence_function.py"; KN = A + "data_shapley.py"; RP = A + "rps.py"
m("c08-tracin-size", "C08", (TR, "                            feature_batch_size = \\\n                                test_batch_data[list(test_batch_data.keys())[0]].shape[0]  # noqa: RUF015\n", "                            feature_batch_size = len(test_batch_data)\n"))
m("c08-base-dict-unsq", "C08", (BA, "                            k: v.to(self.device).unsqueeze(0)\n                            for k, v in test_batch_data_.items()", "                            k: v.to(self.device)\n                            for k, v in test_batch_data_.items()"))
m("c08-trak-list", "C08", (TP, "                if isinstance(test_data, (tuple, list)):", "                if isinstance(test_data, tuple):"))
m("c08-trak-else", "C08", (TP, "                else:\n                    msg = (\n                        \"We currently only support the train/test data to be \"\n                        \"tuple, list, or dict.\"\n                    )\n                    raise TypeError(msg)\n\n                grad_t = self.grad_loss_func(parameters, train_batch_data)", "                else:\n                    train_batch_data = train_data\n\n                grad_t = self.grad_loss_func(parameters, train_batch_data)"))
m("c08-cg-dict-device", "C08", (IFF, "                full_data = {\n                    k: v.to(self.device) for k, v in full_data_.items()\n                }\n", "                full_data = full_data_\n", 1))
m("c08-tracin-first-moved", "C08", (TR, "                    train_batch_data = tuple(\n                        x.to(self.device) for x in train_batch_data_\n                    )\n", "                    train_batch_data = (\n                        train_batch_data_[0].to(self.device), *train_batch_data_[1:],\n                    )\n"))
m("c08-knn-list", "C08", (KN, "            for train_batch_idx, train_batch_data in enumerate(\n                train_dataloader,\n            ):\n", "            for train_batch_idx, train_batch_data in enumerate(\n                train_dataloader,\n            ):\n                if isinstance(train_batch_data, list):\n                    train_batch_data = train_batch_data[:2]\n"))
m("c08-base-self-type", "C08", (BA, "                elif isinstance(train_batch_data_, dict):\n                    train_batch_data = {\n                        k: v.to(self.device).unsqueeze(0)\n                        for k, v in train_batch_data_.items()\n                    }\n                else:\n                    msg = (\n                        \"We currently only support the train/test data to be \"\n                        \"tuple, list, or dict.\"\n                    )\n                    raise TypeError(msg)\n", "                else:\n                    train_batch_data = {\n                        k: v.to(self.device).unsqueeze(0)\n                        for k, v in train_batch_data_.items()\n                    }\n", 1))
m("c08-base-cpu", "C08", (BA, "                        k: v.to(self.device).unsqueeze(0)\n                        for k, v in train_batch_data_.items()", "                        k: v.to(\"cpu\").unsqueeze(0)\n                        for k, v in train_batch_data_.items()"))
m("c08-tracin-values", "C08", (TR, "                    train_batch_data = {\n                        k: v.to(self.device) for k, v in train_batch_data_.items()\n                    }\n", "                    train_batch_data = tuple(\n                        v.float().to(self.device) for v in train_batch_data_.values()\n                    )\n"))
HELP = "def _to_device(batch, device):\n    if isinstance(batch, dict):\n        return {k: v.to(device) for k, v in batch.items()}\n    if not isinstance(batch, (list, tuple)):\n        raise TypeError(\"unsupported batch\")\n    return tuple([v.to(device) for v in batch])\n\n\n"
m("c08-q-helper", "C08", [(TR, "class TracInAttributor(", HELP + "class TracInAttributor("), (TR, "                if isinstance(train_batch_data_, (tuple, list)):\n                    train_batch_data = tuple(\n                        x.to(self.device) for x in train_batch_data_\n                    )\n                elif isinstance(train_batch_data_, dict):\n                    train_batch_data = {\n                        k: v.to(self.device) for k, v in train_batch_data_.items()\n                    }\n                else:\n                    msg = (\n                        \"We currently only support the train/test data to be \"\n                        \"tuple, list, or dict.\"\n                    )\n                    raise TypeError(msg)\n", "                train_batch_data = _to_device(train_batch_data_, self.device)\n")], "quiet")
m("c08-q-order", "C08", (BA, "                            k: v.to(self.device).unsqueeze(0)\n                            for k, v in test_batch_data_.items()", "                            k: v.unsqueeze(0).to(device=self.device)\n                            for k, v in test_batch_data_.items()"), "quiet")
m("c08-q-loop", "C08", (BA, "                    test_batch_data = {\n                            k: v.to(self.device).unsqueeze(0)\n                            for k, v in test_batch_data_.items()\n                        }" if False else "                        test_batch_data = {\n                            k: v.to(self.device).unsqueeze(0)\n                            for k, v in test_batch_data_.items()\n                        }", "                        test_batch_data = {}\n                        for key in test_batch_data_:\n                            value = test_batch_data_[key].to(self.device)\n                            test_batch_data[key] = value.unsqueeze(0)"), "quiet")
m("c08-q-list", "C08", (TP, "                if isinstance(test_data, (tuple, list)):\n                    test_batch_data = tuple(\n                        data.to(self.device) for data in test_data\n                    )\n", "                if isinstance(test_data, tuple) or isinstance(test_data, list):\n                    moved = []\n                    for data in test_data:\n                        moved.append(data.to(self.device))\n                    test_batch_data = tuple(moved)\n"), "quiet")
m("c08-q-size", "C08", (TR, "                            feature_batch_size = \\\n                                test_batch_data[list(test_batch_data.keys())[0]].shape[0]  # noqa: RUF015\n", "                            feature_batch_size = next(iter(test_batch_data.values())).shape[0]\n"), "quiet")
m("c08-q-size2", "C08", (TR, "                            feature_batch_size = \\\n                                test_batch_data[list(test_batch_data.keys())[0]].shape[0]  # noqa: RUF015\n", "                            feature_batch_size = len(next(iter(test_batch_data.values())))\n"), "quiet")

# ---- C06
HE = "dattri/func/hessian.py"; PJ = "dattri/func/projection.py"; LG = A + "logra.py"; FG = A + "factgrass.py"; UT = A + "utils.py"; BK = A + "block_projected_if/block_projected_if.py"
m("c06-if-drop-reg", "C06", (IFF, '        self.transformation_kwargs = {\n            "regularization": regularization,\n        }\n', '        self.transformation_kwargs = {}\n'))
m("c06-lissa-swap", "C06", (IFF, '            "num_repeat": num_repeat,\n            "recursion_depth": recursion_depth,\n', '            "num_repeat": recursion_depth,\n            "recursion_depth": num_repeat,\n'))
m("c06-lissa-drop-mode", "C06", (IFF, '            "scaling": scaling,\n            "mode": mode,\n', '            "scaling": scaling,\n'))
m("c06-lissa-damp-scale", "C06", (IFF, '            "damping": damping,\n            "scaling": scaling,\n', '            "damping": scaling,\n            "scaling": damping,\n'))
m("c06-hvp-sign", "C06", (HE, "            return vjp_fn(v)[argnums] + regularization * v\n", "            return vjp_fn(v)[argnums] - regularization * v\n"))
m("c06-hvp-fwd-noreg", "C06", (HE, "            return jvp(grad_func, x, v_patched)[1] + regularization * v\n", "            return jvp(grad_func, x, v_patched)[1]\n", 1))
m("c06-cg-reg", "C06", (HE, "            mode=mode,\n            regularization=regularization,\n        )(v)\n\n    return _ihvp_cg_func", "            mode=mode,\n        )(v)\n\n    return _ihvp_cg_func"))
m("c06-atx-cg-mode", "C06", (HE, "        x=(*x,),\n        argnums=argnums,\n        mode=mode,\n        regularization=regularization,\n    )\n\n    def _ihvp_cg_func", "        x=(*x,),\n        argnums=argnums,\n        mode=\"rev-rev\",\n        regularization=regularization,\n    )\n\n    def _ihvp_cg_func"))
m("c06-arnoldi-iter", "C06", (HE, "            max_iter=max_iter,\n            tol=tol,\n            mode=mode,\n            regularization=regularization,\n        )(v)\n\n    return _ihvp_arnoldi_func", "            tol=tol,\n            mode=mode,\n            regularization=regularization,\n        )(v)\n\n    return _ihvp_arnoldi_func"))
m("c06-arnoldi-tol", "C06", (HE, "            if new_norm < tol:\n", "            if new_norm < 1e-7:\n"))
m("c06-arnoldi-swap", "C06", (HE, "            max_iter,\n            norm_constant,\n            tol,\n            v.device,", "            max_iter,\n            tol,\n            norm_constant,\n            v.device,"))
m("c06-lissa-loops", "C06", [(HE, "            for _ in range(num_repeat):\n                curr", "            for _ in range(recursion_depth):\n                curr"), (HE, "                for _ in range(recursion_depth):\n                    sampled", "                for _ in range(num_repeat):\n                    sampled")])
m("c06-lissa-bs", "C06", (HE, "                        batch_size=batch_size,\n                        num_samples", "                        batch_size=1,\n                        num_samples"))
m("c06-lissa-damp", "C06", (HE, "vec + (1 - damping) * curr_estimate - hvp / scaling", "vec + curr_estimate - hvp / scaling"))
m("c06-explicit-sign", "C06", (HE, "            + torch.eye(hessian_tensor.shape[0]).to(v.device) * regularization,", "            - torch.eye(hessian_tensor.shape[0]).to(v.device) * regularization,"))
m("c06-arnoldi-pos", "C06", (PJ, "        max_iter,\n        norm_constant,\n        tol,\n        mode,\n        regularization,\n        seed,", "        max_iter,\n        tol,\n        norm_constant,\n        mode,\n        regularization,\n        seed,"))
m("c06-proj-grass", "C06", (PJ, "                dtype=dtype,\n                grass_multiplier=grass_multiplier,\n            )\n        else:", "                dtype=dtype,\n            )\n        else:"))
m("c06-proj-maxbs", "C06", (PJ, "        proj_max_batch_size=proj_params.proj_max_batch_size,\n        device=device,\n        proj_seed=proj_params.proj_seed", "        proj_max_batch_size=proj_params.feature_batch_size,\n        device=device,\n        proj_seed=proj_params.proj_seed"))
m("c06-proj-seed", "C06", (PJ, "        proj_seed=proj_params.proj_seed,\n        proj_type=proj_type,\n        dtype", "        proj_type=proj_type,\n        dtype"))
m("c06-proj-chunk-type", "C06", (PJ, "                    seed=seeds[i],\n                    proj_type=proj_type,", "                    seed=seeds[i],\n                    proj_type=ProjectionType.normal,"))
m("c06-trak-exclude", "C06", (TP, "                            feature_batch_size=batch_size,\n                            device=self.device,\n                            **self.proj_params.model_dump(),", "                            feature_batch_size=batch_size,\n                            device=self.device,\n                            **self.proj_params.model_dump(exclude={\"proj_seed\"}),", 1))
m("c06-trak-reg", "C06", (TP, "            kernel_matrix.diagonal().add_(self.regularization)", "            kernel_matrix.diagonal().add_(0.0)", 0))
m("c06-trak-reg-sub", "C06", (TP, "                kernel_matrix.diagonal().add_(self.regularization)", "                kernel_matrix.diagonal().sub_(self.regularization)", 0))
m("c06-logra-seed", "C06", (LG, "            proj_seed=self.proj_params.proj_seed,\n            proj_type=ProjectionType.normal,", "            proj_type=ProjectionType.normal,"))
m("c06-logra-swap", "C06", (LG, "            proj_max_batch_size=self.proj_params.proj_max_batch_size,\n            proj_seed=self.proj_params.proj_seed,\n            proj_type=ProjectionType.normal,", "            proj_max_batch_size=self.proj_params.proj_seed,\n            proj_seed=self.proj_params.proj_max_batch_size,\n            proj_type=ProjectionType.normal,"))
m("c06-logra-damp", "C06", (LG, "            damping=damping,\n", ""))
m("c06-fact-chunk", "C06", (FG, "            chunk_size=chunk_size,\n", ""))
m("c06-fact-blow", "C06", (FG, "intermediate_dim = self.proj_params.proj_dim_per_layer * blowup_factor", "intermediate_dim = self.proj_params.proj_dim_per_layer * 4"))
m("c06-dv-seed", "C06", ("dattri/algorithm/dvemb.py", "                    proj_seed=self.proj_params.proj_seed,\n", "                    proj_seed=0,\n", 1))
m("c06-rps-l2", "C06", (RP, "                lambda_l2=self.l2_strength,\n", "                lambda_l2=0.003,\n"))
m("c06-rps-epoch", "C06", (RP, "            num_epoch=self.epoch,\n", "            num_epoch=3000,\n"))
m("c06-rps-l2-finetune", "C06", (UT, "        loss = l2_norm * lambda_l2 + loss_func(phi, y)", "        loss = l2_norm + loss_func(phi, y)"))
m("c06-block-damp", "C06", (BK, "                    precond = stable_inverse(hessian, damping=damping)", "                    precond = stable_inverse(hessian)"))
m("c06-block-swap", "C06", (A + "block_projected_if/core/compressor.py", "    sparsifier_seed = sparsifier_params.proj_seed if", "    sparsifier_seed = sparsifier_params.proj_max_batch_size if"))
m("c06-ekfac-damp", "C06", (IFF, "/ (_lambda + self.damping)) @ q_a", "/ (_lambda + 1e-5)) @ q_a"))
m("c06-datainf-reg", "C06", (IFF, "                reg = 0.1 if regularization is None else regularization", "                reg = 0.1"))
m("c06-arn-attr", "C06", (IFF, "regularization=self.regularization,", "regularization=self.tol,"))
m("c06-q-kwargs", "C06", (IFF, '        self.transformation_kwargs = {\n            "regularization": regularization,\n        }\n', '        opts = dict(regularization=regularization)\n        self.transformation_kwargs = opts\n'), "quiet")
m("c06-q-reg-order", "C06", (HE, "            return vjp_fn(v)[argnums] + regularization * v\n", "            damped = v * regularization\n            damped = damped + vjp_fn(v)[argnums]\n            return damped\n"), "quiet")
m("c06-q-while", "C06", (HE, "            for _ in range(max_iter):\n                # TODO", "            step = 0\n            while step < max_iter:\n                step += 1\n                # TODO"), "quiet")
m("c06-q-dump", "C06", (TP, "                            feature_batch_size=batch_size,\n                            device=self.device,\n                            **self.proj_params.model_dump(),", "                            feature_batch_size=batch_size,\n                            device=self.device,\n                            proj_dim=self.proj_params.proj_dim,\n                            proj_seed=self.proj_params.proj_seed,\n                            proj_type=self.proj_params.proj_type,\n                            proj_max_batch_size=self.proj_params.proj_max_batch_size,", 1), "quiet")
m("c06-q-trak", "C06", (TP, "            kernel_matrix.diagonal().add_(self.regularization)", "            kernel_matrix = kernel_matrix + self.regularization * torch.eye(kernel_matrix.shape[0], device=kernel_matrix.device)", 0), "quiet")
m("c06-q-lissa", "C06", (HE, "                    curr_estimate = vec + (1 - damping) * curr_estimate - hvp / scaling", "                    decay = 1 - damping\n                    curr_estimate = vec + decay * curr_estimate - hvp / scaling"), "quiet")
m("c06-q-lissa2", "C06", (HE, "                    curr_estimate = vec + (1 - damping) * curr_estimate - hvp / scaling", "                    curr_estimate = vec + curr_estimate - damping * curr_estimate - hvp / scaling"), "quiet")
m("c06-q-mode", "C06", (HE, '    if mode == "rev-rev":', '    use_rev = mode == "rev-rev"\n    if use_rev:'), "quiet")
m("c06-q-logra", "C06", (LG, "        sparsifier_params = GeneralProjectionParams(\n            proj_dim=per_component_dim,\n            proj_max_batch_size=self.proj_params.proj_max_batch_size,\n            proj_seed=self.proj_params.proj_seed,", "        seed = self.proj_params.proj_seed\n        shared = {\"proj_max_batch_size\": self.proj_params.proj_max_batch_size, \"proj_seed\": seed}\n        sparsifier_params = GeneralProjectionParams(\n            proj_dim=per_component_dim,\n            **shared,"), "quiet")
m("c06-q-explicit", "C06", (HE, "            + torch.eye(hessian_tensor.shape[0]).to(v.device) * regularization,", "            + regularization * torch.eye(hessian_tensor.shape[0], device=v.device),"), "quiet")

# ---- C09
FU = "dattri/func/utils.py"; TK = "dattri/task.py"; ME = "dattri/metric/metrics.py"; BU = "dattri/benchmark/utils.py"
m("c09-partial", "C09", (FU, "            merged_param = dict(full_param)", "            merged_param = full_param"))
m("c09-cg", "C09", (HE, "            x_pre = torch.clone(v_i)", "            x_pre = v_i"))
m("c09-arnoldi", "C09", (HE, "        v0 = torch.rand(v.shape[1]).to(v.device)", "        v0 = v[0]"))
m("c09-base-unsq", "C09", (BA, "data.to(self.device).unsqueeze(0)", "data.to(self.device).unsqueeze_(0)"))
m("c09-lds", "C09", (ME, "    score = score.T.cpu()\n", "    score = score.T.cpu()\n    score -= score.mean(dim=1, keepdim=True)\n"))
m("c09-flip", "C09", (BU, "    flipped_label = copy.deepcopy(label)", "    flipped_label = label"))
m("c09-vectorize", "C09", (PJ, "        projector = make_random_projector(" if False else "    projector = make_random_projector(", "    if isinstance(feature, dict):\n        for name in feature:\n            feature[name] = feature[name].flatten(1)\n    projector = make_random_projector("))
m("c09-tracin-weights", "C09", (TR, "train_batch_grad @ test_batch_grad.T * ckpt_weight", "train_batch_grad @ test_batch_grad.T * self.weight_list.pop(0)"))
m("c09-trak-seed", "C09", (TP, "        # compute the inner product of the gradients" if False else "        _check_shuffle(test_dataloader)\n", "        _check_shuffle(test_dataloader)\n        self.proj_params.proj_seed += 1\n"))
m("c09-task-ckpt", "C09", (TK, "    def get_checkpoints(self)", "    def drop_checkpoint(self, idx: int) -> None:\n        \"\"\"Drop.\"\"\"\n        self.checkpoints.pop(idx)\n\n    def get_checkpoints(self)"))
m("c09-task-layer", "C09", (TK, "        if layer_name is not None:\n            named_parameters = {", "        if layer_name is not None:\n            layer_name.sort()\n            named_parameters = {"))
m("c09-tracin-nan", "C09", (TR, "                    grad_t = self.grad_loss_func(parameters, train_batch_data)", "                    if isinstance(train_batch_data, tuple):\n                        train_batch_data[0].clamp_(-1e6, 1e6)\n                    grad_t = self.grad_loss_func(parameters, train_batch_data)") if False else (TR, "                grad_t = self.grad_loss_func(parameters, train_batch_data)", "                if isinstance(train_batch_data, tuple):\n                    train_batch_data[0].clamp_(-1e6, 1e6)\n                grad_t = self.grad_loss_func(parameters, train_batch_data)"))
m("c09-dv-lr", "C09", (DVP, "    def attribute(", "    def _trim(self) -> None:\n        \"\"\"Trim.\"\"\"\n\n    def attribute("), "quiet")
m("c09-q-partial", "C09", (FU, "            merged_param = dict(full_param)", "            merged_param = {**full_param}"), "quiet")
m("c09-q-partial2", "C09", (FU, "            merged_param = dict(full_param)", "            merged_param = full_param.copy()"), "quiet")
m("c09-q-lds", "C09", (ME, "    score = score.T.cpu()\n", "    score = score.T.cpu()\n    score = score - 0.0\n    score += 1.0\n"), "quiet")
m("c09-q-knn", "C09", (KN, "        if train_labels is None:\n            train_labels = []\n", "        train_labels = [] if train_labels is None else list(train_labels)\n"), "quiet")
m("c09-q-flip", "C09", (BU, "    flipped_label = copy.deepcopy(label)", "    flipped_label = label.clone() if isinstance(label, torch.Tensor) else label.copy()"), "quiet")
m("c09-q-arnoldi", "C09", (HE, "        start_vec /= torch.norm(start_vec)", "        start_vec = start_vec / torch.norm(start_vec)"), "quiet")
m("c09-q-layer", "C09", (TK, "        if layer_name is not None:\n            named_parameters = {", "        if layer_name is not None:\n            layer_name = list(layer_name)\n            layer_name.sort()\n            named_parameters = {"), "quiet")
m("c09-q-lissa", "C09", (HE, "                    curr_estimate = vec + (1 - damping) * curr_estimate - hvp / scaling", "                    curr_estimate *= 1 - damping\n                    curr_estimate += vec\n                    curr_estimate -= hvp / scaling"), "quiet")

# ---- C10
CO = A + "block_projected_if/core/compressor.py"
TKK = A + "trak.py"
m("c10-mask-global", "C10", (PJ, "        input_dim,\n        generator=generator,\n        device=device,\n    )[:output_dim]", "        input_dim,\n        device=device,\n    )[:output_dim]"))
m("c10-rade-global", "C10", (PJ, "matrix.bernoulli_(p=0.5, generator=generator)", "matrix.bernoulli_(p=0.5)"))
m("c10-rade-rand", "C10", (PJ, "    matrix.bernoulli_(p=0.5, generator=generator)\n", "    matrix.copy_(torch.rand_like(matrix) > 0.5)\n"))
m("c10-default-gen", "C10", (PJ, "        self.generator = torch.Generator(device=self.device)\n\n        self.get", "        self.generator = torch.default_generator\n\n        self.get"))
m("c10-noseed", "C10", (PJ, "            s = self.seed + int(1e3) * i + int(1e5) * self.ensemble_id", "            s = int(1e3) * i + int(1e5) * self.ensemble_id"))
m("c10-noens", "C10", (PJ, "            s = self.seed + int(1e3) * i + int(1e5) * self.ensemble_id", "            s = self.seed + int(1e3) * i"))
m("c10-cuda-noens", "C10", (PJ, "        current_seed = self.seed + int(1e5) * ensemble_id", "        current_seed = self.seed + int(1e5) * self.current_ensemble_id"))
m("c10-cuda-noseeding", "C10", (PJ, "        self.generator.manual_seed(current_seed)\n", "        if self.current_ensemble_id < 0:\n            self.generator.manual_seed(current_seed)\n"))
m("c10-cuda-id", "C10", (PJ, "        current_seed = self.seed + int(1e5) * ensemble_id", "        current_seed = self.seed + int(1e5) * ensemble_id + id(self) % 7"))
m("c10-cuda-hash", "C10", (PJ, "        current_seed = self.seed + int(1e5) * ensemble_id", "        current_seed = self.seed + int(1e5) * ensemble_id + hash(self.proj_type) % 100"))
m("c10-state-early", "C10", (PJ, "            self.generator = self.generator.manual_seed(s)\n            self.generator_states.append(self.generator.get_state())", "            self.generator_states.append(self.generator.get_state())\n            self.generator = self.generator.manual_seed(s)"))
m("c10-dense-noset", "C10", (PJ, "            self.proj_matrix_available = True\n\n        self.generator.set_state(generator_state)\n", "            self.proj_matrix_available = True\n            self.generator.set_state(generator_state)\n"))
m("c10-nomemo", "C10", (PJ, "            self._generate_randomness(ensemble_id)\n            self.current_ensemble_id = ensemble_id", "            self._generate_randomness(ensemble_id)\n            if self.current_ensemble_id < 0:\n                self.current_ensemble_id = 0"))
m("c10-memo-none", "C10", (PJ, "        if ensemble_id != self.current_ensemble_id:", "        if self.current_ensemble_id == -1:"))
m("c10-mask-none", "C10", (PJ, "        self.active_indices = _mask(\n            input_dim,", "        if self.active_indices is not None:\n            return\n        self.active_indices = _mask(\n            input_dim,"))
m("c10-basic-nostates", "C10", (PJ, "            self.get_generator_states()  # regenerate", "            if self.num_blocks == 1:\n                self.get_generator_states()  # regenerate"))
m("c10-basic-nomask", "C10", (PJ, "            if self.proj_type == ProjectionType.random_mask:\n                self._gen_randomness_mask(self.generator_states[0])\n            elif self.proj_type == ProjectionType.identity:\n                pass  # No randomness needed for identity projection\n            elif self.num", "            if self.num"))
m("c10-basic-nodense", "C10", (PJ, "            elif self.num_blocks == 1:\n                self._gen_randomness_dense(self.generator_states[0])\n", ""))
m("c10-basic-order", "C10", (PJ, "            self.ensemble_id = ensemble_id\n            self.get_generator_states()  # regenerate random seeds for new ensemble_id\n", "            self.get_generator_states()  # regenerate random seeds for new ensemble_id\n            self.ensemble_id = ensemble_id\n"))
m("c10-chunk-seed", "C10", (PJ, "            generator.manual_seed(proj_seed)\n", "            generator.manual_seed(0)\n"))
m("c10-chunk-noseed", "C10", (PJ, "            generator.manual_seed(proj_seed)\n", ""))
m("c10-chunk-global", "C10", (PJ, "                size=(len(param_chunk_sizes),),\n                generator=generator,\n", "                size=(len(param_chunk_sizes),),\n"))
m("c10-chunk-const", "C10", (PJ, "                    seed=seeds[i],", "                    seed=i,"))
m("c10-make-seed", "C10", (PJ, "                seed=proj_seed,\n                proj_type=proj_type,\n                device=device,\n                dtype=dtype,\n                grass", "                seed=0,\n                proj_type=proj_type,\n                device=device,\n                dtype=dtype,\n                grass"))
m("c10-abs-seed", "C10", (PJ, "        self.seed = seed\n        self.proj_type", "        self.seed = 0\n        self.proj_type"))
m("c10-arnoldi-global", "C10", (PJ, "        generator = torch.Generator().manual_seed(self.seed)\n", "        torch.manual_seed(self.seed)\n        generator = torch.Generator().manual_seed(self.seed)\n"))
m("c10-arnoldi-unseeded", "C10", (PJ, "        generator = torch.Generator().manual_seed(self.seed)\n", "        generator = torch.Generator()\n"))
m("c10-grass-mult", "C10", (PJ, "            intermediate_dim = self.feature_dim\n", "            intermediate_dim = self.feature_dim\n            self.grass_multiplier = intermediate_dim // self.proj_dim\n"))
m("c10-tracin-ens", "C10", (TR, "                        test_batch_grad = self.test_random_project(\n                            torch.nan_to_num(grad_t),\n                            ensemble_id=ckpt_idx,", "                        test_batch_grad = self.test_random_project(\n                            torch.nan_to_num(grad_t),\n                            ensemble_id=0,"))
m("c10-trak-ens", "C10", (TKK, ")(grad_t, ensemble_id=ckpt_idx)", ")(grad_t, ensemble_id=batch_idx)" , 2))
m("c10-dvemb-seed", "C10", (DVP, "                        proj_seed=self.proj_params.proj_seed,", "                        proj_seed=int(torch.randint(100, (1,)).item()),"))
m("c10-comp-hash", "C10", (CO, "            base_seed = sparsifier_seed + int(1e4) * module_id", "            base_seed = sparsifier_seed + hash(module_name) % 10000"))
m("c10-comp-seed", "C10", (CO, "            base_seed = projector_seed + int(1e4) * module_id + 1", "            base_seed = int(1e4) * module_id + 1"))
m("c10-reseed-tracin", "C10", (TR, "        # iterate over each checkpoint (each ensemble)\n", "        torch.manual_seed(0)\n        # iterate over each checkpoint (each ensemble)\n"))
m("c10-q-helper", "C10", (PJ, "        current_seed = self.seed + int(1e5) * ensemble_id\n        self.generator.manual_seed(current_seed)\n", "        self._reseed(ensemble_id)\n"), "quiet")
M[-1]["edits"].append((PJ, "    def _generate_randomness(self, ensemble_id: int) -> None:", "    def _reseed(self, ensemble_id: int) -> None:\n        gen = self.generator\n        offset = ensemble_id * 100000\n        gen.manual_seed(offset + self.seed)\n\n    def _generate_randomness(self, ensemble_id: int) -> None:"))
m("c10-q-states", "C10", (PJ, "            self.generator = self.generator.manual_seed(s)\n            self.generator_states.append(self.generator.get_state())", "            self.generator.manual_seed(s)\n            state = self.generator.get_state()\n            self.generator_states.append(state)"), "quiet")
m("c10-q-flip", "C10", (PJ, "        if ensemble_id != self.current_ensemble_id:\n            self._generate_randomness(ensemble_id)\n            self.current_ensemble_id = ensemble_id\n", "        changed = not (self.current_ensemble_id == ensemble_id)\n        if changed:\n            self.current_ensemble_id = ensemble_id\n            self._generate_randomness(self.current_ensemble_id)\n"), "quiet")
m("c10-q-always", "C10", (PJ, "        if ensemble_id != self.current_ensemble_id:\n            self._generate_randomness(ensemble_id)\n            self.current_ensemble_id = ensemble_id\n", "        self._generate_randomness(ensemble_id)\n        self.current_ensemble_id = ensemble_id\n"), "quiet")
m("c10-q-inline", "C10", (PJ, "            self._gen_randomness_dense(\"normal\")", "            if self.proj_matrix is None:\n                self.proj_matrix = torch.empty(\n                    self.feature_dim,\n                    self.proj_dim,\n                    dtype=self.dtype,\n                    device=self.device,\n                )\n            self.proj_matrix.normal_(generator=self.generator)"), "quiet")
m("c10-q-localgen", "C10", (PJ, "        self.generator.set_state(generator_state)\n        self.active_indices = _mask(\n            self.feature_dim,\n            self.proj_dim,\n            self.generator,", "        gen = torch.Generator(device=self.device)\n        gen.set_state(generator_state)\n        self.active_indices = _mask(\n            self.feature_dim,\n            self.proj_dim,\n            gen,"), "quiet")
m("c10-q-tracin-var", "C10", (TR, "                        test_batch_grad = self.test_random_project(\n                            torch.nan_to_num(grad_t),\n                            ensemble_id=ckpt_idx,", "                        member = ckpt_idx\n                        test_batch_grad = self.test_random_project(\n                            torch.nan_to_num(grad_t),\n                            ensemble_id=member,"), "quiet")

# ---- C12
IOD = A + "block_projected_if/offload/disk_io/"
MG, MMF, PFD, DK = IOD + "manager.py", IOD + "memory_map.py", IOD + "prefetch_dataset.py", A + "block_projected_if/offload/disk.py"
SAVEMETA = '''        # Write to a temporary file first, so that the index appears complete
        temp_path = pathlib.Path(metadata_path + ".tmp")
        with temp_path.open("w", encoding="utf-8") as f:
            json.dump(metadata, f, separators=(",", ":"))
        temp_path.replace(metadata_path)
'''
MARK = '''        # Mark as pending write
        with self._pending_writes_lock:
            self._pending_writes[data_type, chunk_id] += 1

'''
PUTS = '''        try:
            self._write_queue.put_nowait(write_task)
        except queue.Full:
            logger.debug(
                "Write queue full, blocking on write for chunk %s",
                chunk_id,
            )
            self._write_queue.put(write_task)  # Block if queue is full
'''
UNM = '''                    # Remove from pending writes
                    with self._pending_writes_lock:
                        self._pending_writes[data_type, chunk_id] -= 1
                        if self._pending_writes[data_type, chunk_id] <= 0:
                            del self._pending_writes[data_type, chunk_id]
'''
m("c12-index-first", "C12", [(MMF, "        # Create memory-mapped file\n", '''        storage_dtype = "uint16" if tensor.dtype == torch.bfloat16 else dtype
        metadata = {
            "chunk_filename": chunk_filename, "data_type": data_type, "batch_start": batch_start,
            "batch_end": batch_end, "storage_dtype": storage_dtype, "shape": list(tensor.shape),
            "layer_dims": layer_dims, "batches": batch_info, "flush_mode": flush_mode,
        }
''' + SAVEMETA + "        # Create memory-mapped file\n"), (MMF, SAVEMETA, "", 1)])
m("c12-index-first-async", "C12", (MMF, "            # Save using numpy's memmap", "            pathlib.Path(metadata_path).write_text(json.dumps({\"batches\": batch_info}))\n            # Save using numpy's memmap"))
m("c12-stale-index", "C12", (MMF, "        pathlib.Path(metadata_path).unlink(missing_ok=True)\n", ""))
m("c12-unlink-late", "C12", [(MMF, "        pathlib.Path(metadata_path).unlink(missing_ok=True)\n", ""), (MMF, "        # Write to a temporary file first, so", "        pathlib.Path(metadata_path).unlink(missing_ok=True)\n        # Write to a temporary file first, so")])
m("c12-mark-late", "C12", [(MG, MARK, ""), (MG, PUTS, PUTS + "\n" + MARK)])
m("c12-mark-cond", "C12", (MG, MARK, '''        if not self._write_queue.empty():
            with self._pending_writes_lock:
                self._pending_writes[data_type, chunk_id] += 1

'''))
m("c12-no-mark", "C12", (MG, MARK, ""))
m("c12-mark-set", "C12", [(MG, "            self._pending_writes[data_type, chunk_id] += 1\n", "            self._pending_writes[data_type, chunk_id] = 1\n"), (MG, UNM, '''                    with self._pending_writes_lock:
                        self._pending_writes.pop((data_type, chunk_id), None)
''')])
m("c12-mark-realset", "C12", [(MG, "self._pending_writes = Counter()", "self._pending_writes = set()"), (MG, "            self._pending_writes[data_type, chunk_id] += 1\n", "            self._pending_writes.add((data_type, chunk_id))\n"), (MG, UNM, '''                    with self._pending_writes_lock:
                        self._pending_writes.discard((data_type, chunk_id))
''')])
m("c12-unmark-early", "C12", [(MG, UNM, "                    pass\n"), (MG, "                # Perform the write\n", UNM.replace("                    ", "                ") + "                # Perform the write\n")])
m("c12-unmark-key", "C12", (MG, UNM, UNM.replace("[data_type, chunk_id]", "[chunk_id, data_type]")))
m("c12-read-nowait", "C12", (MG, "        # Load from disk, once everything queued has been written\n        self._wait_for_pending_writes()\n", ""))
m("c12-loader-nowait", "C12", (MG, "        self._flush_remaining_buffers()\n        self._wait_for_pending_writes()\n\n        return create_tensor_dataloader(", "        self._flush_remaining_buffers()\n\n        return create_tensor_dataloader("))
m("c12-loader-noflush", "C12", (MG, "        self._flush_remaining_buffers()\n        self._wait_for_pending_writes()\n\n        return create_tensor_dataloader(", "        self._wait_for_pending_writes()\n\n        return create_tensor_dataloader("))
m("c12-loader-wait-first", "C12", (MG, "        self._flush_remaining_buffers()\n        self._wait_for_pending_writes()\n\n        return create_tensor_dataloader(", "        self._wait_for_pending_writes()\n        self._flush_remaining_buffers()\n\n        return create_tensor_dataloader("))
m("c12-has-nowait", "C12", (MG, "        self._flush_remaining_buffers()\n        self._wait_for_pending_writes()\n\n        ifvp_dir", "        ifvp_dir"))
m("c12-precond-nowait", "C12", (MG, "        self.wait_for_async_operations()\n\n        file_path = pathlib.Path(self.cache_dir) / \"precond\"", "        file_path = pathlib.Path(self.cache_dir) / \"precond\""))
m("c12-hasprecond-pend", "C12", (MG, "        self.wait_for_async_operations()\n\n        precond_dir", "        self._flush_remaining_buffers()\n        precond_dir"))
m("c12-finish-nowait", "C12", (MG, "        # Wait for all pending writes\n        self._wait_for_pending_writes()\n", ""))
m("c12-finish-noflush", "C12", (MG, "        self._flush_remaining_buffers()\n\n        # Wait for all pending writes", "        # Wait for all pending writes"))
m("c12-finish-waitfirst", "C12", [(MG, "        self._flush_remaining_buffers()\n\n        # Wait for all pending writes\n        self._wait_for_pending_writes()\n", "        self._wait_for_pending_writes()\n        self._flush_remaining_buffers()\n")])
m("c12-wait-timeout", "C12", (MG, "            time.sleep(0.1)\n\n        if errors:\n            msg = f\"{len(errors)} writes", "            time.sleep(0.1)\n            if time.time() - start > 60.0:\n                errors = []\n                break\n\n        if errors:\n            msg = f\"{len(errors)} writes"))
M[-1]["edits"].append((MG, "        while True:\n            with self._pending_writes_lock:\n                if len", "        start = time.time()\n        while True:\n            with self._pending_writes_lock:\n                if len"))
m("c12-wait-queue-only", "C12", (MG, "        # Wait for pending writes\n        self._wait_for_pending_writes()\n\n        # Wait for other", "        # Wait for other"))
m("c12-wait-once", "C12", (MG, "        while True:\n            with self._pending_writes_lock:\n                if len(self._pending_writes) == 0:\n                    errors, self._write_errors = self._write_errors, []\n                    break\n            time.sleep(0.1)\n", "        with self._pending_writes_lock:\n            if len(self._pending_writes) != 0:\n                time.sleep(0.1)\n            errors, self._write_errors = self._write_errors, []\n"))
m("c12-alias-view", "C12", (MG, "buffer.tensor[: buffer.current_row].clone().contiguous()", "buffer.tensor[: buffer.current_row].contiguous()"))
m("c12-alias-info", "C12", (MG, "batch_info_copy = buffer.batch_info.copy()", "batch_info_copy = buffer.batch_info"))
m("c12-cache-stale", "C12", (MG, "        with self._read_cache_lock:\n            self._read_cache.pop(buffer_key, None)\n\n", ""))
m("c12-clear-unsorted", "C12", (DK, "                for file_path in sorted(\n                    subdir_path.iterdir(),\n                    key=lambda path: path.suffix != \".json\",\n                ):", "                for file_path in subdir_path.iterdir():"))
m("c12-clear-nowait", "C12", (DK, "        self.disk_io.wait_for_async_operations()\n        self.disk_io.clear_buffers()", "        self.disk_io.clear_buffers()"))
m("c12-clear-rmtree", "C12", (DK, "                # The index goes first, it must not outlive the data it describes\n                for file_path in sorted(\n                    subdir_path.iterdir(),\n                    key=lambda path: path.suffix != \".json\",\n                ):\n                    file_path.unlink()\n", "                shutil.rmtree(subdir_path)\n                subdir_path.mkdir()\n"))
M[-1]["edits"].append((DK, "import pathlib\n", "import pathlib\nimport shutil\n"))
m("c12-precond-none-nowait", "C12", (MG, "            self.wait_for_async_operations()\n            stale_path", "            stale_path"))
m("c12-q-helper", "C12", (MG, MARK + "        # Submit to write queue without the buffer (since we already returned it)\n        write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)\n\n" + PUTS, "        self._submit(data_type, chunk_id, filled_tensor, batch_info_copy)\n\n    def _submit(self, data_type, chunk_id, tensor, info):\n" + MARK + "        task = (data_type, chunk_id, tensor, info, None)\n        self._write_queue.put(task)\n"), "quiet")
m("c12-q-mark-early", "C12", [(MG, MARK, ""), (MG, "        # Clone the filled portion to a new tensor so we can", MARK + "        # Clone the filled portion to a new tensor so we can")], "quiet")
m("c12-q-get", "C12", (MG, MARK, '''        with self._pending_writes_lock:
            key = (data_type, chunk_id)
            self._pending_writes[key] = self._pending_writes.get(key, 0) + 1

'''), "quiet")
m("c12-q-unmark", "C12", (MG, UNM, '''                    key = (data_type, chunk_id)
                    with self._pending_writes_lock:
                        remaining = self._pending_writes[key] - 1
                        if remaining > 0:
                            self._pending_writes[key] = remaining
                        else:
                            self._pending_writes.pop(key)
'''), "quiet")
m("c12-q-wait", "C12", (MG, "        while True:\n            with self._pending_writes_lock:\n                if len(self._pending_writes) == 0:\n                    errors, self._write_errors = self._write_errors, []\n                    break\n            time.sleep(0.1)\n", '''        done = False
        while not done:
            with self._pending_writes_lock:
                if not self._pending_writes:
                    done = True
            if not done:
                time.sleep(0.1)
        with self._pending_writes_lock:
            errors, self._write_errors = self._write_errors, []
'''), "quiet")
m("c12-q-wait2", "C12", (MG, "        while True:\n            with self._pending_writes_lock:\n                if len(self._pending_writes) == 0:\n                    errors, self._write_errors = self._write_errors, []\n                    break\n            time.sleep(0.1)\n", '''        while self._count_pending() > 0:
            time.sleep(0.1)
        with self._pending_writes_lock:
            errors, self._write_errors = self._write_errors, []
'''), "quiet")
M[-1]["edits"].append((MG, "    def _wait_for_pending_writes(self) -> None:", "    def _count_pending(self):\n        with self._pending_writes_lock:\n            return len(self._pending_writes)\n\n    def _wait_for_pending_writes(self) -> None:"))
m("c12-q-osreplace", "C12", [(MMF, "        temp_path.replace(metadata_path)\n", "        os.replace(temp_path, metadata_path)\n"), (MMF, "import json\n", "import json\nimport os\n")], "quiet")
m("c12-q-writehelper", "C12", [(MMF, SAVEMETA, "        ChunkedMemoryMapHandler._publish(metadata_path, metadata)\n"), (MMF, "    @staticmethod\n    @contextmanager", "    @staticmethod\n    def _publish(metadata_path, metadata):\n" + SAVEMETA + "\n    @staticmethod\n    @contextmanager")], "quiet")
m("c12-q-remaining", "C12", (MG, "        remaining_buffers = list(self._chunk_buffers.keys())\n        for buffer_key in remaining_buffers:\n", "        for buffer_key in tuple(self._chunk_buffers):\n"), "quiet")
m("c12-q-whilebuf", "C12", (MG, "        remaining_buffers = list(self._chunk_buffers.keys())\n        for buffer_key in remaining_buffers:\n            with", "        while self._chunk_buffers:\n            buffer_key = next(iter(self._chunk_buffers))\n            with"), "quiet")
m("c12-q-clear-two", "C12", (DK, "                for file_path in sorted(\n                    subdir_path.iterdir(),\n                    key=lambda path: path.suffix != \".json\",\n                ):\n                    file_path.unlink()\n", "                files = list(subdir_path.iterdir())\n                for file_path in [f for f in files if f.suffix == \".json\"]:\n                    file_path.unlink()\n                for file_path in [f for f in files if f.suffix != \".json\"]:\n                    file_path.unlink()\n"), "quiet")
m("c12-q-worker", "C12", (MG, "                try:\n                    self._write_chunk_tensor_sync(\n                        data_type,\n                        chunk_id,\n                        tensor,\n                        batch_info,\n                    )\n\n                except Exception as e:\n                    # Keep the error for whoever waits for this write\n                    with self._pending_writes_lock:\n                        self._write_errors.append(e)\n                    raise\n\n                finally:\n" + UNM, '''                error = None
                try:
                    self._write_chunk_tensor_sync(
                        data_type,
                        chunk_id,
                        tensor,
                        batch_info,
                    )
                except Exception as e:
                    error = e
                    logger.exception("Write worker error")
                finally:
                    with self._pending_writes_lock:
                        if error is not None:
                            self._write_errors.append(error)
                        self._pending_writes[data_type, chunk_id] -= 1
                        if self._pending_writes[data_type, chunk_id] <= 0:
                            del self._pending_writes[data_type, chunk_id]
'''), "quiet")
m("c12-q-condition", "C12", [(MG, "        self._pending_writes_lock = threading.Lock()", "        self._pending_writes_lock = threading.Condition()"), (MG, "        while True:\n            with self._pending_writes_lock:\n                if len(self._pending_writes) == 0:\n                    errors, self._write_errors = self._write_errors, []\n                    break\n            time.sleep(0.1)\n", '''        with self._pending_writes_lock:
            while len(self._pending_writes) > 0:
                self._pending_writes_lock.wait(0.1)
            errors, self._write_errors = self._write_errors, []
''')], "quiet")

# ---- C25
WAITERR = "                    errors, self._write_errors = self._write_errors, []\n                    break\n            time.sleep(0.1)\n"
WRITECALL = '''                try:
                    self._write_chunk_tensor_sync(
                        data_type,
                        chunk_id,
                        tensor,
                        batch_info,
                    )

                except Exception as e:
                    # Keep the error for whoever waits for this write
                    with self._pending_writes_lock:
                        self._write_errors.append(e)
                    raise

                finally:
'''
m("c25-write-swallow", "C25", (MG, "        except Exception:\n            logger.exception(\"Error writing %s chunk %s\", data_type, chunk_id)\n            raise\n", "        except Exception:\n            logger.exception(\"Error writing %s chunk %s\", data_type, chunk_id)\n"))
m("c25-write-oserror", "C25", (MG, "                except Exception as e:\n                    # Keep the error for whoever waits for this write\n                    with self._pending_writes_lock:\n                        self._write_errors.append(e)\n                    raise\n", "                except OSError as e:\n                    if e.errno is None:\n                        raise\n                    with self._pending_writes_lock:\n                        self._write_errors.append(e)\n                    raise\n"))
m("c25-norecord", "C25", (MG, "                    with self._pending_writes_lock:\n                        self._write_errors.append(e)\n                    raise\n", "                    logger.debug(\"failed: %s\", e)\n                    raise\n"))
m("c25-noraise", "C25", (MG, "            raise RuntimeError(msg) from errors[0]\n\n    def _retrieve", "            logger.error(msg)\n\n    def _retrieve"))
m("c25-nofinally", "C25", (MG, "                finally:\n                    # Remove from pending writes\n", "                else:\n                    # Remove from pending writes\n"))
m("c25-earlyunmark", "C25", (MG, "                        self._pending_writes[data_type, chunk_id] -= 1\n                        if self._pending", "                        if not self._write_errors:\n                            self._pending_writes[data_type, chunk_id] -= 1\n                        if self._pending"))
m("c25-dies", "C25", (MG, "            except Exception:\n                logger.exception(\"Write worker error\")\n                import traceback\n\n                traceback.print_exc()\n", "            except OSError:\n                logger.exception(\"Write worker error\")\n"))
m("c25-future-ignored", "C25", (MG, "        if errors:\n            msg = f\"{len(errors)} async operations failed\"\n            raise RuntimeError(msg) from errors[0].exception()\n", "        if errors:\n            logger.error(\"%s async operations failed\", len(errors))\n"))
m("c25-future-unchecked", "C25", (MG, "        errors = [\n            future for future in futures if not self._check_future_result(future)\n        ]\n        if errors:\n            msg = f\"{len(errors)} async operations failed\"\n            raise RuntimeError(msg) from errors[0].exception()\n", "        concurrent.futures.wait(futures)\n"))
m("c25-future-inverted", "C25", (MG, "            return False\n        else:\n            return True\n\n    def has_pre", "            return True\n        else:\n            return True\n\n    def has_pre"))
m("c25-nowait-precond", "C25", (MG, "        self.wait_for_async_operations()\n\n        file_path = pathlib.Path(self.cache_dir) / \"precond\"", "        self._wait_for_pending_writes()\n        concurrent.futures.wait(self.futures)\n\n        file_path = pathlib.Path(self.cache_dir) / \"precond\""))
m("c25-precond-none", "C25", (MG, "            return torch.load(file_path, weights_only=True)\n", "            try:\n                return torch.load(file_path, weights_only=True)\n            except Exception:\n                logger.warning(\"could not read %s\", file_path)\n                return None\n"))
m("c25-retrieve-empty", "C25", (MG, "                tensor, metadata = ChunkedMemoryMapHandler.load_chunk_tensor(\n                    chunk_path,\n                    chunk_filename,\n                )\n", "                try:\n                    tensor, metadata = ChunkedMemoryMapHandler.load_chunk_tensor(\n                        chunk_path,\n                        chunk_filename,\n                    )\n                except (OSError, ValueError):\n                    continue\n"))
m("c25-prefetch-zeros", "C25", (PFD, "        tensor, batch_mapping = ChunkedMemoryMapHandler.load_chunk_batch_range(\n            chunk_path,\n            chunk_filename,\n            self.batch_range,\n        )\n\n        load_time", "        try:\n            tensor, batch_mapping = ChunkedMemoryMapHandler.load_chunk_batch_range(\n                chunk_path,\n                chunk_filename,\n                self.batch_range,\n            )\n        except OSError:\n            tensor, batch_mapping = torch.zeros(0, 0), {}\n        load_time"))
m("c25-prefetch-none", "C25", (PFD, "                    except Exception:\n                        logger.exception(\"Error prefetching chunk %s\", idx)\n", "                    except Exception:\n                        logger.exception(\"Error prefetching chunk %s\", idx)\n                        with self._cache_lock:\n                            self._chunk_cache[idx] = (torch.empty(0), {})\n"))
m("c25-index-skip", "C25", (PFD, "            metadata = ChunkedMemoryMapHandler.read_chunk_metadata(\n                chunk_path,\n                chunk_filename,\n            )\n", "            try:\n                metadata = ChunkedMemoryMapHandler.read_chunk_metadata(\n                    chunk_path,\n                    chunk_filename,\n                )\n            except Exception:\n                logger.warning(\"skipped\")\n                continue\n"))
m("c25-getitem-empty", "C25", (PFD, "        (\n            tensor,\n            batch_mapping,\n        ) = ChunkedMemoryMapHandler.load_chunk_batch_range(\n            chunk_path,\n            chunk_filename,\n            self.batch_range,\n        )\n\n        # Add", "        try:\n            tensor, batch_mapping = ChunkedMemoryMapHandler.load_chunk_batch_range(\n                chunk_path,\n                chunk_filename,\n                self.batch_range,\n            )\n        except Exception:\n            logger.exception(\"failed\")\n            return torch.empty(0), {}\n\n        # Add"))
m("c25-clear-suppress", "C25", (DK, "                    file_path.unlink()\n", "                    try:\n                        file_path.unlink()\n                    except OSError as e:\n                        logger.warning(\"could not delete %s: %s\", file_path, e)\n"))
M[-1]["edits"].append((DK, "import pathlib\n", "import logging\nimport pathlib\nlogger = logging.getLogger(__name__)\n"))
m("c25-meta-swallow", "C25", (BM, "                    pathlib.Path(temp_path).unlink()\n            raise\n", "                    pathlib.Path(temp_path).unlink()\n"))
m("c25-meta-return", "C25", (BM, "                    pathlib.Path(temp_path).unlink()\n            raise\n", "                    pathlib.Path(temp_path).unlink()\n            return\n"))
m("c25-suppress-write", "C25", (MMF, "            json.dump(metadata, f, separators=(\",\", \":\"))\n", "            with contextlib.suppress(OSError):\n                json.dump(metadata, f, separators=(\",\", \":\"))\n"))
M[-1]["edits"].append((MMF, "import json\n", "import contextlib\nimport json\n"))
m("c25-block-store", "C25", (BB, "                self.offload_manager.store_gradients(\n                    batch_idx,\n                    compressed_grads,\n                    is_test=False,\n                )\n", "                try:\n                    self.offload_manager.store_gradients(\n                        batch_idx,\n                        compressed_grads,\n                        is_test=False,\n                    )\n                except RuntimeError:\n                    logger.warning(\"skipped batch\")\n"))
m("c25-block-precond", "C25", (BB, "        self.offload_manager.wait_for_async_operations()\n", "        try:\n            self.offload_manager.wait_for_async_operations()\n        except Exception as e:\n            logger.error(\"failed %s\", e)\n"))
m("c25-incomplete", "C25", (BB, "        _check_complete(missing_batches)\n\n        logger.info(\n            \"Attrib", "        logger.info(\n            \"Attrib"))
m("c25-incomplete-self", "C25", (BB, "        _check_complete(missing_batches)\n        return self_influence", "        return self_influence"))
m("c25-read-missing", "C25", (MMF, "        with metadata_path.open(\"r\", encoding=\"utf-8\") as f:\n            return json.load(f)\n", "        if not metadata_path.exists():\n            return {\"batches\": [], \"layer_dims\": None}\n        with metadata_path.open(\"r\", encoding=\"utf-8\") as f:\n            return json.load(f)\n"))
m("c25-q-error-attr", "C25", [(MG, WAITERR, "                    error, self._write_errors = self._write_errors, None\n                    break\n            time.sleep(0.1)\n"), (MG, "        if errors:\n            msg = f\"{len(errors)} writes to {self.cache_dir} failed\"\n            raise RuntimeError(msg) from errors[0]\n", "        if error is not None:\n            msg = f\"writes to {self.cache_dir} failed\"\n            raise RuntimeError(msg) from error\n"), (MG, "                        self._write_errors.append(e)\n", "                        self._write_errors = e\n")], "quiet")
m("c25-q-future-loop", "C25", (MG, "        errors = [\n            future for future in futures if not self._check_future_result(future)\n        ]\n        if errors:\n            msg = f\"{len(errors)} async operations failed\"\n            raise RuntimeError(msg) from errors[0].exception()\n", "        first = None\n        for future in futures:\n            try:\n                future.result()\n            except Exception as e:\n                if first is None:\n                    first = e\n        if first is not None:\n            msg = \"async operations failed\"\n            raise RuntimeError(msg) from first\n"), "quiet")
m("c25-q-future-list", "C25", (MG, "        errors = [\n            future for future in futures if not self._check_future_result(future)\n        ]\n        if errors:\n            msg = f\"{len(errors)} async operations failed\"\n            raise RuntimeError(msg) from errors[0].exception()\n", "        failed = []\n        for future in futures:\n            ok = self._check_future_result(future)\n            if not ok:\n                failed.append(future)\n        if len(failed) > 0:\n            msg = f\"{len(failed)} async operations failed\"\n            raise RuntimeError(msg) from failed[0].exception()\n"), "quiet")
m("c25-q-future-direct", "C25", (MG, "        errors = [\n            future for future in futures if not self._check_future_result(future)\n        ]\n        if errors:\n            msg = f\"{len(errors)} async operations failed\"\n            raise RuntimeError(msg) from errors[0].exception()\n", "        for future in futures:\n            future.result()\n"), "quiet")
m("c25-q-worker-helper", "C25", (MG, WRITECALL, "                error = self._try_write(data_type, chunk_id, tensor, batch_info)\n                if error is not None:\n                    with self._pending_writes_lock:\n                        self._write_errors.append(error)\n                if True:\n"), "quiet")
M[-1]["edits"].append((MG, "    def _write_chunk_tensor_sync(\n        self,\n        data_type: str,", "    def _try_write(self, data_type, chunk_id, tensor, batch_info):\n        try:\n            self._write_chunk_tensor_sync(data_type, chunk_id, tensor, batch_info)\n        except Exception as e:\n            return e\n        return None\n\n    def _write_chunk_tensor_sync(\n        self,\n        data_type: str,"))
m("c25-q-precond-try", "C25", (MG, "        if file_path.exists():\n            return torch.load(file_path, weights_only=True)\n        return None\n", "        try:\n            return torch.load(file_path, weights_only=True)\n        except FileNotFoundError:\n            return None\n"), "quiet")
m("c25-q-layerdims-helper", "C25", (MG, "                        if \"layer_dims\" in metadata:\n                            self.layer_dims = metadata[\"layer_dims\"]\n                            self.total_proj_dim = sum(self.layer_dims)\n", "                        if \"layer_dims\" in metadata:\n                            self._use_layer_dims(metadata)\n"), "quiet")
M[-1]["edits"].append((MG, "    def _ensure_layer_dims(self) -> None:", "    def _use_layer_dims(self, metadata):\n        self.layer_dims = metadata[\"layer_dims\"]\n        self.total_proj_dim = sum(self.layer_dims)\n\n    def _ensure_layer_dims(self) -> None:"))
m("c25-q-prefetch-merge", "C25", (PFD, "                    try:\n                        self._load_and_cache_chunk(idx, current_idx)\n                    except Exception:\n                        logger.exception(\"Error prefetching chunk %s\", idx)\n", "                    self._load_and_cache_chunk(idx, current_idx)\n"), "quiet")
m("c25-q-meta-finally", "C25", (BM, "        except Exception:\n            logger.exception(\"Error saving metadata\")\n            # Clean up temp file if it exists\n            if pathlib.Path(temp_path).exists():\n                with contextlib.suppress(builtins.BaseException):\n                    pathlib.Path(temp_path).unlink()\n            raise\n", "        except Exception as exc:\n            logger.exception(\"Error saving metadata\")\n            # Clean up temp file if it exists\n            with contextlib.suppress(OSError):\n                pathlib.Path(temp_path).unlink(missing_ok=True)\n            msg = \"failed to save metadata\"\n            raise RuntimeError(msg) from exc\n"), "quiet")
m("c25-q-complete-seen", "C25", [(BB, "        missing_batches = set(batch_to_sample_mapping)\n\n        # Conf", "        seen_batches = set()\n\n        # Conf"), (BB, "                        batch_scores.to(if_score.device)\n                    )\n                    missing_batches.discard(batch_idx)\n", "                        batch_scores.to(if_score.device)\n                    )\n                    seen_batches.add(batch_idx)\n"), (BB, "        _check_complete(missing_batches)\n\n        logger.info(\n            \"Attrib", "        if len(seen_batches) != len(batch_to_sample_mapping):\n            msg = \"incomplete\"\n            raise RuntimeError(msg)\n\n        logger.info(\n            \"Attrib")], "quiet")

# --- C24
MW = '            with pathlib.Path(temp_path).open("w", encoding="utf-8") as f:\n                json.dump(metadata, f, separators=(",", ":"))  # Compact format\n'
MR = '            # Atomic rename\n            pathlib.Path(temp_path).replace(metadata_path)\n'
MTMP = '        temp_path = metadata_path + ".tmp"\n'
BOTH = MW + "\n" + MR
WT = '        temp_path = pathlib.Path(metadata_path + ".tmp")\n'
WW = '        with temp_path.open("w", encoding="utf-8") as f:\n            json.dump(metadata, f, separators=(",", ":"))\n'
WR = '        temp_path.replace(metadata_path)\n'
m("c24-inplace", "C24", (BM, BOTH, MW.replace("temp_path", "metadata_path")))
m("c24-unlink", "C24", (BM, MR, '            if pathlib.Path(metadata_path).exists():\n                pathlib.Path(metadata_path).unlink()\n            pathlib.Path(temp_path).rename(metadata_path)\n'))
m("c24-chunk-inplace", "C24", [(MMF, WT, '        temp_path = pathlib.Path(metadata_path)\n'), (MMF, WR, "")])
m("c24-open-move", "C24", (MMF, WW + WR, WW + "            temp_path.replace(metadata_path)\n"))
m("c24-open-move2", "C24", (BM, BOTH, MW + "                pathlib.Path(temp_path).replace(metadata_path)\n"))
m("c24-systmp", "C24", [(BM, MTMP, '        fd, temp_path = tempfile.mkstemp()\n        os.close(fd)\n'), (BM, MR, "            shutil.move(temp_path, metadata_path)\n"), (BM, "import pathlib\n", "import os\nimport pathlib\nimport shutil\nimport tempfile\n")])
m("c24-copy", "C24", [(BM, MR, "            shutil.copyfile(temp_path, metadata_path)\n            pathlib.Path(temp_path).unlink()\n"), (BM, "import pathlib\n", "import pathlib\nimport shutil\n")])
m("c24-tempname", "C24", (MMF, WT, '        temp_path = pathlib.Path(save_path) / f"{chunk_filename}_tmp_metadata.json"\n'))
m("c24-finally", "C24", (MMF, WW + WR, "        try:\n" + "".join("    " + l + "\n" for l in WW.splitlines()) + "        finally:\n            temp_path.replace(metadata_path)\n"))
m("c24-swallow", "C24", (MMF, WW + WR, "        try:\n" + "".join("    " + l + "\n" for l in WW.splitlines()) + "        except TypeError:\n            logger.exception(\"not serialisable\")\n        temp_path.replace(metadata_path)\n"))
m("c24-backup", "C24", (BM, MR, '            if pathlib.Path(metadata_path).exists():\n                pathlib.Path(metadata_path).replace(metadata_path + ".bak")\n            pathlib.Path(temp_path).replace(metadata_path)\n'))
m("c24-notreplaced", "C24", (BM, MR, '            if not pathlib.Path(metadata_path).exists():\n                pathlib.Path(temp_path).replace(metadata_path)\n'))
m("c24-touch", "C24", (MMF, WW, '        with pathlib.Path(metadata_path).open("w", encoding="utf-8"):\n            pass\n' + WW))
m("c24-writetext", "C24", (BM, BOTH, '            pathlib.Path(metadata_path).write_text(json.dumps(metadata), encoding="utf-8")\n'))
m("c24-append", "C24", (BM, MR, MR + '            with pathlib.Path(metadata_path).open("a", encoding="utf-8") as f:\n                f.write("\\n")\n'))
m("c24-moved-early", "C24", (BM, BOTH, MR.replace("            # Atomic rename\n", "            pathlib.Path(temp_path).touch()\n") + MW.replace("temp_path", "metadata_path")))
m("c24-reopen", "C24", (BM, MW, MW + '            with pathlib.Path(metadata_path).open("r+", encoding="utf-8") as f:\n                f.truncate()\n'))
m("c24-q-suffix", "C24", (MMF, WT, '        temp_path = pathlib.Path(metadata_path).with_suffix(".json.partial")\n'), "quiet")
m("c24-q-osreplace", "C24", [(BM, MR, "            os.replace(temp_path, metadata_path)\n"), (BM, "import pathlib\n", "import os\nimport pathlib\n")], "quiet")
m("c24-q-helper", "C24", [(BM, BOTH, "            self._write_json(temp_path, metadata_path, metadata)\n"), (BM, "    def _get_metadata_path(self)", "    @staticmethod\n    def _write_json(temp_path, final_path, content):\n        with pathlib.Path(temp_path).open(\"w\", encoding=\"utf-8\") as f:\n            json.dump(content, f, separators=(\",\", \":\"))\n        pathlib.Path(temp_path).replace(final_path)\n\n    def _get_metadata_path(self)")], "quiet")
m("c24-q-named", "C24", [(BM, BOTH, "            with tempfile.NamedTemporaryFile(\"w\", dir=self.cache_dir, delete=False) as f:\n                json.dump(metadata, f)\n            pathlib.Path(f.name).replace(metadata_path)\n"), (BM, "import pathlib\n", "import pathlib\nimport tempfile\n")], "quiet")
m("c24-q-text", "C24", (MMF, WW, '        temp_path.write_text(json.dumps(metadata), encoding="utf-8")\n'), "quiet")
m("c24-q-sync", "C24", [(MMF, WW, WW + "            f.flush()\n            os.fsync(f.fileno())\n"), (MMF, "import pathlib\n", "import os\nimport pathlib\n")], "quiet")
m("c24-q-close", "C24", (MMF, WW, '        f = temp_path.open("w", encoding="utf-8")\n        try:\n            json.dump(metadata, f, separators=(",", ":"))\n        finally:\n            f.close()\n'), "quiet")

# --- C13
UNM = "                    with self._pending_writes_lock:\n                        self._pending_writes[data_type, chunk_id] -= 1\n                        if self._pending_writes[data_type, chunk_id] <= 0:\n                            del self._pending_writes[data_type, chunk_id]\n"
WAITL = "            with self._pending_writes_lock:\n                if len(self._pending_writes) == 0:\n                    errors, self._write_errors = self._write_errors, []\n                    break\n            time.sleep(0.1)\n"
GETC = "        with self._cache_lock:\n            if idx in self._chunk_cache:\n                return self._chunk_cache[idx]\n"
MARKP = "        with self._pending_writes_lock:\n            self._pending_writes[data_type, chunk_id] += 1\n"
m("c13-unmark", "C13", (MG, UNM, UNM.replace("with self._pending_writes_lock:", "if True:")))
m("c13-mark", "C13", (MG, MARKP, "        self._pending_writes[data_type, chunk_id] += 1\n"))
m("c13-wait", "C13", (MG, WAITL, "            if len(self._pending_writes) == 0:\n                errors, self._write_errors = self._write_errors, []\n                break\n            time.sleep(0.1)\n"))
m("c13-wait-part", "C13", (MG, WAITL, "            if len(self._pending_writes) == 0:\n                with self._pending_writes_lock:\n                    errors, self._write_errors = self._write_errors, []\n                break\n            time.sleep(0.1)\n"))
m("c13-swap", "C13", (MG, WAITL, "            with self._pending_writes_lock:\n                idle = len(self._pending_writes) == 0\n            if idle:\n                errors, self._write_errors = self._write_errors, []\n                break\n            time.sleep(0.1)\n"))
m("c13-wronglock", "C13", (MG, "                    with self._pending_writes_lock:\n                        self._write_errors.append(e)\n", "                    with self._read_cache_lock:\n                        self._write_errors.append(e)\n"))
m("c13-locallock", "C13", (MG, UNM, UNM.replace("self._pending_writes_lock", "threading.Lock()")))
m("c13-sleep-in", "C13", (MG, "        while True:\n" + WAITL, "        with self._pending_writes_lock:\n            while len(self._pending_writes) > 0:\n                time.sleep(0.1)\n            errors, self._write_errors = self._write_errors, []\n"))
m("c13-put-in", "C13", [(MG, MARKP, MARKP + "            self._write_queue.put((data_type, chunk_id, filled_tensor, batch_info_copy, None))\n        return\n")])
m("c13-pf-insert", "C13", (PFD, "        with self._cache_lock:\n            self._chunk_cache[idx] = (tensor, batch_mapping)\n\n        return", "        self._chunk_cache[idx] = (tensor, batch_mapping)\n\n        return"))
m("c13-pf-read", "C13", (PFD, GETC, "        if idx in self._chunk_cache:\n            return self._chunk_cache[idx]\n"))
m("c13-pf-getout", "C13", (PFD, GETC, "        with self._cache_lock:\n            hit = idx in self._chunk_cache\n        if hit:\n            return self._chunk_cache[idx]\n"))
m("c13-pf-idx", "C13", (PFD, "                with self._idx_lock:\n                    current_idx = self._current_idx\n", "                current_idx = self._current_idx\n"))
m("c13-pf-evict", "C13", (PFD, "            # Evict old entries if cache is too large\n            cache_size_multiplier = 3\n            max_cache_size = self.prefetch_factor * cache_size_multiplier\n            if len(self._chunk_cache) > max_cache_size:\n                # Find and remove chunks that are far from current index\n                for cached_idx in list(self._chunk_cache.keys()):\n                    if cached_idx < current_idx - 1:\n                        del self._chunk_cache[cached_idx]\n", "        # Evict old entries if cache is too large\n        cache_size_multiplier = 3\n        max_cache_size = self.prefetch_factor * cache_size_multiplier\n        if len(self._chunk_cache) > max_cache_size:\n            # Find and remove chunks that are far from current index\n            for cached_idx in list(self._chunk_cache.keys()):\n                if cached_idx < current_idx - 1:\n                    del self._chunk_cache[cached_idx]\n"))
m("c13-pf-acquire", "C13", (PFD, GETC, "        self._cache_lock.acquire()\n        if idx in self._chunk_cache:\n            return self._chunk_cache[idx]\n        self._cache_lock.release()\n"))
m("c13-acquire-exc", "C13", (PFD, "        with self._cache_lock:\n            self._chunk_cache[idx] = (tensor, batch_mapping)\n\n        return tensor, batch_mapping\n", "        self._cache_lock.acquire()\n        self._chunk_cache[idx] = (tensor.pin_memory(), batch_mapping)\n        self._cache_lock.release()\n\n        return tensor, batch_mapping\n"))
m("c13-pf-late", "C13", [(PFD, "        self._current_idx = 0\n        self._idx_lock = threading.Lock()\n\n", ""), (PFD, "        self._start_prefetch_thread()\n\n", "        self._start_prefetch_thread()\n        self._current_idx = 0\n        self._idx_lock = threading.Lock()\n\n")])
m("c13-meta-twice", "C13", (BM, "            # Flush any pending batches first\n            self._flush_pending_batches()\n", "            # Flush any pending batches first\n            self.get_batch_to_sample_mapping()\n"))
m("c13-order", "C13", [(MG, "        with self._read_cache_lock:\n            self._read_cache.clear()\n", "        with self._read_cache_lock:\n            self._read_cache.clear()\n            with self._pending_writes_lock:\n                self._write_errors.clear()\n"), (MG, MARKP, MARKP + "            with self._read_cache_lock:\n                self._read_cache.pop(buffer_key, None)\n")])
m("c13-readcache", "C13", (MG, "        with self._read_cache_lock:\n            self._read_cache.pop(buffer_key, None)\n", "        self._read_cache.pop(buffer_key, None)\n"))
m("c13-errors-read", "C13", (MG, "        if self._shutdown:\n            return  # Skip if we're shutting down\n", "        if self._shutdown or self._write_errors:\n            return  # Skip if we're shutting down\n"))
m("c13-stat", "C13", [(MG, "                # Perform the write\n", "                self._num_written += 1\n                # Perform the write\n"), (MG, "        self._write_workers = []\n", "        self._write_workers = []\n        self._num_written = 0\n")])
m("c13-dims", "C13", (MG, "        if self.layer_dims is None:\n            self.layer_dims = [g.shape[1] if g.numel() > 0 else 0 for g in gradients]\n", "        if self.layer_dims is None or len(self.layer_dims) != len(gradients):\n            self.layer_dims = [g.shape[1] if g.numel() > 0 else 0 for g in gradients]\n"))
m("c13-q-acquire", "C13", (PFD, GETC, "        self._cache_lock.acquire()\n        try:\n            if idx in self._chunk_cache:\n                return self._chunk_cache[idx]\n        finally:\n            self._cache_lock.release()\n"), "quiet")
m("c13-q-helper", "C13", [(MG, UNM, "                    self._unmark(data_type, chunk_id)\n"), (MG, "    def _write_chunk_tensor_sync(", "    def _unmark(self, data_type, chunk_id):\n        with self._pending_writes_lock:\n            self._pending_writes[data_type, chunk_id] -= 1\n            if self._pending_writes[data_type, chunk_id] <= 0:\n                del self._pending_writes[data_type, chunk_id]\n\n    def _write_chunk_tensor_sync(")], "quiet")
m("c13-q-rlock", "C13", (MG, "self._pending_writes_lock = threading.Lock()", "self._pending_writes_lock = threading.RLock()"), "quiet")
m("c13-q-alias", "C13", (MG, UNM, "                    lock = self._pending_writes_lock\n                    pending = self._pending_writes\n                    with lock:\n                        pending[data_type, chunk_id] -= 1\n                        if pending[data_type, chunk_id] <= 0:\n                            del pending[data_type, chunk_id]\n"), "quiet")
m("c13-q-idle", "C13", (MG, WAITL, "            with self._pending_writes_lock:\n                idle = not self._pending_writes\n                if idle:\n                    errors = list(self._write_errors)\n                    self._write_errors.clear()\n            if idle:\n                break\n            time.sleep(0.1)\n"), "quiet")
m("c13-q-cond", "C13", [(MG, "self._pending_writes_lock = threading.Lock()", "self._pending_writes_lock = threading.Condition()"), (MG, UNM, UNM + "                            self._pending_writes_lock.notify_all()\n"), (MG, "        while True:\n" + WAITL, "        with self._pending_writes_lock:\n            while len(self._pending_writes) > 0:\n                self._pending_writes_lock.wait()\n            errors, self._write_errors = self._write_errors, []\n")], "quiet")
m("c13-q-pf", "C13", (PFD, GETC, "        with self._cache_lock:\n            cached = self._chunk_cache.get(idx)\n        if cached is not None:\n            return cached\n"), "quiet")
m("c13-q-stat", "C13", [(MG, "                # Perform the write\n", "                with self._pending_writes_lock:\n                    self._num_written += 1\n                # Perform the write\n"), (MG, "        self._write_workers = []\n", "        self._write_workers = []\n        self._num_written = 0\n")], "quiet")

# --- C22
SETC = "            if self.compressors:\n                self.hook_manager.set_compressors(self.compressors)\n"
IDXN = "                idx = self.layer_name_to_idx[name]\n"
SLG = "                    start_col = sum(self.layer_dims[:layer_idx])\n                    end_col = start_col + self.layer_dims[layer_idx]\n                    gradients.append("
m("c22-fresh-test", "C22", (BB, SETC, "            self._setup_compressors(test_dataloader)\n" + SETC, 1))
m("c22-recache", "C22", (BB, "        # Setup compressors if not already done\n        if self.compressors is None:\n            self._setup_compressors", "        # Setup compressors if not already done\n        if True:\n            self._setup_compressors"), "quiet")
m("c22-attr-always", "C22", (BB, "        # Set up compressors if needed\n        if self.compressors is None:\n            self._setup_compressors(test_dataloader)\n", "        # Set up compressors if needed\n        self._setup_compressors(test_dataloader)\n"))
m("c22-attr-layerdims", "C22", (BB, "        # Set up compressors if needed\n        if self.compressors is None:\n", "        # Set up compressors if needed\n        if self.compressors is None or self.hook_manager is None:\n"))
m("c22-reversed", "C22", (BB, SETC, "            if self.compressors:\n                self.hook_manager.set_compressors(self.compressors[::-1])\n", 1))
m("c22-sortednames", "C22", (BB, "            self.hook_manager = HookManager(\n                self.model,\n                self.layer_names,\n", "            self.hook_manager = HookManager(\n                self.model,\n                sorted(self.layer_names),\n", 1))
m("c22-sortednames2", "C22", (BB, "            self.model,\n            self.layer_names,\n            sparsifier_params", "            self.model,\n            sorted(self.layer_names),\n            sparsifier_params"))
m("c22-hook-enum", "C22", [(BH, "for name, module in self.model.named_modules():", "for idx, (name, module) in enumerate(self.model.named_modules()):"), (BH, IDXN, "")])
m("c22-hook-count", "C22", [(BH, "        for name, module in self.model.named_modules():", "        idx = -1\n        for name, module in self.model.named_modules():"), (BH, IDXN, "                idx += 1\n")])
m("c22-hook-sortedidx", "C22", (BH, "for idx, name in enumerate(layer_names)}", "for idx, name in enumerate(sorted(layer_names))}"))
m("c22-hook-late", "C22", (BH, "                wrapped_forward = functools.partial(\n                    self._custom_linear_forward,\n                    module,\n                    idx,\n                )\n", "                def wrapped_forward(module_input):\n                    return self._custom_linear_forward(module, idx, module_input)\n"))
m("c22-hook-late2", "C22", (BH, "                wrapped_forward = functools.partial(\n                    self._custom_linear_forward,\n                    module,\n                    idx,\n                )\n", "                wrapped_forward = lambda module_input, mod=module: self._custom_linear_forward(mod, idx, module_input)\n"))
m("c22-back-idx", "C22", (BH, "            hook_manager.compressed_grads[layer_idx] = compressed_grad\n", "            hook_manager.compressed_grads[-1 - layer_idx] = compressed_grad\n"))
m("c22-back-append", "C22", [(BH, "            hook_manager.compressed_grads[layer_idx] = compressed_grad\n", "            hook_manager.compressed_grads.append(compressed_grad)\n")])
m("c22-back-comp0", "C22", (BH, "compressor=hook_manager.compressors[layer_idx]", "compressor=hook_manager.compressors[0]"))
m("c22-back-input", "C22", (BH, "        tensor_input = hook_manager.inputs[layer_idx]\n", "        tensor_input = hook_manager.inputs[layer_idx - 1]\n"))
m("c22-fwd-input", "C22", (BH, "        hook_manager.inputs[layer_idx] = tensor_input.detach()\n", "        hook_manager.inputs[hook_manager_id % len(hook_manager.inputs)] = tensor_input.detach()\n"))
m("c22-comp-enum", "C22", (BC, "            idx = name_to_index[module_name]\n", "            idx = module_id % len(layer_names)\n"))
m("c22-comp-append", "C22", [(BC, "    compressors = [None] * len(layer_names)\n", "    compressors = []\n"), (BC, "            compressors[idx] = compressor\n", "            compressors.append(compressor)\n")])
m("c22-late-name", "C22", (BC, "lambda mod, inp, out, n=name: capture_hook(n, mod, inp, out)", "lambda mod, inp, out: capture_hook(name, mod, inp, out)"))
m("c22-late-input", "C22", (BC, "layer_inputs.get(module_name)", "layer_inputs.get(name)", 2))
m("c22-swapped-io", "C22", (BC, "layer_outputs.get(module_name)", "layer_outputs.get(layer_names[-1])", 0))
m("c22-first-input", "C22", (BC, "layer_inputs.get(module_name)", "next(iter(layer_inputs.values()))", 0))
m("c22-capture-mod", "C22", (BC, "        layer_outputs[name] = out\n", "        layer_outputs[layer_names[len(layer_outputs)]] = out\n"))
m("c22-name-sort", "C22", (BC, "for idx, name in enumerate(layer_names)}", "for idx, name in enumerate(sorted(layer_names))}"))
m("c22-skip-noappend", "C22", (BB, """                    if preconditioners[layer_idx] is None:
                        batch_ifvp.append(
                            torch.zeros(
                                batch_tensor.shape[0],
                                self.layer_dims[layer_idx],
                            ),
                        )
                        continue
""", """                    if preconditioners[layer_idx] is None:
                        continue
"""))
m("c22-dims-skip", "C22", (BB, "                        else:\n                            self.layer_dims.append(0)\n", ""))
m("c22-acc-skip", "C22", (BB, "            else:\n                hessian_accumulators.append(None)\n", ""))
m("c22-slice", "C22", (BB, SLG, SLG.replace("[:layer_idx])", "[:layer_idx + 1])")))
m("c22-slice-end", "C22", (BB, SLG, SLG.replace("self.layer_dims[layer_idx]\n", "self.layer_dims[0]\n")))
m("c22-slice-even", "C22", (BB, SLG, SLG.replace("sum(self.layer_dims[:layer_idx])", "layer_idx * self.layer_dims[layer_idx]")))
m("c22-precond-idx", "C22", (BB, "                        preconditioners[layer_idx],\n", "                        preconditioners[layer_idx - 1],\n"))
m("c22-precond-count", "C22", (BB, "self.offload_manager.store_preconditioner(layer_idx, precond)", "self.offload_manager.store_preconditioner(computed_count, precond)"))
m("c22-acc-wrong", "C22", (BB, "                hessian_accumulators[layer_idx].addmm_(", "                hessian_accumulators[layer_idx - 1].addmm_("))
m("c22-test-skip", "C22", (BB, """                    elif self.layer_dims and grad_idx < len(self.layer_dims):
                        batch_features.append(
                            torch.zeros(batch_size, self.layer_dims[grad_idx]),
                        )
""", ""))
m("c22-test-dim", "C22", (BB, "torch.zeros(batch_size, self.layer_dims[grad_idx])", "torch.zeros(batch_size, self.layer_dims[0])"))
m("c22-q-offsets", "C22", (BB, "                gradients = []\n\n                for layer_idx in range(len(self.layer_names)):\n" + SLG, "                gradients = []\n                offsets = [0]\n                for dim in self.layer_dims:\n                    offsets.append(offsets[-1] + dim)\n                for layer_idx in range(len(self.layer_names)):\n                    start_col = offsets[layer_idx]\n                    end_col = offsets[layer_idx + 1]\n                    gradients.append("), "quiet")
m("c22-q-running", "C22", (BB, "                gradients = []\n\n                for layer_idx in range(len(self.layer_names)):\n" + SLG + "batch_tensor[:, start_col:end_col].contiguous())\n", "                gradients = []\n                start_col = 0\n                for dim in self.layer_dims:\n                    gradients.append(batch_tensor[:, start_col:start_col + dim].contiguous())\n                    start_col += dim\n"), "quiet")
m("c22-q-split", "C22", (BB, "                gradients = []\n\n                for layer_idx in range(len(self.layer_names)):\n" + SLG + "batch_tensor[:, start_col:end_col].contiguous())\n", "                gradients = [\n                    part.contiguous()\n                    for part in torch.split(batch_tensor, self.layer_dims, dim=1)\n                ]\n"), "quiet")
m("c22-q-helper", "C22", [(BB, SLG, "                    start_col, end_col = self._columns(layer_idx)\n                    gradients.append("), (BB, "    def _copy_gradients_as_ifvp(", "    def _columns(self, layer_idx):\n        start = sum(self.layer_dims[:layer_idx])\n        return start, start + self.layer_dims[layer_idx]\n\n    def _copy_gradients_as_ifvp(")], "quiet")
m("c22-q-enum", "C22", (BB, "                for layer_idx in range(len(self.layer_names)):\n" + SLG, "                for layer_idx, _name in enumerate(self.layer_names):\n" + SLG), "quiet")
m("c22-q-preconds", "C22", (BB, "        preconditioners = []\n        for layer_idx in range(len(self.layer_names)):\n            precond = self.offload_manager.retrieve_preconditioner(layer_idx)\n            preconditioners.append(precond)\n", "        preconditioners = [\n            self.offload_manager.retrieve_preconditioner(layer_idx)\n            for layer_idx in range(len(self.layer_names))\n        ]\n"), "quiet")
m("c22-q-hm", "C22", [(BB, """            self.hook_manager = HookManager(
                self.model,
                self.layer_names,
                device=self.device,
            )
            if self.compressors:
                self.hook_manager.set_compressors(self.compressors)
""", "            self._make_hooks()\n", 0), (BB, "    def _remove_hooks(self)", "    def _make_hooks(self):\n        manager = HookManager(self.model, self.layer_names, device=self.device)\n        compressors = self.compressors\n        if compressors:\n            manager.set_compressors(compressors)\n        self.hook_manager = manager\n\n    def _remove_hooks(self)")], "quiet")
m("c22-q-ensure", "C22", [(BB, "        # Setup compressors if not already done\n        if self.compressors is None:\n            self._setup_compressors(full_train_dataloader)\n", "        self._ensure_compressors(full_train_dataloader)\n"), (BB, "        # Set up compressors if needed\n        if self.compressors is None:\n            self._setup_compressors(test_dataloader)\n", "        self._ensure_compressors(test_dataloader)\n"), (BB, "    def _setup_compressors(", "    def _ensure_compressors(self, loader):\n        if self.compressors is not None:\n            return\n        self._setup_compressors(loader)\n\n    def _setup_compressors(")], "quiet")
m("c22-q-submodule", "C22", [(BH, "        for name, module in self.model.named_modules():\n            if name in self.layer_names:\n                idx = self.layer_name_to_idx[name]\n", "        for idx, name in enumerate(self.layer_names):\n            if True:\n                module = self.model.get_submodule(name)\n")], "quiet")
m("c22-q-closure", "C22", (BH, "                wrapped_forward = functools.partial(\n                    self._custom_linear_forward,\n                    module,\n                    idx,\n                )\n", "                wrapped_forward = lambda module_input, mod=module, i=idx: self._custom_linear_forward(mod, i, module_input)\n"), "quiet")
m("c22-q-capture", "C22", [(BC, "lambda mod, inp, out, n=name: capture_hook(n, mod, inp, out)", "partial(capture_hook, name)"), (BC, "import torch\n", "from functools import partial\nimport torch\n")], "quiet")
m("c22-q-index", "C22", (BC, "            idx = name_to_index[module_name]\n", "            idx = layer_names.index(module_name)\n"), "quiet")
m("c22-q-list", "C22", [(BC, "    module_list = list(model.named_modules())\n\n    for module_id, (module_name, module) in enumerate(module_list):\n        if module_name in layer_names:\n", "    modules = dict(model.named_modules())\n    for module_id, module_name in enumerate(modules):\n        module = modules[module_name]\n        if module_name in layer_names:\n")], "quiet")
m("c22-q-input", "C22", (BC, "            if isinstance(module, nn.Linear):\n                _setup_linear_sparsifier(\n                    sparsifier,\n                    module,\n                    layer_inputs.get(module_name),\n                    layer_outputs.get(module_name),\n", "            captured_in = layer_inputs[module_name] if module_name in layer_inputs else None\n            captured_out = layer_outputs.get(module_name)\n            if isinstance(module, nn.Linear):\n                _setup_linear_sparsifier(\n                    sparsifier,\n                    module,\n                    captured_in,\n                    captured_out,\n"), "quiet")
m("c22-q-dims", "C22", (BB, """                    for grad in compressed_grads:
                        if grad is not None and grad.numel() > 0:
                            self.layer_dims.append(
                                grad.shape[1] if grad.dim() > 1 else grad.numel(),
                            )
                            batch_size = grad.shape[0] if grad.dim() > 1 else 1
                        else:
                            self.layer_dims.append(0)
""", """                    for grad in compressed_grads:
                        if grad is None or grad.numel() == 0:
                            self.layer_dims.append(0)
                            continue
                        self.layer_dims.append(
                            grad.shape[1] if grad.dim() > 1 else grad.numel(),
                        )
                        batch_size = grad.shape[0] if grad.dim() > 1 else 1
"""), "quiet")
m("c22-q-test", "C22", (BB, "                for grad_idx, grad in enumerate(compressed_grads):\n", "                for grad_idx in range(len(compressed_grads)):\n                    grad = compressed_grads[grad_idx]\n"), "quiet")

m("c22-q-count", "C22", [(BB, "self.offload_manager.store_preconditioner(layer_idx, precond)", "self.offload_manager.store_preconditioner(pos, precond)"), (BB, "        computed_count = 0\n", "        computed_count = 0\n        pos = -1\n"), (BB, "            hessian_accumulator = hessian_accumulators[layer_idx]\n", "            pos += 1\n            hessian_accumulator = hessian_accumulators[layer_idx]\n")], "quiet")

# ---- C11
CPU, MEM = BO + "cpu.py", BO + "memory.py"
m("c11-cpu-retr-swap", "C11", (CPU, "cached_dict = self.cached_test_gradients if is_test else self.cached_gradients", "cached_dict = self.cached_gradients if is_test else self.cached_test_gradients"))
m("c11-cpu-retr-notest", "C11", (CPU, "cached_dict = self.cached_test_gradients if is_test else self.cached_gradients", "cached_dict = self.cached_gradients"))
m("c11-cpu-ifvp-place", "C11", [(CPU, "self.cached_ifvp[batch_idx] = concatenated", "self.cached_gradients[batch_idx] = concatenated")])
m("c11-cpu-ifvp-load", "C11", (CPU, "            cache = self.cached_ifvp\n", "            cache = self.cached_gradients\n"))
m("c11-cpu-key", "C11", (CPU, "self._split_tensor(cached_dict[batch_idx], to_device=True)", "self._split_tensor(cached_dict[batch_idx - 1], to_device=True)"))
m("c11-cpu-loader-test", "C11", (CPU, "cache = self.cached_test_gradients if is_test else self.cached_gradients", "cache = self.cached_gradients"))
m("c11-mem-loader-test", "C11", (MEM, "cache = self.cached_test_gradients if is_test else self.cached_gradients", "cache = self.cached_gradients"))
m("c11-cpu-clear-test", "C11", (CPU, "        self.cached_gradients = {}\n        self.cached_test_gradients = {}\n        self.preconditioners = [None] * len(self.layer_names)", "        self.cached_gradients = {}\n        self.preconditioners = [None] * len(self.layer_names)"))
m("c11-dk-clear-test", "C11", (DK, '["grad", "test", "ifvp", "precond"]', '["grad", "ifvp", "precond"]'))
m("c11-cpu-range-le", "C11", (CPU, "start_batch <= idx < end_batch", "start_batch <= idx <= end_batch"))
m("c11-mmf-range-lt", "C11", (MMF, "start_batch <= batch_idx < end_batch", "start_batch < batch_idx < end_batch"))
m("c11-pfd-range-le", "C11", (PFD, "start_batch <= idx < end_batch", "start_batch <= idx < end_batch - 1"), "any")
m("c11-cpu-collate-noacc", "C11", (CPU, "                row_offset += tensor.shape[0]\n", "                row_offset = tensor.shape[0]\n"))
m("c11-cpu-collate-off", "C11", (CPU, "combined_mapping[batch_idx] = (row_offset, row_offset + batch_size)", "combined_mapping[batch_idx] = (start, start + batch_size)"))
m("c11-pfd-collate-nostart", "C11", (PFD, "                row_offset + start,\n                row_offset + start + batch_size,\n", "                row_offset,\n                row_offset + batch_size,\n"))
m("c11-pfd-collate-endonly", "C11", (PFD, "                row_offset + start + batch_size,\n", "                row_offset + batch_size,\n"))
m("c11-cpu-split-plus1", "C11", (CPU, "            layer_tensor = tensor[:, start_idx:end_idx].contiguous()", "            layer_tensor = tensor[:, start_idx + 1 : end_idx].contiguous()"))
m("c11-cpu-split-same", "C11", (CPU, "            result.append(layer_tensor)\n            start_idx = end_idx\n", "            result.append(layer_tensor)\n"))
m("c11-cpu-rows", "C11", (CPU, "batch_mapping = {batch_idx: (0, cpu_tensor.shape[0])}", "batch_mapping = {batch_idx: (0, cpu_tensor.shape[1])}"))
m("c11-cpu-rowkey", "C11", (CPU, "batch_mapping = {batch_idx: (0, cpu_tensor.shape[0])}", "batch_mapping = {idx: (0, cpu_tensor.shape[0])}"))
m("c11-cpu-precond-idx", "C11", (CPU, "return self.preconditioners[layer_idx].to(self.device)", "return self.preconditioners[0].to(self.device)"))
m("c11-cpu-precond-T", "C11", (CPU, "                    preconditioner.cpu()\n                    if preconditioner.device.type", "                    preconditioner.half().cpu()\n                    if preconditioner.device.type"))
m("c11-mg-precond-path", "C11", (MG, '        self.wait_for_async_operations()\n\n        file_path = pathlib.Path(self.cache_dir) / "precond" / f"layer_{layer_idx}.pt"', '        self.wait_for_async_operations()\n\n        file_path = pathlib.Path(self.cache_dir) / "precond" / f"layer_{layer_idx + 1}.pt"'))
m("c11-mg-subdir", "C11", (MG, 'return "grad" if data_type == "gradients" else data_type', 'return "grad" if data_type in ("gradients", "test") else data_type'))
m("c11-mg-chunkend", "C11", (MG, "chunk_end = (chunk_id + 1) * self.chunk_size", "chunk_end = (chunk_id + 1) * self.chunk_size - 1"))
m("c11-mg-notest", "C11", (MG, 'data_type="test" if is_test and data_type == "gradients" else data_type', 'data_type=data_type'))
m("c11-mg-row-notest", "C11", (MG, '''                for info in buffer.batch_info:
                    if info["batch_idx"] == batch_idx:
''', '''                for info in buffer.batch_info:
                    if info["batch_idx"] >= batch_idx:
'''))
m("c11-mg-row-start", "C11", (MG, '''                    "start_row": start_row,
                    "end_row": end_row,
                },
            )
            buffer.current_row = end_row

            # Check if chunk is complete
            if self._is_chunk_complete(data_type, chunk_id):''', '''                    "start_row": 0,
                    "end_row": end_row,
                },
            )
            buffer.current_row = end_row

            # Check if chunk is complete
            if self._is_chunk_complete(data_type, chunk_id):'''))
m("c11-mg-row-noadv", "C11", (MG, "            buffer.current_row = end_row\n", "            buffer.current_row = start_row\n"))
m("c11-mg-read-rows", "C11", (MG, '''                        start_row = info["start_row"]
                        end_row = info["end_row"]
                        batch_tensor = tensor[start_row:end_row]''', '''                        start_row = info["start_row"]
                        end_row = info["end_row"]
                        batch_tensor = tensor[start_row : end_row - 1]'''))
m("c11-mg-catdim", "C11", (MG, "batch_tensor = torch.cat(batch_features, dim=1)", "batch_tensor = torch.cat(batch_features, dim=0)"))
m("c11-default", "C11", (MEM, "is_test: bool = False", "is_test: bool = True"))
m("c11-mmf-newoff", "C11", (MMF, "new_mapping[batch_idx] = (new_offset, new_offset + batch_size)", "new_mapping[batch_idx] = (start_row, end_row)"))
m("c11-mmf-newstep", "C11", (MMF, "                    new_offset += batch_size\n", "                    new_offset += 1\n"))
m("c11-dk-forward", "C11", (DK, "gradients = self.disk_io.retrieve_gradients(batch_idx, is_test)", "gradients = self.disk_io.retrieve_gradients(batch_idx)"))
m("c11-dk-ifvp", "C11", (DK, "ifvp_list = self.disk_io.retrieve_ifvp(batch_idx)", "ifvp_list = self.disk_io.retrieve_gradients(batch_idx)"))
m("c11-q-torchsplit", "C11", (CPU, '''        result = []
        start_idx = 0
        for dim in self.layer_dims:
            end_idx = start_idx + dim
            layer_tensor = tensor[:, start_idx:end_idx].contiguous()
            if to_device and self.device != "cpu":
                layer_tensor = layer_tensor.to(self.device)
            result.append(layer_tensor)
            start_idx = end_idx

        return result
''', '''        parts = torch.split(tensor, self.layer_dims, dim=1)
        return [
            p.contiguous().to(self.device) if to_device and self.device != "cpu" else p.contiguous()
            for p in parts
        ]
'''), "quiet")
m("c11-q-plusdim", "C11", (CPU, '''            end_idx = start_idx + dim
            layer_tensor = tensor[:, start_idx:end_idx].contiguous()
''', '''            layer_tensor = tensor[:, start_idx : start_idx + dim].contiguous()
            end_idx = start_idx + dim
'''), "quiet")
m("c11-q-collate-extend", "C11", (CPU, '''            for tensor, mapping in items:
                tensors.append(tensor)
                for batch_idx, (start, end) in mapping.items():
                    batch_size = end - start
                    combined_mapping[batch_idx] = (row_offset, row_offset + batch_size)
                row_offset += tensor.shape[0]
''', '''            for tensor, mapping in items:
                for batch_idx, span in mapping.items():
                    combined_mapping[batch_idx] = (
                        row_offset,
                        row_offset + span[1] - span[0],
                    )
                row_offset = row_offset + len(tensor)
                tensors.append(tensor)
'''), "quiet")
m("c11-q-helper", "C11", [(CPU, "        cached_dict = self.cached_test_gradients if is_test else self.cached_gradients\n", "        cached_dict = self._gradient_cache(is_test)\n"),
    (CPU, "        if is_test:\n            self.cached_test_gradients[batch_idx] = concatenated\n        else:\n            self.cached_gradients[batch_idx] = concatenated\n", "        self._gradient_cache(is_test)[batch_idx] = concatenated\n"),
    (CPU, "    def has_ifvp(self) -> bool:", "    def _gradient_cache(self, is_test):\n        if is_test:\n            return self.cached_test_gradients\n        return self.cached_gradients\n\n    def has_ifvp(self) -> bool:")], "quiet")
m("c11-q-get", "C11", (CPU, '''        if batch_idx not in cached_dict:
            if self.layer_dims is None:
                return [torch.tensor([], device=self.device) for _ in self.layer_names]
            return [torch.zeros(0, dim, device=self.device) for dim in self.layer_dims]

        # Split and move to device
        return self._split_tensor(cached_dict[batch_idx], to_device=True)
''', '''        stored = cached_dict.get(batch_idx)
        if stored is not None:
            return self._split_tensor(stored, to_device=True)
        if self.layer_dims is None:
            return [torch.tensor([], device=self.device) for _ in self.layer_names]
        return [torch.zeros(0, dim, device=self.device) for dim in self.layer_dims]
'''), "quiet")
m("c11-q-range", "C11", (CPU, '''            batch_indices = [
                idx for idx in batch_indices if start_batch <= idx < end_batch
            ]
''', '''            wanted = []
            for idx in batch_indices:
                if idx < start_batch or idx >= end_batch:
                    continue
                wanted.append(idx)
            batch_indices = wanted
'''), "quiet")
m("c11-q-next", "C11", (MG, '''                for info in buffer.batch_info:
                    if info["batch_idx"] == batch_idx:
                        start_row = info["start_row"]
                        end_row = info["end_row"]
                        batch_tensor = buffer.tensor[start_row:end_row]
                        return self._split_tensor_to_layers(batch_tensor)
''', '''                for info in buffer.batch_info:
                    if info["batch_idx"] != batch_idx:
                        continue
                    rows = slice(info["start_row"], info["end_row"])
                    return self._split_tensor_to_layers(buffer.tensor[rows])
'''), "quiet")
m("c11-q-clear", "C11", (CPU, "        self.cached_gradients = {}\n        self.cached_test_gradients = {}\n        self.preconditioners = [None] * len(self.layer_names)", "        self.cached_gradients.clear()\n        self.cached_test_gradients.clear()\n        self.preconditioners = [None for _ in self.layer_names]"), "quiet")
m("c11-q-cattensors", "C11", (MG, '''            batch_features = []
            for _layer_idx, (grad, dim) in enumerate(zip(gradients, self.layer_dims)):
                if grad.numel() > 0:
                    batch_features.append(grad.cpu())
                else:
                    # Zero padding for missing layers
                    batch_features.append(torch.zeros(batch_size, dim))
''', '''            batch_features = [
                grad.cpu() if grad.numel() > 0 else torch.zeros(batch_size, dim)
                for grad, dim in zip(gradients, self.layer_dims)
            ]
'''), "quiet")
m("c11-q-namedrows", "C11", (MG, '''                        start_row = info["start_row"]
                        end_row = info["end_row"]
                        batch_tensor = tensor[start_row:end_row]
                        return self._split_tensor_to_layers(batch_tensor)
''', '''                        return self._split_tensor_to_layers(
                            tensor[info["start_row"] : info["end_row"]],
                        )
'''), "quiet")

# ---- C21 flattened parameters
DV = "dattri/algorithm/dvemb.py"
IFN = "dattri/algorithm/influence_function.py"
m("c21-sorted-unflatten", "C21", (FU, "    shape_list = [p.shape for p in model_params.values()]", "    model_params = dict(sorted(model_params.items()))\n    shape_list = [p.shape for p in model_params.values()]"))
m("c21-sorted-names", "C21", (FU, "    return dict(zip(model_params.keys(), generator()))", "    return dict(zip(sorted(model_params.keys()), generator()))"))
m("c21-sorted-layerwise", "C21", (FU, "    keys = list(model_params.keys())\n", "    keys = sorted(model_params.keys())\n"))
m("c21-layerwise-index", "C21", (FU, "        param_dict[keys[i]] = tensors[i].view(", "        param_dict[keys[i]] = tensors[len(keys) - 1 - i].view("))
m("c21-unflatten-step", "C21", (FU, "            current_index += size\n", "            current_index += shape[0]\n"))
m("c21-unflatten-start", "C21", (FU, "        current_index = 0\n", "        current_index = 1\n"))
m("c21-unflatten-noadvance", "C21", (FU, "            yield tensors[current_index : current_index + size].reshape(shape)\n            current_index += size\n", "            yield tensors[current_index : current_index + size].reshape(shape)\n            current_index = size\n"))
m("c21-frozen-unflatten", "C21", (FU, "model.named_parameters() if p.requires_grad}", "model.named_parameters()}", 0))
m("c21-frozen-layerwise", "C21", (FU, "model.named_parameters() if p.requires_grad}", "model.named_parameters()}", 1))
m("c21-frozen-task", "C21", (TK, "self.model.named_parameters() if p.requires_grad", "self.model.named_parameters()"))
m("c21-frozen-ekfac", "C21", (IFN, "self.task.model.named_parameters() if p.requires_grad", "self.task.model.named_parameters()"))
m("c21-frozen-dvemb", "C21", (DV, "                if v.requires_grad\n", ""))
m("c21-frozen-trak", "C21", ("dattri/algorithm/trak.py", "                if p.requires_grad\n", ""))
m("c21-vectorize-step", "C21", (FU, "            arr[:, pointer : pointer + num_param] = p.to(device)\n            pointer += num_param\n", "            arr[:, pointer : pointer + num_param] = p.to(device)\n            pointer += param.shape[0]\n"))
m("c21-vectorize-step2", "C21", (FU, "            arr[pointer : pointer + num_param] = param.reshape(-1).to(device)\n            pointer += num_param\n", "            arr[pointer : pointer + num_param] = param.reshape(-1).to(device)\n            pointer = num_param\n"))
m("c21-vectorize-sorted", "C21", (FU, "    for param in g.values():\n        if batch_dim:\n            if len", "    for _, param in sorted(g.items()):\n        if batch_dim:\n            if len"))
m("c21-param-num", "C21", (FU, "                new_args[param_num] = _unflatten_params(args[param_num], model)", "                new_args[param_num] = _unflatten_params(args[0], model)"))
m("c21-param-num2", "C21", (FU, "                new_args[param_num] = _unflatten_params_layerwise(\n                    args[param_num],", "                new_args[0] = _unflatten_params_layerwise(\n                    args[param_num],"))
m("c21-partial-num", "C21", (FU, "                merged_param[layer] = new_args[param_num][\n", "                merged_param[layer] = new_args[0][\n"))
m("c21-partial-out", "C21", (FU, "            new_args[param_num] = flatten_params(merged_param)", "            new_args[0] = flatten_params(merged_param)"))
m("c21-partial-pop", "C21", (FU, "                length_param = full_param[layer].numel()\n", "                length_param = merged_param.pop(layer).numel()\n"))
m("c21-partial-length", "C21", (FU, "                length_param = full_param[layer].numel()\n", "                length_param = full_param[layer_name[0]].numel()\n"))
m("c21-partial-sorted", "C21", (FU, "            for layer in layer_name:\n                length", "            for layer in sorted(layer_name):\n                length"))
m("c21-getparam-order", "C21", (TK, '''                k: self.named_parameters[k]
                for k in layer_name
                if k in self.named_parameters
''', '''                k: p for k, p in self.named_parameters.items() if k in layer_name
'''))
m("c21-getparam-sorted", "C21", (TK, "                for k in layer_name\n                if k in self", "                for k in sorted(layer_name)\n                if k in self"))
m("c21-ekfac-step", "C21", (IFN, "            ].reshape(-1, *params.shape)\n            current_index += size\n", "            ].reshape(-1, *params.shape)\n            current_index += params.shape[0]\n"))
m("c21-datainf-step", "C21", (IFN, "            current_idx += split_index[i]\n", "            current_idx = split_index[i]\n"))
m("c21-datainf-start", "C21", (IFN, "        current_idx = 0\n", "        current_idx = split_index[0]\n"))
m("c21-project-step", "C21", (PJ, "            pointer += chunk_dim\n", "            pointer += self.max_chunk_size\n"))
m("c21-project-index", "C21", (PJ, "                self.projector_per_chunk[chunk_idx].project(", "                self.projector_per_chunk[-1 - chunk_idx].project("))
m("c21-make-sizes", "C21", (PJ, "                    feature_dim=chunk_size,", "                    feature_dim=max_chunk_size,"))
m("c21-dict-index", "C21", (PJ, "                        self.projector_per_chunk[projector_index].project(", "                        self.projector_per_chunk[projector_index - 1].project("))
m("c21-dict-pointer", "C21", (PJ, "                pointer += size\n", "                pointer += p_flat.size(1)\n"))
m("c21-dict-start", "C21", (PJ, "                start += size\n", "                start += pointer\n"))
m("c21-q-split", "C21", (FU, '''    shape_list = [p.shape for p in model_params.values()]

    def generator() -> Tensor:
        current_index = 0
        for shape in shape_list:
            size = math.prod(shape)
            yield tensors[current_index : current_index + size].reshape(shape)
            current_index += size

    return dict(zip(model_params.keys(), generator()))
''', '''    pieces = torch.split(tensors, [p.numel() for p in model_params.values()])
    return {
        name: piece.reshape(param.shape)
        for (name, param), piece in zip(model_params.items(), pieces)
    }
'''), "quiet")
m("c21-q-loop", "C21", (FU, '''    shape_list = [p.shape for p in model_params.values()]

    def generator() -> Tensor:
        current_index = 0
        for shape in shape_list:
            size = math.prod(shape)
            yield tensors[current_index : current_index + size].reshape(shape)
            current_index += size

    return dict(zip(model_params.keys(), generator()))
''', '''    out = {}
    start = 0
    for name, param in model_params.items():
        end = start + param.numel()
        out[name] = tensors[start:end].view(param.shape)
        start = end
    return out
'''), "quiet")
m("c21-q-trainhelper", "C21", [(FU, "model.named_parameters() if p.requires_grad}", "_trainable(model)}", 0), (FU, "model.named_parameters() if p.requires_grad}", "_trainable(model)}", 0), (FU, "def _unflatten_params(tensors", '''def _trainable(model: torch.nn.Module) -> list:
    return [(k, p) for k, p in model.named_parameters() if p.requires_grad]


def _unflatten_params(tensors''')], "quiet")
m("c21-q-continue", "C21", (FU, "    model_params = {k: p for k, p in model.named_parameters() if p.requires_grad}\n", '''    model_params = {}
    for k, p in model.named_parameters():
        if not p.requires_grad:
            continue
        model_params[k] = p
''', 0), "quiet")
m("c21-q-filter", "C21", (FU, "    model_params = {k: p for k, p in model.named_parameters() if p.requires_grad}\n", '''    model_params = dict(
        filter(lambda kv: kv[1].requires_grad, model.named_parameters()),
    )
''', 0), "quiet")
m("c21-q-zipnames", "C21", (FU, '''    keys = list(model_params.keys())
    param_dict = {}
    for i in range(len(keys)):
        param_dict[keys[i]] = tensors[i].view(model_params[keys[i]].shape)
    return param_dict
''', '''    return {
        name: piece.view(param.shape)
        for (name, param), piece in zip(model_params.items(), tensors)
    }
'''), "quiet")
m("c21-q-enum", "C21", (FU, '''    for i in range(len(keys)):
        param_dict[keys[i]] = tensors[i].view(model_params[keys[i]].shape)
''', '''    for i, key in enumerate(keys):
        param_dict[key] = tensors[i].view(model_params[key].shape)
'''), "quiet")
m("c21-q-flatcat", "C21", (FU, '''    return _vectorize(
        tensors,
        batch_dim=False,
        device=tensors[next(iter(tensors.keys()))].device,
    )
''', '''    return torch.cat([t.detach().reshape(-1) for t in tensors.values()])
'''), "quiet")
m("c21-q-partialend", "C21", (FU, '''                length_param = full_param[layer].numel()
                merged_param[layer] = new_args[param_num][
                    index_counter : index_counter + length_param
                ]
                index_counter += length_param
''', '''                end = index_counter + full_param[layer].numel()
                merged_param[layer] = args[param_num][index_counter:end]
                index_counter = end
'''), "quiet")
m("c21-q-projectend", "C21", (PJ, '''        pointer = 0
        for chunk_idx, chunk_dim in enumerate(self.dim_per_chunk):
            ch_output.add_(
                self.projector_per_chunk[chunk_idx].project(
                    features[:, pointer : pointer + chunk_dim].contiguous(),
                    ensemble_id=ensemble_id,
                ),
            )

            pointer += chunk_dim
''', '''        end = 0
        for projector, dim in zip(self.projector_per_chunk, self.dim_per_chunk):
            begin, end = end, end + dim
            ch_output += projector.project(
                features[:, begin:end].contiguous(),
                ensemble_id=ensemble_id,
            )
'''), "quiet")
m("c21-q-vecend", "C21", (FU, '''            arr[pointer : pointer + num_param] = param.reshape(-1).to(device)
            pointer += num_param
''', '''            end = pointer + num_param
            arr[pointer:end] = param.flatten().to(device)
            pointer = end
'''), "quiet")
m("c21-q-ekfacsplit", "C21", (IFN, '''        layer_test_rep = {}
        current_index = 0
        for name, params in partial_model_params.items():
            size = math.prod(params.shape)
            layer_test_rep[name] = test_rep[
                :,
                current_index : current_index + size,
            ].reshape(-1, *params.shape)
            current_index += size
''', '''        sizes = [p.numel() for p in partial_model_params.values()]
        layer_test_rep = {
            name: piece.reshape(-1, *params.shape)
            for (name, params), piece in zip(
                partial_model_params.items(),
                torch.split(test_rep, sizes, dim=1),
            )
        }
'''), "quiet")
m("c21-q-datainf", "C21", (IFN, '''            query_layers.append(query[:, current_idx : split_index[i] + current_idx])
            current_idx += split_index[i]
''', '''            next_idx = current_idx + split_index[i]
            query_layers.append(query[:, current_idx:next_idx])
            current_idx = next_idx
'''), "quiet")

# ---- C26 metrics
MT = "dattri/metric/metrics.py"
GT = "dattri/metric/ground_truth.py"
BR = "dattri/metric/britteness.py"
m("c26-lds-noT", "C26", (MT, "    score = score.T.cpu()\n", "    score = score.cpu()\n"))
m("c26-lds-rows", "C26", (MT, "[score[:, indices[i]].sum(dim=1) for i in range(num_subsets)]", "[score[indices[i]].sum(dim=0) for i in range(num_subsets)]"))
m("c26-lds-sumdim", "C26", (MT, "score[:, indices[i]].sum(dim=1)", "score[:, indices[i]].sum(dim=0)"))
m("c26-lds-test", "C26", (MT, "spearmanr(sum_scores[:, i], gt_values[:, i]).correlation", "spearmanr(sum_scores[:, i], gt_values[:, i - 1]).correlation"))
m("c26-lds-axis", "C26", (MT, "spearmanr(sum_scores[:, i], gt_values[:, i]).pvalue", "spearmanr(sum_scores[i], gt_values[i]).pvalue"))
m("c26-lds-ntest", "C26", (MT, "    num_test_samples = score.shape[0]\n", "    num_test_samples = gt_values.shape[0]\n"))
m("c26-lds-nsub", "C26", (MT, "    num_subsets = indices.shape[0]\n", "    num_subsets = indices.shape[1]\n"))
m("c26-lds-allscores", "C26", (MT, "score[:, indices[i]].sum(dim=1)", "score.sum(dim=1)"))
m("c26-loo-recorded", "C26", (MT, "    score = score.cpu()[indices.long().cpu()]\n", "    score = score.cpu()[: len(indices)]\n"))
m("c26-loo-recorded2", "C26", (MT, "    score = score.cpu()[indices.long().cpu()]\n", "    score = score.cpu()\n"))
m("c26-loo-cols", "C26", (MT, "    score = score.cpu()[indices.long().cpu()]\n", "    score = score.cpu()[:, indices.long().cpu()]\n"))
m("c26-loo-test", "C26", (MT, "pearsonr(score[:, i], gt_values[:, i]).pvalue", "pearsonr(score[:, i], gt_values[i]).pvalue"))
m("c26-loo-ntest", "C26", (MT, "    num_test_samples = score.shape[1]\n", "    num_test_samples = score.shape[0]\n"))
m("c26-mis-order", "C26", (MT, "torch.argsort(score).flip(0)", "torch.argsort(score)"))
m("c26-mis-order2", "C26", (MT, "torch.argsort(score).flip(0)", "torch.argsort(-score).flip(0)"))
m("c26-brit-order", "C26", (BR, "np.argsort(scores.reshape(-1))[::-1]", "np.argsort(scores.reshape(-1))"))
m("c26-brit-last", "C26", (BR, "sorted_indices[:k]", "sorted_indices[-k:]"))
m("c26-brit-pos", "C26", (BR, "    sorted_indices = np.asarray(train_loader.sampler.indices)[sorted_positions]\n", "    sorted_indices = sorted_positions\n"))
m("c26-brit-remaining", "C26", (BR, "list(set(original_indices) - set(indices_to_remove))", "list(set(range(len(original_indices))) - set(indices_to_remove))"))
m("c26-loo-row", "C26", (GT, "        model_indices[dir_cnt] = int(index)\n", "        model_indices[int(index)] = int(index)\n"))
m("c26-loo-model", "C26", (GT, "        index = _dir_to_index(model_file)\n", "        index = _dir_to_index(model_dirs[dir_cnt])\n"))
m("c26-lds-row", "C26", (GT, "            target_values[i] += target_func(ckpt_path, test_dataloader)", "            target_values[j] += target_func(ckpt_path, test_dataloader)"))
m("c26-lds-dir", "C26", (GT, "            ckpt_path = Path(subset_dir_map[i]) /", "            ckpt_path = Path(subset_dir_map[j]) /"))
m("c26-lds-ind", "C26", (GT, '        with Path.open(Path(subset_dir_map[i]) / "indices.txt"', '        with Path.open(Path(subset_dir_map[num_subsets - 1 - i]) / "indices.txt"'))
m("c26-q-ldsvec", "C26", (MT, '''    sum_scores = torch.stack(
        [score[:, indices[i]].sum(dim=1) for i in range(num_subsets)],
        dim=0,
    )  # shape: (num_subsets, num_test_samples)
''', '''    sum_scores = score[:, indices].sum(dim=2).T
'''), "quiet")
m("c26-q-ldsloop", "C26", (MT, '''    sum_scores = torch.stack(
        [score[:, indices[i]].sum(dim=1) for i in range(num_subsets)],
        dim=0,
    )  # shape: (num_subsets, num_test_samples)
''', '''    sums = []
    for members in indices:
        sums.append(score[:, members].sum(dim=1))
    sum_scores = torch.stack(sums)
'''), "quiet")
m("c26-q-ldsonce", "C26", (MT, '''    lds_corr = torch.stack(
        [
            torch.tensor(
                spearmanr(sum_scores[:, i], gt_values[:, i]).correlation,
                dtype=score.dtype,
            )
            for i in range(num_test_samples)
        ],
        dim=0,
    )  # shape: (num_test_samples,)
    lds_pval = torch.stack(
        [
            torch.tensor(
                spearmanr(sum_scores[:, i], gt_values[:, i]).pvalue,
                dtype=score.dtype,
            )
            for i in range(num_test_samples)
        ],
        dim=0,
    )  # shape: (num_test_samples,)
''', '''    results = [
        spearmanr(predicted, actual)
        for predicted, actual in zip(sum_scores.T, gt_values.T)
    ]
    lds_corr = torch.tensor([r.correlation for r in results], dtype=score.dtype)
    lds_pval = torch.tensor([r.pvalue for r in results], dtype=score.dtype)
'''), "quiet")
m("c26-q-ldsnoT", "C26", [(MT, "    score = score.T.cpu()\n", "    score = score.cpu()\n"), (MT, "score[:, indices[i]].sum(dim=1)", "score[indices[i]].sum(dim=0)"), (MT, "    num_test_samples = score.shape[0]\n", "    num_test_samples = score.shape[1]\n")], "quiet")
m("c26-q-helper", "C26", [(MT, "def loo_corr(", '''def _column_corr(func, left, right):
    return [func(left[:, i], right[:, i]) for i in range(left.shape[1])]


def loo_corr('''), (MT, '''    loo_corr = torch.stack(
        [
            torch.tensor(
                pearsonr(score[:, i], gt_values[:, i]).correlation,
                dtype=score.dtype,
            )
            for i in range(num_test_samples)
        ],
        dim=0,
    )''', '''    loo_corr = torch.tensor(
        [r.correlation for r in _column_corr(pearsonr, score, gt_values)],
        dtype=score.dtype,
    )''')], "quiet")
m("c26-q-desc", "C26", (MT, "torch.argsort(score).flip(0)", "torch.argsort(score, descending=True)"), "quiet")
m("c26-q-neg", "C26", (BR, "np.argsort(scores.reshape(-1))[::-1]", "np.argsort(-scores.reshape(-1))"), "quiet")
m("c26-q-britlist", "C26", (BR, "    remaining_indices = list(set(original_indices) - set(indices_to_remove))\n", '''    removed = set(indices_to_remove)
    remaining_indices = [i for i in original_indices if i not in removed]
'''), "quiet")
m("c26-q-loolist", "C26", [(GT, "    loo_results = torch.zeros(length_dir, length_test)\n    model_indices = torch.empty(length_dir)\n", "    loo_results = []\n    model_indices = []\n"), (GT, "        loo_results[dir_cnt, :] = values\n", "        loo_results.append(values)\n"), (GT, "        model_indices[dir_cnt] = int(index)\n    return loo_results, model_indices", "        model_indices.append(int(index))\n    return torch.stack(loo_results), torch.tensor(model_indices, dtype=torch.float)")], "quiet")
m("c26-q-ldsmean", "C26", (GT, '''        for j in range(num_runs_per_subset):
            ckpt_path = Path(subset_dir_map[i]) / f"model_weights_{j}.pt"
            target_values[i] += target_func(ckpt_path, test_dataloader)
    target_values /= num_runs_per_subset
''', '''        subset_dir = Path(subset_dir_map[i])
        runs = [
            target_func(subset_dir / f"model_weights_{j}.pt", test_dataloader)
            for j in range(num_runs_per_subset)
        ]
        target_values[i] = sum(runs) / num_runs_per_subset
'''), "quiet")

# ---------------------------------------------------------------- C15
RT = "dattri/model_util/retrain.py"
CL = "dattri/script/dattri_retrain.py"
m("c15-map-start", "C15", (RT, "for i in range(start_id + num_subsets)\n            },", "for i in range(start_id, start_id + num_subsets)\n            },"))
m("c15-map-num", "C15", (RT, "for i in range(start_id + num_subsets)\n            },", "for i in range(num_subsets)\n            },"))
m("c15-map-dir", "C15", (RT, "i: str(path / str(i)) for i", "i: str(path / str(i + 1)) for i"))
m("c15-map-prefix", "C15", (RT, "i: str(path / str(i)) for i", 'i: str(path / f"subset_{i}") for i'))
m("c15-map-path", "C15", (RT, "i: str(path / str(i)) for i", "i: path / str(i) for i"))
m("c15-local-number", "C15", [(RT, 'indices_path = path / str(i) / "indices.txt"', 'indices_path = path / str(i - start_id) / "indices.txt"'), (RT, 'model_path = path / str(i) /', 'model_path = path / str(i - start_id) /')])
m("c15-index-local", "C15", (RT, 'indices_path = path / str(i) / "indices.txt"', 'indices_path = path / str(i - start_id) / "indices.txt"'))
m("c15-model-j", "C15", (RT, 'model_path = path / str(i) / f"model_weights_{j}.pt"', 'model_path = path / str(i) / "model_weights_0.pt"'))
m("c15-model-ij", "C15", (RT, 'model_path = path / str(i) / f"model_weights_{j}.pt"', 'model_path = path / str(j) / f"model_weights_{i}.pt"'))
m("c15-model-name", "C15", (RT, 'f"model_weights_{j}.pt"', 'f"model_weight_{j}.pt"'))
m("c15-reader-name", "C15", (GT, 'f"model_weights_{j}.pt"', 'f"model_weights_{i}.pt"'))
m("c15-reader-run", "C15", (GT, "for j in range(num_runs_per_subset):", "for j in range(1, num_runs_per_subset):"))
m("c15-reader-run2", "C15", (GT, "for j in range(num_runs_per_subset):", "for j in range(num_runs_per_subset - 1):"))
m("c15-reader-one", "C15", (GT, 'f"model_weights_{j}.pt"', '"model_weights_0.pt"'))
m("c15-reader-key", "C15", (GT, 'metadata["num_runs_per_subset"]', 'metadata["num_runs"]'))
m("c15-writer-key", "C15", (RT, '"num_runs_per_subset": num_runs_per_subset,', '"num_runs": num_runs_per_subset,'))
m("c15-writer-runs", "C15", (RT, '"num_runs_per_subset": num_runs_per_subset,', '"num_runs_per_subset": num_subsets,'))
m("c15-total", "C15", (RT, "or start_id + num_subsets == total_num_subsets", "or (start_id + 1) * num_subsets == total_num_subsets"))
m("c15-total2", "C15", (RT, "or start_id + num_subsets == total_num_subsets", "or num_subsets == total_num_subsets"))
m("c15-count", "C15", (RT, '"num_subsets": start_id + num_subsets,', '"num_subsets": num_subsets,'))
m("c15-meta-early", "C15", (RT, "    # Retrain the model for each subset\n", '    with (path / "metadata.yml").open("w") as f:\n        yaml.safe_dump({"num_subsets": start_id + num_subsets, "num_runs_per_subset": num_runs_per_subset, "subset_dir_map": {i: str(path / str(i)) for i in range(start_id + num_subsets)}}, f)\n'))
m("c15-meta-name", "C15", (RT, 'with (path / "metadata.yml").open("w") as f:', 'with (path / "metadata.yaml").open("w") as f:'))
m("c15-meta-array", "C15", (RT, '"data_length": data_length,', '"data_length": np.asarray(data_length),'))
m("c15-loo-path", "C15", (RT, '= str(model_dir)', '= model_dir'))
m("c15-loo-map", "C15", (RT, '= str(model_dir)', '= str(path)'))
m("c15-loo-key", "C15", (RT, 'metadata["map_index_dir"][index] = str(model_dir)', 'metadata["map_index_dir"][len(remaining_indices)] = str(model_dir)'))
m("c15-loo-dir", "C15", (RT, 'f"index_{index}"', 'f"idx_{index}"'))
m("c15-loo-prefix", "C15", (GT, 'prefix_len = len("index_")', 'prefix_len = len("index")'))
m("c15-loo-prefix2", "C15", (GT, 'd.name.startswith("index_")', 'd.name.startswith("idx_")'))
m("c15-loo-load", "C15", (GT, "torch.load(model_path, weights_only=False)", "torch.load(model_path)"))
m("c15-loo-cond", "C15", (RT, "if idx != index]", "if idx < index]"))
m("c15-loo-all", "C15", (RT, "[idx for idx in all_indices if idx != index]", "list(all_indices)"))
m("c15-loo-all2", "C15", (RT, "_dataset_indices(dataloader, remaining_indices)", "_dataset_indices(dataloader, all_indices)"))
m("c15-loo-loader", "C15", (RT, "model = train_func(modified_dataloader, **kwargs)", "model = train_func(dataloader, **kwargs)"))
m("c15-loo-file", "C15", (RT, 'Path(model_dir) / "model_weights.pt"', 'Path(path) / "model_weights.pt"'))
m("c15-redraw", "C15", (RT, 'f.write("\\n".join(map(str, indices)))', 'f.write("\\n".join(map(str, rng.choice(data_length, subset_length, replace=False))))'))
m("c15-complement", "C15", (RT, "_dataset_indices(dataloader, indices),\n            ),\n            batch_size=dataloader.batch_size,\n            shuffle", "_dataset_indices(dataloader, np.setdiff1d(np.arange(data_length), indices)),\n            ),\n            batch_size=dataloader.batch_size,\n            shuffle"))
m("c15-comma", "C15", (RT, '"\\n".join(map(str, indices))', '",".join(map(str, indices))'))
m("c15-space-read", "C15", (GT, "f.read().splitlines()", 'f.read().split(",")'))
m("c15-save-full", "C15", (RT, "model = train_func(subset_dataloader, seed", "model = train_func(dataloader, seed"))
m("c15-cli-num", "C15", (CL, "int(args.partition[1]) - int(args.partition[0])", "int(args.partition[1])"))
m("c15-cli-start", "C15", (CL, 'kwargs["start_id"] = int(args.partition[0])', 'kwargs["start_id"] = int(args.partition[1])'))
m("c15-cli-loo", "C15", (CL, "range(int(args.partition[0]), int(args.partition[1]))", "range(int(args.partition[1]))"))
m("c15-cli-total", "C15", (CL, 'kwargs["total_num_subsets"] = int(args.partition[2])', 'kwargs["total_num_subsets"] = int(args.partition[1])'))
m("c15-cli-len", "C15", (CL, "len(train_loader.sampler) if", "len(dataset_train) if", 0))
# quiet
m("c15q-join", "C15", (RT, 'indices_path = path / str(i) / "indices.txt"', 'indices_path = path.joinpath(f"{i}", "indices.txt")'), expect="quiet")
m("c15q-dir", "C15", [(RT, 'indices_path = path / str(i) / "indices.txt"', 'subset_dir = path / str(i)\n        indices_path = subset_dir / "indices.txt"'), (RT, 'model_path = path / str(i) / f"model_weights_{j}.pt"', 'model_path = subset_dir / ("model_weights_" + str(j) + ".pt")')], expect="quiet")
m("c15q-text", "C15", (RT, 'f.write("\\n".join(map(str, indices)))', 'f.write("\\n".join([str(int(x)) for x in indices]))'), expect="quiet")
m("c15q-gen", "C15", (RT, 'f.write("\\n".join(map(str, indices)))', 'f.write("\\n".join(f"{x}" for x in indices) + "\\n")'), expect="quiet")
m("c15q-loop", "C15", (RT, 'f.write("\\n".join(map(str, indices)))', 'for x in indices:\n                f.write(f"{x}\\n")'), expect="quiet")
m("c15q-wt", "C15", (RT, 'with Path.open(indices_path, "w") as f:\n            f.write("\\n".join(map(str, indices)))', 'indices_path.write_text("\\n".join(map(str, indices)))'), expect="quiet")
m("c15q-end", "C15", [(RT, 'for i in tqdm(range(start_id, start_id + num_subsets)', 'end_id = start_id + num_subsets\n    for i in tqdm(range(start_id, end_id)'), (RT, '"num_subsets": start_id + num_subsets', '"num_subsets": end_id'), (RT, "or start_id + num_subsets == total_num_subsets", "or total_num_subsets == end_id")], expect="quiet")
m("c15q-iter", "C15", (GT, "[int(idx) for idx in f.read().splitlines()]", "[int(line) for line in f]"), expect="quiet")
m("c15q-split", "C15", (GT, "f.read().splitlines()", "f.read().split()"), expect="quiet")
m("c15q-prefix", "C15", (GT, "    prefix_len = len(\"index_\")\n    return int(dir_name[prefix_len:])", "    return int(dir_name.removeprefix(\"index_\"))"), expect="quiet")
m("c15q-prefix2", "C15", (GT, "    prefix_len = len(\"index_\")\n    return int(dir_name[prefix_len:])", "    return int(dir_name.split(\"_\")[-1])"), expect="quiet")
m("c15q-glob", "C15", (GT, "d.name for d in retrain_path.iterdir()\n        if d.is_dir() and d.name.startswith(\"index_\")", "d.name for d in retrain_path.glob(\"index_*\") if d.is_dir()"), expect="quiet")
m("c15q-cond", "C15", (RT, "[idx for idx in all_indices if idx != index]", "[j for j in all_indices if not j == index]"), expect="quiet")
m("c15q-remove", "C15", (RT, "remaining_indices = [idx for idx in all_indices if idx != index]", "remaining_indices = list(all_indices)\n        remaining_indices.remove(index)"), expect="quiet")
m("c15q-forloop", "C15", (RT, "remaining_indices = [idx for idx in all_indices if idx != index]", "remaining_indices = []\n        for idx in all_indices:\n            if idx != index:\n                remaining_indices.append(idx)"), expect="quiet")
m("c15q-helper", "C15", [(RT, "def retrain_lds(", "def _subset_dir(path, i):\n    return path / str(i)\n\n\ndef retrain_lds("), (RT, 'indices_path = path / str(i) / "indices.txt"', 'indices_path = _subset_dir(path, i) / "indices.txt"'), (RT, 'model_path = path / str(i) / f"model_weights_{j}.pt"', 'model_path = _subset_dir(path, i) / f"model_weights_{j}.pt"')], expect="quiet")
m("c15q-cli", "C15", (CL, 'kwargs["num_subsets"] = int(args.partition[1]) - int(args.partition[0])', 'start, end = int(args.partition[0]), int(args.partition[1])\n        kwargs["num_subsets"] = end - start'), expect="quiet")
m("c15q-cli2", "C15", (CL, '        kwargs = {}\n        kwargs["indices"] = list(range(int(args.partition[0]), int(args.partition[1])))', '        first, last, _ = args.partition\n        kwargs = {"indices": list(range(int(first), int(last)))}'), expect="quiet")
m("c15q-state", "C15", (RT, "            torch.save(model.state_dict(), model_path)", "            state = model.state_dict()\n            torch.save(state, model_path)"), expect="quiet")
m("c15q-cpu", "C15", (RT, "            torch.save(model.state_dict(), model_path)", "            state = {k: v.cpu() for k, v in model.state_dict().items()}\n            torch.save(state, model_path)"), expect="quiet")

# ---- C14
LD = "dattri/benchmark/load.py"
RC = "dattri/script/dattri_retrain.py"
NG = "dattri/script/dattri_retrain_nanogpt.py"
DS = "dattri/benchmark/datasets/"
m("c14-loss-swap", "C14", (LD, '"mnist_mlp": loss_mnist_mlp', '"mnist_mlp": loss_mnist_lr'))
m("c14-train-swap", "C14", (LD, '"mnist_lr": train_mnist_lr', '"mnist_lr": train_mnist_mlp'))
m("c14-model-swap", "C14", (LD, '"mnist_lr": partial(create_lr_model, "mnist")', '"mnist_lr": partial(create_mlp_model, "mnist")'))
m("c14-model-arg", "C14", (LD, '"mnist_lr": partial(create_lr_model, "mnist")', '"mnist_lr": create_lr_model'))
m("c14-loss-missing", "C14", (LD, '    "cifar2_resnet9": loss_cifar_resnet9,\n', ''))
m("c14-size-missing", "C14", (LD, '    "wikitext2_gpt2": [4656, 481],\n', ''))
m("c14-size-wrong", "C14", (LD, '"wikitext2_gpt2": [4656, 481]', '"wikitext2_gpt2": [481, 4656]'))
m("c14-size-idx", "C14", (LD, "SAMPLERSIZE_MAP[identifier][1]", "SAMPLERSIZE_MAP[identifier][0]"))
m("c14-ds-missing", "C14", (LD, '    "wikitext2": create_wikitext2_dataset,\n', ''))
m("c14-half-full", "C14", (LD, '        / "models_half"\n        / f"{i}"', '        / "models_full"\n        / f"{i}"'))
m("c14-half-count", "C14", (LD, '        download_path / "benchmark" / identifier / "models_half",\n    )', '        download_path / "benchmark" / identifier / "half",\n    )'))
m("c14-lds-dir", "C14", (LD, 'download_path / "benchmark" / identifier / "lds",', 'download_path / "benchmark" / identifier / "LDS",'))
m("c14-target-file", "C14", (LD, 'f"target_values_{metric}.pt"', 'f"targets_{metric}.pt"'))
m("c14-datasets-swapped", "C14", (LD, "        train_dataset, test_dataset = SUPPORTED_DATASETS", "        test_dataset, train_dataset = SUPPORTED_DATASETS"))
m("c14-mnist-swap", "C14", (DS + "mnist/data.py", "return dataset_train, dataset_test", "return dataset_test, dataset_train"))
m("c14-mnist-both", "C14", (DS + "mnist/data.py", "train=False", "train=True"))
m("c14-model-none", "C14", (LD, "        model_instance = None\n", "        model_instance = model\n"))
m("c14-loss-arg", "C14", (DS + "mnist/mnist_mlp.py", 'model = create_mlp_model("mnist")', 'model = create_mlp_model("mnist", dropout_rate=0.5)', 1))
m("c14-loss-name", "C14", (DS + "mnist/mnist_mlp.py", 'model = create_mlp_model("mnist")', 'model = create_mlp_model("cifar10")', 1))
m("c14-cifar-classes", "C14", (DS + "cifar/cifar_resnet9.py", "    num_classes: int = 2,\n", "    num_classes: int = 10,\n", 1))
m("c14-noto-model", "C14", (DS + "mnist/mnist_mlp.py", "    model.to(device)\n", ""))
m("c14-noto-data", "C14", (DS + "mnist/mnist_mlp.py", "model(inputs.to(device))", "model(inputs)"))
m("c14-noto-labels", "C14", (DS + "mnist/mnist_mlp.py", "labels.to(device))", "labels)", 1))
m("c14-late-to", "C14", (DS + "mnist/mnist_mlp.py", """    model.to(device)
    loss_list = []
    with torch.no_grad():
        for inputs, labels in dataloader:
            outputs = model(inputs.to(device))
""", """    loss_list = []
    with torch.no_grad():
        for inputs, labels in dataloader:
            outputs = model(inputs.to(device))
            model.to(device)
"""))
m("c14-wt-device", "C14", (DS + "wikitext2/wikitext2_gpt2.py", "{key: value.to(device) for key, value in batch.items()}", "dict(batch.items())"))
m("c14-mt-device", "C14", (DS + "maestro/maestro_musictransformer.py", "create_musictransformer_model(device)", "create_musictransformer_model()"))
m("c14-train-signature", "C14", (DS + "mnist/mnist_lr.py", "    seed: int = 0,\n    device: str", "    random_seed: int = 0,\n    device: str"))
m("c14-cli-setting", "C14", (RC, '    "cifar2_resnet9": train_cifar_resnet9,\n', ''))
m("c14-cli-batch", "C14", (RC, '    "mnist_mlp": 64,\n', ''))
m("c14-cli-ds", "C14", (RC, '    "maestro": create_maestro_datasets,\n', ''))
m("c14-cli-model", "C14", (RC, '"lr", "mlp", "resnet18"', '"lr", "resnet18"'))
m("c14-cli-order", "C14", (RC, 'f"{args.dataset}_{args.model}"', 'f"{args.model}_{args.dataset}"'))
m("c14-cli-key", "C14", (RC, 'kwargs["total_num_subsets"]', 'kwargs["total_subsets"]'))
m("c14-cli-dup", "C14", (RC, '    kwargs["device"] = args.device', '    kwargs["seed"] = args.seed'))
m("c14-cli-indices", "C14", (RC, '    if args.mode == "loo":\n        kwargs = {}', '    else:\n        kwargs = {}'), expect="quiet")
m("c14-cli-modes", "C14", (RC, '{"loo": retrain_loo, "lds": retrain_lds}', '{"loo": retrain_lds, "lds": retrain_loo}'))
m("c14-cli-unpack", "C14", (RC, "dataset_train, _ = dataset_func(args.data_path)", "dataset_train, _, _ = dataset_func(args.data_path)"))
m("c14-cli-test", "C14", (RC, "dataset_train, _ = dataset_func(args.data_path)", "_, dataset_train = dataset_func(args.data_path)"))
m("c14-nano-key", "C14", (NG, 'line.startswith("subset_ratio")', 'line.startswith("subset_fraction")'))
m("c14-nano-cfg", "C14", (NG, "config/train_{args.dataset}.py", "config/{args.dataset}.py"))
m("c14-nano-args", "C14", (NG, """        args.config_path,
        args.data_path,
""", """        args.data_path,
        args.config_path,
"""))
m("c14-main-arg", "C14", (RC, "def main() -> None:", "def main(argv) -> None:"))
# quiet
m("c14-q-or", "C14", (LD, """    if LOSS_MAP[identifier] is not None:
        loss_func = target_func = LOSS_MAP[identifier]
    else:
        loss_func = target_func = None
""", """    loss_func = target_func = LOSS_MAP[identifier]
"""), expect="quiet")
m("c14-q-get", "C14", (LD, """    if TRAIN_FUNC_MAP[identifier] is not None:
        train_func = TRAIN_FUNC_MAP[identifier]
    else:
        train_func = None
""", """    train_func = TRAIN_FUNC_MAP.get(identifier)
"""), expect="quiet")
m("c14-q-factory", "C14", (LD, """    if MODEL_MAP[identifier] is not None:
        model_instance = MODEL_MAP[identifier]().eval()
    else:
        model_instance = None
""", """    factory = MODEL_MAP[identifier]
    model_instance = factory().eval() if factory is not None else None
"""), expect="quiet")
m("c14-q-sizes", "C14", (LD, """    return {
        "model": model_instance,""", """    train_size, test_size = SAMPLERSIZE_MAP[identifier]
    return {
        "model": model_instance,"""), expect="quiet")
m("c14-q-lambda", "C14", (LD, '"mnist_lr": partial(create_lr_model, "mnist")', '"mnist_lr": lambda: create_lr_model("mnist")'), expect="quiet")
m("c14-q-kw", "C14", (LD, '"mnist_lr": partial(create_lr_model, "mnist")', '"mnist_lr": partial(create_lr_model, dataset="mnist")'), expect="quiet")
m("c14-q-chain", "C14", (DS + "mnist/mnist_mlp.py", '    model = create_mlp_model("mnist")\n', '    model = create_mlp_model("mnist").to(device)\n'), expect="quiet")
m("c14-q-tolist", "C14", (DS + "cifar/cifar_resnet9.py", "images_t, labels_t = images.to(device), labels.to(device)", "images_t, labels_t = [z.to(device) for z in (images, labels)]"), expect="quiet")
m("c14-q-dirs", "C14", (LD, """    download_path = pathlib.Path(download_path).expanduser()
""", """    download_path = pathlib.Path(download_path)
    download_path = download_path.expanduser()
    root = download_path / "benchmark" / identifier
"""), expect="quiet")
m("c14-q-root", "C14", [(LD, """    download_path = pathlib.Path(download_path).expanduser()
""", """    download_path = pathlib.Path(download_path).expanduser()
    root = download_path / "benchmark" / identifier
"""), (LD, """        download_path / "benchmark" / identifier / metric / f"indices_{metric}.pt",""", """        root / metric / f"indices_{metric}.pt",""")], expect="quiet")
m("c14-q-cli-name", "C14", (RC, 'setting = f"{args.dataset}_{args.model}"', 'setting = "_".join([args.dataset, args.model])'), expect="quiet")
m("c14-q-cli-helper", "C14", (RC, """    train_func = SUPPORTED_SETTINGS[setting]
""", """    if setting not in SUPPORTED_SETTINGS:
        parser.error(f"{setting} is not supported.")
    train_func = SUPPORTED_SETTINGS[setting]
"""), expect="quiet")
m("c14-q-cli-kwargs", "C14", (RC, """        kwargs = {}
        kwargs["num_subsets"] = int(args.partition[1]) - int(args.partition[0])
        kwargs["total_num_subsets"] = int(args.partition[2])
        kwargs["start_id"] = int(args.partition[0])
""", """        kwargs = {
            "num_subsets": int(args.partition[1]) - int(args.partition[0]),
            "total_num_subsets": int(args.partition[2]),
            "start_id": int(args.partition[0]),
        }
"""), expect="quiet")
m("c14-q-nano-dict", "C14", (NG, """            elif line.startswith("seed"):
                modified_config.append(f"seed = {seed}\\n")
            elif line.startswith("subset_ratio"):
                modified_config.append(f"subset_ratio = {subset_ratio}\\n")
""", """            elif line.startswith("subset_ratio"):
                modified_config.append(f"subset_ratio = {subset_ratio}\\n")
            elif line.startswith("seed"):
                modified_config.append(f"seed = {seed}\\n")
"""), expect="quiet")
m("c14-half-count2", "C14", (LD, '        download_path / "benchmark" / identifier / "models_half",\n    )', '        download_path / "benchmark" / identifier / "models_full",\n    )'))

# ---- C19
RM = "dattri/benchmark/models/MusicTransformer/utilities/run_model.py"
TS = "dattri/task.py"
m("c19-noeval", "C19", (DS + "mnist/mnist_mlp.py", "    model.eval()\n", ""))
m("c19-noeval2", "C19", (DS + "imagenet/imagenet_resnet18.py", "    model.eval()\n", ""))
m("c19-noeval3", "C19", (DS + "wikitext2/wikitext2_gpt2.py", "    model.eval()\n", ""))
m("c19-train", "C19", (DS + "cifar/cifar_resnet9.py", "    model.eval()\n", "    model.train()\n"))
m("c19-evalfalse", "C19", (DS + "cifar/cifar_resnet9.py", "    model.eval()\n", "    model.train(True)\n"))
m("c19-late", "C19", (DS + "cifar/cifar_resnet9.py", """            outputs = model(images_t)
            loss = criterion(outputs, labels_t)
            loss_list""", """            outputs = model(images_t)
            model.train()
            loss = criterion(outputs, labels_t)
            loss_list"""))
m("c19-after", "C19", [(DS + "cifar/cifar_resnet9.py", "    model.eval()\n", ""), (DS + "cifar/cifar_resnet9.py", "    return torch.cat(loss_list)", "    model.eval()\n    return torch.cat(loss_list)")])
m("c19-cond", "C19", (DS + "mnist/mnist_lr.py", "    model.eval()\n", '    if device == "cpu":\n        model.eval()\n'))
m("c19-noload", "C19", (DS + "mnist/mnist_lr.py", "    model.load_state_dict(torch.load(Path(model_path)))\n", ""))
m("c19-condload", "C19", (DS + "mnist/mnist_lr.py", "    model.load_state_dict(torch.load(Path(model_path)))\n", "    if Path(model_path).exists():\n        model.load_state_dict(torch.load(Path(model_path)))\n"))
m("c19-otherload", "C19", (DS + "maestro/maestro_musictransformer.py", "    model.load_state_dict(torch.load(Path(model_path)))\n", "    model.load_state_dict(model.state_dict())\n"))
m("c19-remade", "C19", (DS + "wikitext2/wikitext2_gpt2.py", "    model.eval()\n", "    model.eval()\n    model = create_gpt2_model()\n    model.eval()\n"))
m("c19-backward", "C19", (DS + "mnist/mnist_lr.py", "            loss_list.append(", "            loss.sum().backward()\n            loss_list.append("))
m("c19-evalmodel", "C19", (RM, "    model.eval()\n", ""))
m("c19-evalmodel2", "C19", (RM, "    model.eval()\n", "    model.train(model.training)\n"))
m("c19-train-epoch", "C19", (RM, "    model.train()\n", ""))
m("c19-train-wt", "C19", (DS + "wikitext2/wikitext2_gpt2.py", "    model.train()\n", ""))
m("c19-train-eval", "C19", (DS + "mnist/mnist_mlp.py", "    model.train()\n", "    model.eval()\n"))
m("c19-train-logging", "C19", (DS + "imagenet/imagenet_resnet18.py", "            running_loss += loss.item()", "            model.eval()\n            running_loss += loss.item()"))
m("c19-task", "C19", (TS, "    model.eval()\n    return model", "    return model"))
m("c19-task2", "C19", (TS, "    model.load_state_dict(checkpoint)\n    model.eval()\n", "        model.eval()\n    model.load_state_dict(checkpoint)\n"))
m("c19-task3", "C19", (TS, "    model.load_state_dict(checkpoint)\n", "        model.load_state_dict(checkpoint)\n"))
m("c19-dvemb", "C19", (DV, "        self.model.eval()\n", ""))
m("c19-brit", "C19", (BR, "    model.eval()\n", ""))
m("c19-brit2", "C19", (BR, "    pred = eval_func(model, test_loader)", "    model.train()\n    pred = eval_func(model, test_loader)"))
m("c19-load", "C19", (LD, "MODEL_MAP[identifier]().eval()", "MODEL_MAP[identifier]()"))
m("c19-attr-train", "C19", (A + "base.py", "        _check_shuffle(train_dataloader)\n", "        _check_shuffle(train_dataloader)\n        self.task.get_model().train()\n"))
# quiet
m("c19-q-chain", "C19", (DS + "mnist/mnist_lr.py", "    model.eval()\n    model.to(device)\n", "    model = model.to(device).eval()\n"), expect="quiet")
m("c19-q-false", "C19", (DS + "mnist/mnist_lr.py", "    model.eval()\n", "    model.train(False)\n"), expect="quiet")
m("c19-q-order", "C19", [(DS + "mnist/mnist_lr.py", "    model.eval()\n", ""), (DS + "mnist/mnist_lr.py", "    model.load_state_dict(torch", "    model.eval()\n    model.load_state_dict(torch")], expect="quiet")
m("c19-q-helper", "C19", [(DS + "mnist/mnist_lr.py", """    model.load_state_dict(torch.load(Path(model_path)))
    model.eval()
    model.to(device)
""", """    _prepare(model, model_path, device)
"""), (DS + "mnist/mnist_lr.py", "def loss_mnist_lr(", '''def _prepare(model, path, device):
    state = torch.load(Path(path), map_location=device)
    model.load_state_dict(state)
    model.to(device)
    model.eval()


def loss_mnist_lr(''')], expect="quiet")
m("c19-q-helper2", "C19", [(DS + "mnist/mnist_lr.py", """    loss_list = []
    with torch.no_grad():
        for inputs, labels in dataloader:
            outputs = model(inputs.to(device))
            loss = criterion(outputs, labels.to(device))
            loss_list.append(loss.clone().detach().cpu())
    return torch.cat(loss_list)
""", """    return eval_batches(model, criterion, dataloader, device)


@torch.no_grad()
def eval_batches(model, criterion, dataloader, device):
    loss_list = []
    for inputs, labels in dataloader:
        outputs = model(inputs.to(device))
        loss = criterion(outputs, labels.to(device))
        loss_list.append(loss.clone().detach().cpu())
    return torch.cat(loss_list)
""")], expect="quiet")
m("c19-q-trainhelper", "C19", (DS + "mnist/mnist_mlp.py", """    for _ in range(epoch_num):
        for inputs, labels in dataloader:
            optimizer.zero_grad()
            outputs = model(inputs.to(device))
            loss = criterion(outputs, labels.to(device))
            loss.backward()
            optimizer.step()
""", """    def step(inputs, labels):
        optimizer.zero_grad()
        loss = criterion(model(inputs.to(device)), labels.to(device))
        loss.backward()
        optimizer.step()

    for _ in range(epoch_num):
        for inputs, labels in dataloader:
            step(inputs, labels)
"""), expect="quiet")
m("c19-q-task", "C19", (TS, "    model.load_state_dict(checkpoint)\n    model.eval()\n    return model", "    model.load_state_dict(checkpoint)\n    return model.eval()"), expect="quiet")
m("c19-q-brit", "C19", (BR, "    model.to(device)\n    model.eval()\n", "    model = model.to(device).eval()\n"), expect="quiet")
m("c19-q-dvemb", "C19", (DV, "        self.model.eval()\n", "        self.model.train(mode=False)\n"), expect="quiet")

# ---- C20
NT = "dattri/benchmark/models/nanoGPT/train.py"
MM = DS + "mnist/mnist_mlp.py"
m("c20-notorch", "C20", (MM, "    torch.manual_seed(seed)\n", ""))
m("c20-nonumpy", "C20", (MM, "    np.random.seed(seed)  # noqa: NPY002\n", ""))
m("c20-norandom", "C20", (DS + "maestro/maestro_musictransformer.py", "    random.seed(seed)\n", ""))
m("c20-const", "C20", (MM, "    torch.manual_seed(seed)\n", "    torch.manual_seed(0)\n"))
m("c20-rng", "C20", (DS + "wikitext2/wikitext2_gpt2.py", "np.random.seed(seed)", "np.random.default_rng(seed)"))
m("c20-late", "C20", [(MM, "    torch.manual_seed(seed)\n", ""), (MM, '    model = create_mlp_model("mnist")\n', '    model = create_mlp_model("mnist")\n    torch.manual_seed(seed)\n')])
m("c20-late-wt", "C20", [(DS + "wikitext2/wikitext2_gpt2.py", "    torch.manual_seed(seed)\n", ""), (DS + "wikitext2/wikitext2_gpt2.py", "    model.train()\n", "    model.train()\n    torch.manual_seed(seed)\n")])
m("c20-late-cifar", "C20", [(DS + "cifar/cifar_resnet9.py", "    torch.manual_seed(seed)\n", ""), (DS + "cifar/cifar_resnet9.py", "    model.to(device)\n", "    model.to(device)\n    torch.manual_seed(seed)\n")])
m("c20-late-imagenet", "C20", [(DS + "imagenet/imagenet_resnet18.py", "    torch.manual_seed(seed)\n", ""), (DS + "imagenet/imagenet_resnet18.py", "    model.to(device)\n", "    model.to(device)\n    torch.manual_seed(seed)\n")])
m("c20-cond", "C20", (MM, "    torch.manual_seed(seed)\n", "    if seed:\n        torch.manual_seed(seed)\n"))
m("c20-reseed", "C20", (DS + "cifar/cifar_resnet9.py", "        running_loss = 0.0\n", "        running_loss = 0.0\n        torch.seed()\n"))
m("c20-epochseed", "C20", (DS + "cifar/cifar_resnet9.py", "        running_loss = 0.0\n", "        running_loss = 0.0\n        torch.manual_seed(epoch)\n"))
m("c20-time", "C20", [(MM, "import random\n", "import random\nimport time\n"), (MM, "    torch.manual_seed(seed)\n", "    torch.manual_seed(seed + int(time.time()))\n")])
m("c20-lr-before", "C20", [(DS + "mnist/mnist_lr.py", "    torch.manual_seed(seed)\n", "    model = create_lr_model(\"mnist\")\n    torch.manual_seed(seed)\n")])
m("c20-loo-noseed", "C20", (RT, '        kwargs["seed"] = seed\n', ""))
m("c20-lds-samerun", "C20", (RT, "seed + i * num_runs_per_subset + j", "seed + i"))
m("c20-lds-collide", "C20", (RT, "seed + i * num_runs_per_subset + j", "seed + i + j"))
m("c20-lds-nopass", "C20", (RT, "train_func(subset_dataloader, seed=train_seed, **kwargs)", "train_func(subset_dataloader, **kwargs)"))
m("c20-lds-rng", "C20", (RT, "            rng = np.random.default_rng(seed + i)\n", "            pass\n"))
m("c20-lds-rng2", "C20", (RT, "np.random.default_rng(seed + i)", "np.random.default_rng()"))
m("c20-lds-rng3", "C20", (RT, "np.random.default_rng(seed + i)", "np.random.default_rng(i)"))
m("c20-lds-global", "C20", (RT, "rng.choice(data_length", "np.random.choice(data_length"))
m("c20-lds-seedzero", "C20", (RT, "        if seed is not None:\n            rng", "        if seed:\n            rng"))
m("c20-lds-index", "C20", (RT, "seed + i * num_runs_per_subset + j", "i * num_runs_per_subset + j"))
m("c20-cli", "C20", (RC, "        seed=args.seed,\n", ""))
m("c20-cli2", "C20", (RC, "seed=args.seed", "seed=0"))
m("c20-nano", "C20", (NG, 'f"seed = {seed}\\n"', 'f"seed = {start_id}\\n"'))
m("c20-nano2", "C20", (NG, "        seed += 1\n", ""))
m("c20-nano3", "C20", (NT, "torch.manual_seed(seed)\nnp.random.seed(seed)\n", "np.random.seed(seed)\n"))
m("c20-nano4", "C20", (NT, "torch.manual_seed(seed + seed_offset)", "torch.manual_seed(1337 + seed_offset)"))
m("c20-nano5", "C20", (NG, "        args.seed,\n        args.subset", "        42,\n        args.subset"))
# quiet
m("c20-q-helper", "C20", [(MM, """    torch.manual_seed(seed)
    np.random.seed(seed)  # noqa: NPY002
    random.seed(seed)
""", "    _fix_seed(seed)\n"), (MM, "def train_mnist_mlp(", """def _fix_seed(value):
    random.seed(value)
    np.random.seed(value)
    torch.manual_seed(value)


def train_mnist_mlp(""")], expect="quiet")
m("c20-q-order", "C20", (MM, """    torch.manual_seed(seed)
    np.random.seed(seed)  # noqa: NPY002
    random.seed(seed)

    model = create_mlp_model("mnist")
""", """    torch.manual_seed(seed)
    model = create_mlp_model("mnist")
    np.random.seed(seed)  # noqa: NPY002
    random.seed(seed)
"""), expect="quiet")
m("c20-q-loop", "C20", (MM, """    torch.manual_seed(seed)
    np.random.seed(seed)  # noqa: NPY002
    random.seed(seed)
""", """    for fix in (torch.manual_seed, np.random.seed, random.seed):
        fix(seed)
"""), expect="quiet")
m("c20-q-offset", "C20", (RT, "                train_seed = seed + i * num_runs_per_subset + j\n", "                run = i * num_runs_per_subset + j\n                train_seed = run + seed\n"), expect="quiet")
m("c20-q-rng", "C20", (RT, "rng = np.random.default_rng(seed + i)", "rng = np.random.default_rng(i + seed)"), expect="quiet")
m("c20-q-mod", "C20", (MM, "np.random.seed(seed)", "np.random.seed(seed % 2**32)"), expect="quiet")
m("c20-q-criterion", "C20", (MM, """    torch.manual_seed(seed)
""", """    criterion = nn.CrossEntropyLoss()
    torch.manual_seed(seed)
"""), expect="quiet")
m("c20-q-reseed", "C20", (DS + "cifar/cifar_resnet9.py", "        running_loss = 0.0\n", "        running_loss = 0.0\n        torch.manual_seed(seed + epoch)\n"), expect="quiet")
m("c20-q-subset", "C20", (RT, """        indices = rng.choice(data_length, subset_length, replace=False)
""", """        indices = _draw(rng, data_length, subset_length)
"""), expect="quiet")
M[-1]["edits"].append((RT, "def retrain_lds(", """def _draw(generator, n, k):
    return generator.choice(n, k, replace=False)


def retrain_lds("""))
m("c20-q-loo", "C20", (RT, "model = train_func(modified_dataloader, **kwargs)", "options = dict(kwargs)\n        model = train_func(modified_dataloader, **options)"), expect="quiet")

# --- third batch, written from the statements of the properties ---------------------------------
B, IF, TR, TK, RP, DV, DS = ("dattri/algorithm/base.py", "dattri/algorithm/influence_function.py", "dattri/algorithm/tracin.py",
                             "dattri/algorithm/trak.py", "dattri/algorithm/rps.py", "dattri/algorithm/dvemb.py", "dattri/algorithm/data_shapley.py")
TA, HE, FI, FU, PJ = "dattri/task.py", "dattri/func/hessian.py", "dattri/func/fisher.py", "dattri/func/utils.py", "dattri/func/projection.py"
BP = "dattri/algorithm/block_projected_if/block_projected_if.py"
BH = "dattri/algorithm/block_projected_if/core/hook.py"
RT, GT, ME, BR = "dattri/model_util/retrain.py", "dattri/metric/ground_truth.py", "dattri/metric/metrics.py", "dattri/metric/britteness.py"
# C01
m("b3-c01-base-train-enum", ["C01"], (B, "row_st = train_batch_idx * train_dataloader.batch_size", "row_st = train_batch_idx * len(train_batch_rep)"))
m("b3-c01-dvemb-cat-sorted", ["C01"], (DV, "train_embeddings = active_embeddings[train_data_indices]", "train_embeddings = active_embeddings[sorted(set(train_data_indices))]"))
m("b3-c01-dvemb-indices-arange", ["C01"], (DV, "epoch_embeddings.index_add_(0, indices_t.to(self.device), dvemb_t)", "epoch_embeddings[: len(dvemb_t)] += dvemb_t"))
m("b3-c01-block-testrow", ["C01"], (BP, "if_score[train_start:train_end, test_start:test_end] = (", "if_score[start_row:end_row, test_start:test_end] = ("))
m("b3-c01-lissa-none", ["C01"], (RP, "intermediate_x_train @ intermediate_x_test.T * alpha\n", "(intermediate_x_test @ intermediate_x_train.T).T.flip(0) * alpha\n", -1) if False else (TK, "return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T", "return running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)"))
m("b3-c01-drop-last-size", ["C01"], (TR, "size=(len(train_dataloader.sampler), len(test_dataloader.sampler)),", "size=(len(train_dataloader.dataset), len(test_dataloader.sampler)),"))
# C02
m("b3-c02-lissa-target", ["C02"], (IF, "self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),\n                collate_fn", "self.task.get_target_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),\n                collate_fn"))
m("b3-c02-block-test-loss", ["C02"], (BP, "self.task.original_target_func(self.model, batch, self.device)", "self.task.original_loss_func(self.model, batch, self.device)"))
m("b3-c02-dvemb-swapped", ["C02"], (DV, "if is_test\n", "if not is_test\n"))
m("b3-c02-dvemb-attr-flag", ["C02"], (DV, "grads = self._calculate_full_gradients(batch_data, is_test=True)", "grads = self._calculate_full_gradients(batch_data)"))
m("b3-c02-task-default", ["C02"], (TA, "self.target_func = flatten_func(self.model)(target_func)", "self.target_func = flatten_func(self.model)(loss_func)"))
m("b3-c02-grad-cache-shared", ["C02"], (TA, "            self.grad_target_func_kwargs = grad_target_func_kwargs\n        return self.grad_target_func", "            self.grad_target_func_kwargs = grad_target_func_kwargs\n        return self.grad_loss_func"))
m("b3-c02-ekfac-target", ["C02"], (IF, "func = partial(self.task.get_loss_func(), self.task.get_param()[0])", "func = partial(self.task.get_target_func(), self.task.get_param()[0])"))
# C03
m("b3-c03-arnoldi-func0", ["C03"], (IF, "self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=i),", "self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=0),"))
m("b3-c03-arnoldi-param0", ["C03"], (IF, "model_params, _ = self.task.get_param(i, layer_name=self.layer_name)", "model_params, _ = self.task.get_param(layer_name=self.layer_name)"))
m("b3-c03-datainf-key", ["C03"], (IF, "            self._cached_train_reps[ckpt_idx],\n", "            self._cached_train_reps[0],\n"))
m("b3-c03-datainf-list-outside", ["C03"], [(IF, "        for checkpoint_idx in range(len(self.task.get_checkpoints())):\n            _cached_train_reps_list = []\n", "        _cached_train_reps_list = []\n        for checkpoint_idx in range(len(self.task.get_checkpoints())):\n")])
m("b3-c03-load-skipped", ["C03"], (TA, "            self.current_checkpoint_idx is None\n            or self.current_checkpoint_idx != ckpt_idx\n", "            self.current_checkpoint_idx is None\n            or self.current_checkpoint_idx < ckpt_idx\n"))
m("b3-c03-base-mean-last", ["C03"], (B, "            tda_output /= checkpoint_idx + 1\n\n        return tda_output\n", "        tda_output /= checkpoint_idx + 1\n\n        return tda_output\n"))
m("b3-c03-trak-mean", ["C03"], (TK, "            running_Q = running_Q * running_count + Q\n            running_count += 1  # noqa: SIM113\n            running_Q /= running_count", "            running_count += 1  # noqa: SIM113\n            running_Q = running_Q * running_count + Q\n            running_Q /= running_count"))
m("b3-c03-tracin-ensemble", ["C10"], (TR, "                            ensemble_id=ckpt_idx,", "                            ensemble_id=0,"))
m("b3-c03-tracin-weight-sorted", ["C03"], (TR, "            self.weight_list,\n        ):", "            sorted(self.weight_list),\n        ):"))
# C04
m("b3-c04-cg-nolayer", ["C04"], (IF, "                    self.task.get_loss_func(\n                        layer_name=self.layer_name,\n                        ckpt_idx=ckpt_idx,\n                    ),\n                    **{self.task.loss_func_data_key: full_data},\n                ),\n                **self.transformation_kwargs,\n            )\n            vector_product += self.ihvp_func((model_params,), test_rep).detach()", "                    self.task.get_loss_func(),\n                    **{self.task.loss_func_data_key: full_data},\n                ),\n                **self.transformation_kwargs,\n            )\n            vector_product += self.ihvp_func((model_params,), test_rep).detach()"))
m("b3-c04-partial-str", ["C04", "C21"], (FU, "            for layer in layer_name:\n                length_param", "            for layer in sorted(layer_name):\n                length_param"))
m("b3-c04-trak-test", ["C04"], (TK, "                self.grad_target_func = self.task.get_grad_target_func(\n                    in_dims=(None, 0),\n                    layer_name=self.layer_name,", "                self.grad_target_func = self.task.get_grad_target_func(\n                    in_dims=(None, 0),\n                    layer_name=None,", 1))
m("b3-c04-datainf-split", ["C04"], (IF, "            layer_name=self.layer_name,\n            layer_split=True,", "            layer_split=True,"))
# C05
m("b3-c05-ekfac-first-only", ["C05"], (IF, "            for handle in handles:\n                handle.remove()", "            for handle in handles[:-1]:\n                handle.remove()"))
m("b3-c05-dvemb-before-try", ["C05"], (DV, "        self.model.zero_grad()\n        handles, caches = self._register_factorization_hooks()\n\n        try:\n            # Strict requirements on batch_data\n            batch_data_tensors = [d.to(self.device) for d in batch_data]\n", "        self.model.zero_grad()\n        handles, caches = self._register_factorization_hooks()\n        batch_data_tensors = [d.to(self.device) for d in batch_data]\n\n        try:\n"))
m("b3-c05-hook-linear-only", ["C05"], (BH, "                module.forward = module._original_forward\n                delattr(module, \"_original_forward\")", "                delattr(module, \"_original_forward\")"))
m("b3-c05-block-except", ["C05"], (BP, "        try:\n            self._store_train_gradients(full_train_dataloader)\n        finally:\n            self._remove_hooks()\n", "        try:\n            self._store_train_gradients(full_train_dataloader)\n        except RuntimeError:\n            self._remove_hooks()\n            raise\n        self._remove_hooks()\n"))
# C06
m("b3-c06-cg-swap", ["C06"], (IF, '            "mode": mode,\n            "regularization": regularization,\n        }\n\n    def transform_test_rep(\n        self,\n        ckpt_idx: int,\n        test_rep: torch.Tensor,\n    ) -> torch.Tensor:\n        """Calculate the transformation on the test rep through ihvp_cg.', '            "mode": mode,\n        }\n\n    def transform_test_rep(\n        self,\n        ckpt_idx: int,\n        test_rep: torch.Tensor,\n    ) -> torch.Tensor:\n        """Calculate the transformation on the test rep through ihvp_cg.'))
m("b3-c06-lissa-args", ["C06"], (HE, "            damping,\n            scaling,\n            collate_fn,", "            scaling,\n            damping,\n            collate_fn,"))
m("b3-c06-hvp-reg", ["C06"], (HE, "            return jvp(grad_func, x, v_patched)[1] + regularization * v\n\n    return _hvp_at_x_func", "            return jvp(grad_func, x, v_patched)[1]\n\n    return _hvp_at_x_func"))
m("b3-c06-ekfac-maxiter", ["C06"], (IF, "                self.layer_cache,\n                max_iter,\n                device=self.device,\n            )\n        finally", "                self.layer_cache,\n                device=self.device,\n            )\n        finally"))
m("b3-c06-arnoldi-tol", ["C06"], (PJ, "            self.norm_constant,\n            self.tol,\n            self.device,\n        )\n\n        # get top k", "            self.tol,\n            self.norm_constant,\n            self.device,\n        )\n\n        # get top k"))
m("b3-c06-datainf-ratio", ["C06"], (IF, "len(full_train_dataloader) * self.fim_estimate_data_ratio,", "len(full_train_dataloader),"))
m("b3-c06-block-damping", ["C06"], (BP, "        if damping is None:\n            damping = self.damping\n", "        if self.damping is not None:\n            damping = self.damping\n"))
m("b3-c06-block-projparams", ["C06"], (BP, "            projector_params=self.projector_params,\n            sample_inputs", "            projector_params=self.sparsifier_params,\n            sample_inputs"))
m("b3-c06-trak-reg-self", ["C06"], (TK, "kernel_matrix.diagonal().add_(self.regularization)", "kernel_matrix.diagonal()", 2))
m("b3-c06-rps-l2", ["C06"], (RP, "            lambda_l2=self.l2_strength,\n            num_epoch=self.epoch,\n            device=self.device,\n        )\n\n    def attribute", "            num_epoch=self.epoch,\n            device=self.device,\n        )\n\n    def attribute"))
m("b3-c06-proj-seed", ["C06"], (PJ, "                proj_dim=proj_dim,\n                seed=proj_seed,\n                proj_type=proj_type,\n                device=device,\n                dtype=dtype,\n                grass_multiplier=grass_multiplier,\n            )\n        else:", "                proj_dim=proj_dim,\n                seed=0,\n                proj_type=proj_type,\n                device=device,\n                dtype=dtype,\n                grass_multiplier=grass_multiplier,\n            )\n        else:"))
m("b3-c06-chunk", ["C06"], (BP, "            chunk_size=chunk_size,\n        )", "            chunk_size=32,\n        )"))
# C07
m("b3-c07-base-denom", ["C07"], (B, "                denom = None\n                if relatif_method is not None:", "                if relatif_method is not None:"))
m("b3-c07-dvemb-attr", ["C07"], (DV, "        self._caching_method: Optional[str] = None\n\n    def", "\n    def"))
m("b3-c07-trak-test", ["C07"], (TK, "            if train_dataloader is not None:\n                running_Q = running_Q * running_count + Q\n", "            running_Q = running_Q * running_count + Q\n"))
# C08
m("b3-c08-datainf-dict", ["C08"], (IF, "                        k: v.to(self.device).unsqueeze(0)\n                        for k, v in sampled_data_.items()", "                        k: v.unsqueeze(0)\n                        for k, v in sampled_data_.items()"))
m("b3-c08-cg-list", ["C08"], (IF, "            if isinstance(full_data_, (tuple, list)):\n                full_data = tuple(\n                    data.to(self.device) for data in full_data_\n                )\n            elif isinstance(full_data_, dict):\n                full_data = {\n                    k: v.to(self.device) for k, v in full_data_.items()\n                }\n            else:\n                msg = (\n                    \"We currently only support the train/test data to be \"\n                    \"tuple, list, or dict.\"\n                )\n                raise TypeError(msg)\n\n            self.ihvp_func = ihvp_cg(", "            if isinstance(full_data_, tuple):\n                full_data = tuple(\n                    data.to(self.device) for data in full_data_\n                )\n            elif isinstance(full_data_, dict):\n                full_data = {\n                    k: v.to(self.device) for k, v in full_data_.items()\n                }\n            else:\n                msg = (\n                    \"We currently only support the train/test data to be \"\n                    \"tuple, list, or dict.\"\n                )\n                raise TypeError(msg)\n\n            self.ihvp_func = ihvp_cg("))
m("b3-c08-base-else", ["C08"], (B, "                elif isinstance(train_batch_data_, dict):\n                    train_batch_data = {\n                        k: v.to(self.device).unsqueeze(0)\n                        for k, v in train_batch_data_.items()\n                    }\n                else:\n                    msg = (\n                        \"We currently only support the train/test data to be \"\n                        \"tuple, list, or dict.\"\n                    )\n                    raise TypeError(msg)\n", "                else:\n                    train_batch_data = {\n                        k: v.to(self.device).unsqueeze(0)\n                        for k, v in train_batch_data_.items()\n                    }\n"))
m("b3-c08-trak-skip", ["C08"], (TK, "                    raise TypeError(msg)\n\n                grad_t = self.grad_loss_func(parameters, train_batch_data)", "                    continue\n\n                grad_t = self.grad_loss_func(parameters, train_batch_data)"))
# C09
m("b3-c09-partial-inplace", ["C09"], (FU, "            merged_param = dict(full_param)\n", "            merged_param = full_param\n"))
m("b3-c09-arnoldi-start", ["C09"], (DV, "                dvemb_t = eta_t * grads_t - eta_t * (grads_t @ m_matrix.T)\n", "                grads_t *= eta_t\n                dvemb_t = grads_t - (grads_t @ m_matrix.T)\n                grads_t /= eta_t\n"))
m("b3-c09-flatten-args", ["C09"], (FU, "            if isinstance(args[param_num], tuple):\n                new_args[param_num] = _unflatten_params_layerwise(\n                    args[param_num],\n                    model,\n                )", "            if isinstance(args[param_num], tuple):\n                for p in args[param_num]:\n                    p.clamp_(-1e3, 1e3)\n                new_args[param_num] = _unflatten_params_layerwise(\n                    args[param_num],\n                    model,\n                )"))
m("b3-c09-loo-indices", ["C09"], (RT, "        indices = all_indices\n\n    metadata", "        indices = all_indices\n    indices.sort()\n\n    metadata"))
m("b3-c09-metric-score", ["C09"], (BR, "    sorted_positions = np.argsort(scores.reshape(-1))[::-1]\n", "    scores[np.isnan(scores)] = -np.inf\n    sorted_positions = np.argsort(scores.reshape(-1))[::-1]\n"))
m("b3-c09-cg", ["C09"], (HE, "            x_pre = torch.clone(v_i)\n", "            x_pre = v_i\n"))
# C10
m("b3-c10-arnoldi-global", ["C10"], (PJ, "            self.feature_dim,\n            generator=generator,\n            device=generator.device,\n        ).to(self.device)", "            self.feature_dim,\n        ).to(self.device)"))
m("b3-c10-mask-gen", ["C10"], (PJ, "    indices = torch.randperm(\n        input_dim,\n        generator=generator,\n        device=device,\n    )[:output_dim]", "    indices = torch.randperm(\n        input_dim,\n        device=device,\n    )[:output_dim]"))
m("b3-c10-ensemble-stale", ["C10"], (PJ, "            self.ensemble_id = ensemble_id\n            self.get_generator_states()  # regenerate random seeds for new ensemble_id\n", "            self.get_generator_states()  # regenerate random seeds for new ensemble_id\n            self.ensemble_id = ensemble_id\n"))
m("b3-c10-manual-seed", ["C10"], (PJ, "            generator = torch.Generator(device=device)\n            generator.manual_seed(proj_seed)\n", "            generator = torch.manual_seed(proj_seed)\n"))
m("b3-c10-numblocks", ["C10"], (PJ, "            elif self.num_blocks == 1:\n                self._gen_randomness_dense(self.generator_states[0])\n", "            elif self.num_blocks > 1:\n                self._gen_randomness_dense(self.generator_states[0])\n"))
# C16 C17 C18
m("b3-c16-block-cache", ["C16"], (BP, "        _check_shuffle(full_train_dataloader)\n", ""))
m("b3-c16-dvemb", ["C16"], (DV, "        _check_shuffle(test_dataloader)\n", ""))
m("b3-c17-dvemb-epoch", ["C17"], (DV, "        if epoch is not None and epoch not in self.embeddings:\n            msg = f\"Embeddings for epoch {epoch} not found.\"\n            raise ValueError(msg)\n", ""))
m("b3-c17-tracin-weights", ["C17"], (TR, "if len(self.task.get_checkpoints()) != len(self.weight_list):", "if len(self.task.get_checkpoints()) > len(self.weight_list):"))
m("b3-c17-hvp-mode", ["C17"], (HE, "    if mode not in [\"rev-rev\", \"rev-fwd\"]:\n        error_msg = \"`mode` should be either 'rev-rev' or 'rev-fwd'.\"\n        raise IHVPUsageError(error_msg)\n\n    grad_func = grad(func, argnums=argnums)\n    if mode == \"rev-rev\":\n        # pylint: disable=unbalanced-tuple-unpacking\n        _, vjp_fn", "    grad_func = grad(func, argnums=argnums)\n    if mode == \"rev-rev\":\n        _, vjp_fn"))
m("b3-c17-lds-divide", ["C17"], (RT, "    if total_num_subsets % num_subsets != 0:\n        error_message = \"num_subsets must divide total_num_subsets\"\n        raise ValueError(error_message)\n", ""))
m("b3-c17-ekfac-ckpt", ["C17"], (IF, "        if len(self.task.checkpoints) > 1:\n", "        if len(self.task.checkpoints) > 2:\n"))
m("b3-c18-datainf", ["C18"], (IF, "        self._cached_train_reps = {}\n\n        for", "        if not hasattr(self, \"_cached_train_reps\"):\n            self._cached_train_reps = {}\n\n        for"), expect="quiet")
m("b3-c18-arnoldi", ["C18"], (IF, "        self.arnoldi_projectors = []\n", "        if not hasattr(self, \"arnoldi_projectors\"):\n            self.arnoldi_projectors = []\n"))
m("b3-c18-block-clear", ["C18"], (BP, "        self.offload_manager.clear_cache()\n", ""))
m("b3-c18-dvemb-embeddings", ["C18"], (DV, "        self.embeddings = {}\n\n        # Calc", "        # Calc"))
m("b3-c18-rps", ["C18"], (RP, "        # fine-tuning on the full train dataloader\n        self.finetuned_theta = rps_finetune_theta(", "        if hasattr(self, \"finetuned_theta\"):\n            return\n        # fine-tuning on the full train dataloader\n        self.finetuned_theta = rps_finetune_theta("))
# C19 C20 C21 C22 C23
m("b3-c19-brittleness", ["C19"], (BR, "    model.eval()\n", ""))
m("b3-c19-dvemb", ["C19"], (DV, "        self.model.eval()\n        test_grads = []", "        test_grads = []"))
m("b3-c20-loo-seed", ["C20"], (RT, "        torch.manual_seed(seed)\n        kwargs[\"seed\"] = seed\n", "        torch.manual_seed(seed)\n"))
m("b3-c20-lds-rng", ["C20"], (RT, "            rng = np.random.default_rng(seed + i)\n", "            rng = np.random.default_rng(seed)\n"))
m("b3-c21-layerwise", ["C21"], (FU, "    keys = list(model_params.keys())\n", "    keys = sorted(model_params.keys())\n"))
m("b3-c21-unflatten-filter", ["C21"], (FU, "    model_params = {k: p for k, p in model.named_parameters() if p.requires_grad}\n    shape_list", "    model_params = dict(model.named_parameters())\n    shape_list"))
m("b3-c21-chunk-pointer", ["C21"], (PJ, "                if pointer == self.dim_per_chunk[projector_index]:\n", "                if pointer >= self.max_chunk_size:\n"))
m("b3-c21-taskparam-dict", ["C21", "C04"], (TA, "            named_parameters = {\n                k: self.named_parameters[k]\n                for k in layer_name\n                if k in self.named_parameters\n            }", "            named_parameters = {\n                k: p for k, p in self.named_parameters.items() if k in layer_name\n            }"))
m("b3-c22-test-compressors", ["C22"], (BP, "        if self.compressors is None:\n            self._setup_compressors(test_dataloader)\n", "        self._setup_compressors(test_dataloader)\n"))
m("b3-c22-none-skipped", ["C22", "C11", "C01"], (BP, "                    elif self.layer_dims and grad_idx < len(self.layer_dims):\n", "                    elif self.layer_dims and grad_idx >= len(self.layer_dims):\n"))
m("b3-c22-hook-append", ["C22"], (BH, "            hook_manager.compressed_grads[layer_idx] = compressed_grad\n", "            hook_manager.compressed_grads[-1 - layer_idx] = compressed_grad\n"))
m("b3-c23-cg-abs", ["C23"], (IF, "            val = (test_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()", "            val = (test_batch_rep * transformed).sum(dim=1).clamp_min(1e-12)", 1))
m("b3-c23-self-denom", ["C23"], (B, "                    torch.einsum(\"ij,ij->i\", train_batch_rep, test_batch_rep)\n                    / denom\n                    if denom is not None", "                    torch.einsum(\"ij,ij->i\", train_batch_rep, test_batch_rep)\n                    / denom\n                    if relatif_method == \"l\""))
m("b3-c23-theta-transform", ["C23"], (IF, "            val = transformed.norm(dim=1).clamp_min(1e-12)", "            val = train_batch_rep.norm(dim=1).clamp_min(1e-12)", 0))
# C26
m("b3-c26-lds-rows", ["C26"], (ME, "    score = score.T.cpu()\n    gt_values", "    score = score.cpu()\n    gt_values"))
m("b3-c26-loo-order", ["C26"], (ME, "    score = score.cpu()[indices.long().cpu()]\n", "    score = score.cpu()[: len(indices)]\n"))
m("b3-c26-lds-indices-sorted", ["C26", "C15"], (GT, "    indices = torch.tensor(indices)\n", "    indices = torch.tensor(indices).flip(0)\n"))
m("b3-c26-brittle-pos", ["C26"], (BR, "np.asarray(train_loader.sampler.indices)[sorted_positions]", "sorted_positions"))
m("b3-c15-loo-dirmap", ["C15"], (RT, "        metadata[\"map_index_dir\"][index] = str(model_dir)\n", "        metadata[\"map_index_dir\"][len(metadata[\"map_index_dir\"])] = str(model_dir)\n"))
m("b3-c15-gt-runs", ["C15"], (GT, "        for j in range(num_runs_per_subset):\n", "        for j in range(max(1, num_runs_per_subset - 1)):\n"))

# ---- b4: written from the statements, storage first
DM = A + "block_projected_if/offload/disk_io/manager.py"
MMF = A + "block_projected_if/offload/disk_io/memory_map.py"
PFD = A + "block_projected_if/offload/disk_io/prefetch_dataset.py"
BMD = A + "block_projected_if/core/metadata.py"
m("b4-c11-half", ["C11"], (DM, 'dtype="float32",\n                flush_mode', 'dtype="float16",\n                flush_mode'))
m("b4-c11-overflow-row", ["C11"], (DM, "                start_row = 0\n                end_row = batch_size\n", "                start_row = buffer.current_row\n                end_row = start_row + batch_size\n"), "quiet")
m("b4-c11-overflow-row3", ["C11"], (DM, "                start_row = 0\n                end_row = batch_size\n", "                end_row = batch_size\n"))
m("b4-c11-overflow-row4", ["C11"], (DM, "                start_row = 0\n                end_row = batch_size\n", "                start_row = 0\n"))
m("b4-c11-overflow-row2", ["C11"], (DM, "                start_row = 0\n                end_row = batch_size\n", "                end_row = batch_size\n", 1))
m("b4-c11-cachekey", ["C11", "C12"], (DM, "        cache_key = (data_type, chunk_id)\n", "        cache_key = (self.setting, chunk_id)\n"))
m("b4-c11-bufkey", ["C11", "C12", "C13"], (DM, "        buffer_key = (data_type, chunk_id)\n        pool", "        buffer_key = (\"gradients\", chunk_id)\n        pool"))
m("b4-c11-offset", ["C11"], (MMF, "                    new_offset += batch_size\n", "                    new_offset = end_row\n"))
m("b4-c11-offset2", ["C11"], (MMF, "                    valid_rows.extend(range(start_row, end_row))\n", "                    valid_rows.extend(range(new_offset, new_offset + batch_size))\n"))
m("b4-c11-subdir", ["C11", "C12"], (DM, "            subdir = \"grad\" if data_type == \"gradients\" else data_type\n", "            subdir = \"ifvp\" if data_type == \"ifvp\" else \"grad\"\n"))
m("b4-c12-pop-cond", ["C12"], (DM, "            self._read_cache.pop(buffer_key, None)\n", "            self._read_cache.pop(chunk_id, None)\n"))
m("b4-c12-mark-full", ["C12"], (DM, """        # Mark as pending write
        with self._pending_writes_lock:
            self._pending_writes[data_type, chunk_id] += 1

        # Submit to write queue without the buffer (since we already returned it)
        write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)

        try:
            self._write_queue.put_nowait(write_task)
        except""", """        # Submit to write queue without the buffer (since we already returned it)
        write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)

        try:
            self._write_queue.put_nowait(write_task)
            # Mark as pending write
            with self._pending_writes_lock:
                self._pending_writes[data_type, chunk_id] += 1
        except"""))
m("b4-c12-wait-le1", ["C12"], (DM, "                if len(self._pending_writes) == 0:\n", "                if len(self._pending_writes) <= 1:\n"))
m("b4-c12-wait-type", ["C12"], (DM, "                if len(self._pending_writes) == 0:\n", "                if not any(k[0] == \"gradients\" for k in self._pending_writes):\n"))
m("b4-c12-flush-some", ["C12"], (DM, "        remaining_buffers = list(self._chunk_buffers.keys())\n", "        remaining_buffers = [k for k in self._chunk_buffers if k[0] != \"test\"]\n"))
m("b4-c12-early-return-range", ["C12"], (DM, "        self._flush_remaining_buffers()\n        self._wait_for_pending_writes()\n\n        return create", "        if self.current_batch_range is not None:\n            self.finalize_batch_range()\n\n        return create"))
m("b4-c12-unlink-after", ["C12", "C24"], (MMF, "        temp_path.replace(metadata_path)\n", "        pathlib.Path(metadata_path).unlink(missing_ok=True)\n        temp_path.replace(metadata_path)\n"))
m("b4-c13-lock-key", ["C13"], (DM, "        with self._buffer_locks[buffer_key]:\n            # Get or create buffer\n", "        with self._buffer_locks[data_type]:\n            # Get or create buffer\n", 0))
m("b4-c13-lock-key2", ["C13"], (DM, "        with self._buffer_locks[buffer_key]:\n            if buffer_key in", "        with self._buffer_locks[chunk_id]:\n            if buffer_key in"))
m("b4-c13-errors-out", ["C13"], (DM, """                    with self._pending_writes_lock:
                        self._write_errors.append(e)
                    raise""", """                    self._write_errors.append(e)
                    raise"""))
m("b4-c13-wait-in-flush", ["C13"], (DM, "        # Submit to write queue without the buffer", "        with self._pending_writes_lock:\n            while not self._write_queue.empty():\n                time.sleep(0.01)\n\n        # Submit to write queue without the buffer"))
m("b4-c13-cond-lock", ["C13"], (PFD, "        with self._idx_lock:\n            self._current_idx = idx\n", "        if self._idx_lock.acquire(blocking=False):\n            self._current_idx = idx\n"))
m("b4-c13-evict", ["C13"], (PFD, """            # Evict old entries if cache is too large
            cache_size_multiplier = 3
            max_cache_size = self.prefetch_factor * cache_size_multiplier
            if len(self._chunk_cache) > max_cache_size:
                # Find and remove chunks that are far from current index
                for cached_idx in list(self._chunk_cache.keys()):
                    if cached_idx < current_idx - 1:
                        del self._chunk_cache[cached_idx]
""", """        # Evict old entries if cache is too large
        cache_size_multiplier = 3
        max_cache_size = self.prefetch_factor * cache_size_multiplier
        if len(self._chunk_cache) > max_cache_size:
            # Find and remove chunks that are far from current index
            for cached_idx in list(self._chunk_cache.keys()):
                if cached_idx < current_idx - 1:
                    del self._chunk_cache[cached_idx]
"""))
m("b4-c24-sharedtmp", ["C24"], (MMF, 'temp_path = pathlib.Path(metadata_path + ".tmp")', 'temp_path = pathlib.Path(save_path) / "metadata.json.tmp"'))
m("b4-c24-meta-cond", ["C24"], (BMD, "            pathlib.Path(temp_path).replace(metadata_path)\n", "            if not pathlib.Path(metadata_path).exists():\n                pathlib.Path(temp_path).replace(metadata_path)\n            else:\n                pathlib.Path(metadata_path).write_text(pathlib.Path(temp_path).read_text())\n"))
m("b4-c25-errors-many", ["C25"], (DM, "        if errors:\n            msg = f\"{len(errors)} writes", "        if len(errors) > 1:\n            msg = f\"{len(errors)} writes"))
m("b4-c25-future-last", ["C25"], (DM, "        self.futures.append(future)\n", "        self.futures = [future]\n"))
m("b4-c25-reset", ["C25"], (DM, "        self.current_batch_range = (start_batch, end_batch)\n", "        self.current_batch_range = (start_batch, end_batch)\n        with self._pending_writes_lock:\n            self._write_errors.clear()\n"))
m("b4-c25-empty-early", ["C25", "C12"], (DM, "        while not self._write_queue.empty():\n            time.sleep(0.1)\n", "        if self._write_queue.empty() and not self.futures:\n            return\n        while not self._write_queue.empty():\n            time.sleep(0.1)\n"))
m("b4-c25-default-get", ["C25"], (PFD, """                    try:
                        self._load_and_cache_chunk(idx, current_idx)
                    except Exception:
                        logger.exception("Error prefetching chunk %s", idx)
""", """                    try:
                        self._load_and_cache_chunk(idx, current_idx)
                    except Exception:
                        logger.exception("Error prefetching chunk %s", idx)
                        with self._cache_lock:
                            self._chunk_cache[idx] = (torch.empty(0, 0), {})
"""))
m("b4-c25-stop-worker", ["C25"], (DM, "            except queue.Empty:\n                continue\n            except Exception:\n                logger.exception(\"Write worker error\")\n", "            except queue.Empty:\n                continue\n            except OSError:\n                logger.exception(\"Write worker error\")\n"))
m("b4-c25-load-zero", ["C25"], (DM, "        # Return empty tensors\n        return [torch.tensor([]) for _ in range(len(self.layer_dims))]\n", "        # Return empty tensors\n        return [torch.zeros(1, d) for d in self.layer_dims]\n"))
m("b4-c11-filename", ["C11"], (MMF, 'chunk_filename = f"chunk_{data_type}_{batch_start}_{batch_end}"', 'chunk_filename = f"chunk_{data_type}_{len(batch_info)}"'))
# quiet
m("b4-q-dm-sorted", ["C11", "C12"], (MMF, "        return sorted(chunk_files, key=extract_batch_start)\n", "        chunk_files.sort(key=extract_batch_start)\n        return chunk_files\n"), "quiet")
m("b4-q-dm-glob", ["C11", "C12", "C25"], (MMF, """        for file_path in path_obj.iterdir():
            filename = file_path.name
            if (
                filename.endswith("_metadata.json")
                and f"chunk_{data_type}_" in filename
            ):
                chunk_name = filename.replace("_metadata.json", "")
                chunk_files.append(chunk_name)
""", """        for file_path in path_obj.glob(f"chunk_{data_type}_*_metadata.json"):
            chunk_files.append(file_path.name[: -len("_metadata.json")])
"""), "quiet")
m("b4-q-dm-find", ["C11", "C12", "C13", "C25"], (DM, """        for chunk_filename in chunk_files:
            metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
                chunk_path,
                chunk_filename,
            )

            # Check if batch is in this chunk
            batch_found = False
            for info in metadata["batches"]:
                if info["batch_idx"] == batch_idx:
                    batch_found = True
                    break

            if batch_found:
""", """        for chunk_filename in chunk_files:
            metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
                chunk_path,
                chunk_filename,
            )

            # Check if batch is in this chunk
            if any(info["batch_idx"] == batch_idx for info in metadata["batches"]):
"""), "quiet")
m("b4-q-dm-rows", ["C11", "C12", "C13", "C25"], [(DM, """                for info in buffer.batch_info:
                    if info["batch_idx"] == batch_idx:
                        start_row = info["start_row"]
                        end_row = info["end_row"]
                        batch_tensor = buffer.tensor[start_row:end_row]
                        return self._split_tensor_to_layers(batch_tensor)
""", """                rows = self._find_rows(buffer.batch_info, batch_idx)
                if rows is not None:
                    return self._split_tensor_to_layers(buffer.tensor[rows])
"""), (DM, """                for info in metadata["batches"]:
                    if info["batch_idx"] == batch_idx:
                        start_row = info["start_row"]
                        end_row = info["end_row"]
                        batch_tensor = tensor[start_row:end_row]
                        return self._split_tensor_to_layers(batch_tensor)

        # Load""", """                rows = self._find_rows(metadata["batches"], batch_idx)
                if rows is not None:
                    return self._split_tensor_to_layers(tensor[rows])

        # Load"""), (DM, "    def retrieve_gradients(\n", "    @staticmethod\n    def _find_rows(batches, batch_idx):\n        for info in batches:\n            if info[\"batch_idx\"] == batch_idx:\n                return slice(info[\"start_row\"], info[\"end_row\"])\n        return None\n\n    def retrieve_gradients(\n")], "quiet")
m("b4-q-dm-store", ["C11", "C12", "C13", "C25", "C22"], [(DM, """            # Concatenate gradients for this batch
            batch_size = next((g.shape[0] for g in gradients if g.numel() > 0), 0)
            if batch_size == 0:
                return

            # Build concatenated tensor for this batch
            batch_features = []
            for _layer_idx, (grad, dim) in enumerate(zip(gradients, self.layer_dims)):
                if grad.numel() > 0:
                    batch_features.append(grad.cpu())
                else:
                    # Zero padding for missing layers
                    batch_features.append(torch.zeros(batch_size, dim))

            batch_tensor = torch.cat(batch_features, dim=1)
""", """            batch_tensor = self._join_layers(gradients)
            if batch_tensor is None:
                return
            batch_size = batch_tensor.shape[0]
"""), (DM, "    def _is_chunk_complete(", """    def _join_layers(self, values):
        batch_size = next((g.shape[0] for g in values if g.numel() > 0), 0)
        if batch_size == 0:
            return None
        return torch.cat(
            [
                g.cpu() if g.numel() > 0 else torch.zeros(batch_size, dim)
                for g, dim in zip(values, self.layer_dims)
            ],
            dim=1,
        )

    def _is_chunk_complete(""")], "quiet")
m("b4-q-dm-buffer", ["C11", "C12", "C13", "C25"], [(DM, """            # Get or create buffer
            if buffer_key not in self._chunk_buffers:
                buffer = pool.get_buffer(timeout=5.0)
                if buffer is None:
                    logger.warning("Failed to get buffer from pool, creating new one")
                    buffer = ChunkBuffer(
                        tensor=torch.zeros(
                            self.max_samples_per_chunk,
                            self.total_proj_dim,
                            dtype=torch.float32,
                        ),
                        batch_indices=[],
                        batch_info=[],
                        current_row=0,
                        buffer_id=-1,
                    )
                self._chunk_buffers[buffer_key] = buffer

            buffer = self._chunk_buffers[buffer_key]

            # Concatenate gradients""", """            buffer = self._active_buffer(buffer_key, pool)

            # Concatenate gradients"""), (DM, "    def _is_chunk_complete(", """    def _active_buffer(self, buffer_key, pool):
        buffer = self._chunk_buffers.get(buffer_key)
        if buffer is not None:
            return buffer
        buffer = pool.get_buffer(timeout=5.0)
        if buffer is None:
            buffer = ChunkBuffer(
                tensor=torch.zeros(
                    self.max_samples_per_chunk,
                    self.total_proj_dim,
                    dtype=torch.float32,
                ),
                batch_indices=[],
                batch_info=[],
                current_row=0,
                buffer_id=-1,
            )
        self._chunk_buffers[buffer_key] = buffer
        return buffer

    def _is_chunk_complete(""")], "quiet")
m("b4-q-pfd-load", ["C11", "C12", "C13", "C25"], [(PFD, """        chunk_info = self.chunk_info[idx]
        chunk_filename = chunk_info["chunk_filename"]
        chunk_path = chunk_info["chunk_path"]

        _lazy_import_memory_map()
        # Load chunk as tensor with batch mapping
        (
            tensor,
            batch_mapping,
        ) = ChunkedMemoryMapHandler.load_chunk_batch_range(
            chunk_path,
            chunk_filename,
            self.batch_range,
        )

        # Add to cache for potential reuse
        with self._cache_lock:
            self._chunk_cache[idx] = (tensor, batch_mapping)

        return tensor, batch_mapping
""", """        _lazy_import_memory_map()
        loaded = self._load(idx)

        # Add to cache for potential reuse
        with self._cache_lock:
            self._chunk_cache[idx] = loaded

        return loaded

    def _load(self, idx):
        info = self.chunk_info[idx]
        return ChunkedMemoryMapHandler.load_chunk_batch_range(
            info["chunk_path"],
            info["chunk_filename"],
            self.batch_range,
        )
""")], "quiet")
m("b4-q-pfd-nosort", ["C11"], (PFD, "        chunk_info.sort(key=operator.itemgetter(\"chunk_filename\"))\n        return chunk_info\n", "        return sorted(chunk_info, key=lambda c: c[\"chunk_filename\"])\n"), "quiet")
m("b4-q-mmf-both", ["C11", "C12", "C24"], (MMF, """            np_memmap = np.memmap(
                mmap_path,
                dtype=np.dtype(storage_dtype),
                mode="w+",
                shape=tensor.shape,
            )
            np_memmap[:] = np_array
""", """            file = np.memmap(mmap_path, dtype=np.dtype(storage_dtype), mode="w+", shape=tuple(tensor.shape))
            np.copyto(file, np_array)
            np_memmap = file
            del file
"""), "quiet")
m("b4-q-meta-helper", ["C24", "C25", "C11"], [(BMD, """            # Write to temporary file first (atomic operation)
            with pathlib.Path(temp_path).open("w", encoding="utf-8") as f:
                json.dump(metadata, f, separators=(",", ":"))  # Compact format

            # Atomic rename
            pathlib.Path(temp_path).replace(metadata_path)
""", """            self._write_json(metadata, pathlib.Path(metadata_path))
"""), (BMD, "    def _get_metadata_path(self)", """    @staticmethod
    def _write_json(content, path):
        temp = path.with_name(path.name + ".tmp")
        temp.write_text(json.dumps(content, separators=(",", ":")), encoding="utf-8")
        temp.replace(path)

    def _get_metadata_path(self)""")], "quiet")
m("b4-q-meta-indices", ["C24", "C11", "C13"], (BMD, """            sorted_batches = sorted(self.batch_info.keys())
            current_idx = 0
            batch_info_corrected = {}

            for batch_idx in sorted_batches:
                sample_count = self.batch_info[batch_idx]["sample_count"]
                batch_info_corrected[batch_idx] = {
                    "start_idx": current_idx,
                    "sample_count": sample_count,
                }
                current_idx += sample_count
""", """            batch_info_corrected = {}
            current_idx = 0
            for batch_idx, info in sorted(self.batch_info.items()):
                batch_info_corrected[batch_idx] = dict(
                    start_idx=current_idx,
                    sample_count=info["sample_count"],
                )
                current_idx = current_idx + info["sample_count"]
"""), "quiet")


# ---- batch b5: larger refactorings, all checks must stay quiet
def txt(f, start, end, nth=0):
    s = open("/repo/" + f).read()
    k = -1
    for _ in range(nth + 1):
        k = s.find(start, k + 1)
    j = s.find(end, k) if k >= 0 else -1
    return s[k:j + len(end)] if k >= 0 and j >= 0 else "<stale>"


ALLP = [f"C{k:02d}" for k in range(1, 27)]
ERRM = "tuple, list, or dict.\"\n"
_b = "dattri/algorithm/base.py"
_t = "dattri/algorithm/tracin.py"
_k = "dattri/algorithm/trak.py"
_i = "dattri/algorithm/influence_function.py"

# base: batches moved by one helper
m("b5-q-base-move", ALLP, [
    (_b, txt(_b, "                # move to device\n                if isinstance(train_batch_data_", "raise TypeError(msg)\n"),
     "                train_batch_data = self._to_device(train_batch_data_)\n"),
    (_b, txt(_b, "                    # move to device\n                    if isinstance(test_batch_data_", "raise TypeError(msg)\n"),
     "                    test_batch_data = self._to_device(test_batch_data_)\n"),
    (_b, txt(_b, "                # move to device\n                if isinstance(train_batch_data_", "raise TypeError(msg)\n", 1),
     "                train_batch_data = self._to_device(train_batch_data_)\n"),
    (_b, "    def attribute(  # noqa: PLR0912\n", '''    def _to_device(self, batch):
        """Move one batch to the device and add the sample dimension."""
        if isinstance(batch, dict):
            return {k: v.to(self.device).unsqueeze(0) for k, v in batch.items()}
        if isinstance(batch, (tuple, list)):
            return tuple(x.to(self.device).unsqueeze(0) for x in batch)
        msg = (
            "We currently only support the train/test data to be "
            "tuple, list, or dict."
        )
        raise TypeError(msg)

    def attribute(  # noqa: PLR0912
'''),
], "quiet")

# base: rows and columns counted by batch sizes, mean of a list
m("b5-q-base-offsets", ALLP, [
    (_b, txt(_b, "                    # results position based on batch info\n", "                        len(test_dataloader.sampler),\n                    )\n"),
     "                    col_ed = col_st + test_batch_rep.shape[0]\n"),
    (_b, txt(_b, "                    tda_output[row_st:row_ed, col_st:col_ed] += (", "else train_batch_rep @ test_batch_rep.T\n                    )\n"),
     '''                    scores = torch.matmul(train_batch_rep, test_batch_rep.t())
                    if denom is not None:
                        scores = scores / denom[:, None]
                    tda_output[row_st:row_ed, col_st:col_ed] += scores
                    col_st = col_ed
                row_st = row_ed
'''),
    (_b, "                for test_batch_idx, test_batch_data_ in enumerate(\n                    tqdm(\n                        test_dataloader,\n                        desc=\"calculating gradient of test set...\",\n                        leave=False,\n                    ),\n                ):\n",
     "                row_ed = row_st + train_batch_rep.shape[0]\n                col_st = 0\n                for test_batch_data_ in tqdm(\n                    test_dataloader,\n                    desc=\"calculating gradient of test set...\",\n                    leave=False,\n                ):\n"),
    (_b, "            for train_batch_idx, train_batch_data_ in enumerate(\n                tqdm(\n                    train_dataloader,\n                    desc=\"calculating gradient of training set...\",\n                    leave=False,\n                ),\n            ):\n",
     "            row_st = 0\n            for train_batch_data_ in tqdm(\n                train_dataloader,\n                desc=\"calculating gradient of training set...\",\n                leave=False,\n            ):\n"),
], "quiet")

# base: plain sum over checkpoints divided once
m("b5-q-base-sum", ALLP, [
    (_b, "            tda_output *= checkpoint_idx\n            for train", "            for train"),
    (_b, "            tda_output /= checkpoint_idx + 1\n\n        return tda_output", "        return tda_output / len(self.task.get_checkpoints())"),
], "quiet")

# base: prologue and denominators shared
m("b5-q-base-begin", ALLP, [
    (_b, txt(_b, "        super().attribute(train_dataloader, test_dataloader)\n        self._check_request", "        _check_shuffle(test_dataloader)\n"),
     "        self._begin(train_dataloader, test_dataloader, relatif_method)\n"),
    (_b, txt(_b, "        super().attribute(train_dataloader, test_dataloader)\n        self._check_request", "        _check_shuffle(test_dataloader)\n", 1),
     "        self._begin(train_dataloader, test_dataloader, relatif_method)\n"),
    (_b, txt(_b, "                denom = None\n", "relatif_method=relatif_method,\n                    )\n"),
     "                denom = self._denominator(\n                    checkpoint_idx,\n                    train_batch_rep,\n                    train_batch_data,\n                    relatif_method,\n                )\n"),
    (_b, txt(_b, "                denom = None\n", "relatif_method=relatif_method,\n                    )\n", 1),
     "                denom = self._denominator(\n                    checkpoint_idx,\n                    train_batch_rep,\n                    train_batch_data,\n                    relatif_method,\n                )\n"),
    (_b, "    def attribute(  # noqa: PLR0912\n", '''    def _begin(self, train_dataloader, test_dataloader, relatif_method):
        """Check the request and the loaders."""
        BaseAttributor.attribute(self, train_dataloader, test_dataloader)
        self._check_request(relatif_method)
        if self.full_train_dataloader is None:
            self.full_train_dataloader = train_dataloader
            warnings.warn(
                "The full training data loader was NOT cached. "
                "Treating the train_dataloader as the full training data loader.",
                stacklevel=2,
            )
        for loader in (train_dataloader, test_dataloader):
            _check_shuffle(loader)

    def _denominator(self, checkpoint_idx, train_rep, data, relatif_method):
        """The denominators of a batch of training samples, if any."""
        if relatif_method is None:
            return None
        test_rep = (
            self.generate_test_rep(ckpt_idx=checkpoint_idx, data=data)
            if relatif_method == "l"
            else None
        )
        return self._compute_denom(
            checkpoint_idx,
            train_rep,
            test_rep,
            relatif_method=relatif_method,
        )

    def attribute(  # noqa: PLR0912
'''),
], "quiet")

# tracin: helpers for moving, projecting and the gradient functions
_tp = txt(_t, "                if self.proj_params.proj_dim is not None:\n", "train_batch_grad = torch.nan_to_num(grad_t)\n")
_tq = txt(_t, "                    if self.proj_params.proj_dim is not None:\n", "test_batch_grad = torch.nan_to_num(grad_t)\n")
_tl = txt(_t, "            if self.layer_name is not None:\n", "ckpt_idx=ckpt_idx,\n                )\n                self.grad_loss_func") + " = self.task.get_grad_loss_func(\n                    in_dims=(None, 0),\n                    layer_name=self.layer_name,\n                    ckpt_idx=ckpt_idx,\n                )\n"
_tm = txt(_t, "                # move to device\n                if isinstance(train", "raise TypeError(msg)\n")
_tn = txt(_t, "                    # move to device\n                    if isinstance(test", "raise TypeError(msg)\n")
_th = '''    def _project(self, grad, batch, ckpt_idx):
        """Project the gradients of one batch."""
        grad = torch.nan_to_num(grad)
        if self.proj_params.proj_dim is None:
            return grad
        first = batch[next(iter(batch))] if isinstance(batch, dict) else batch[0]
        projector = random_project(
            grad,
            proj_params=RandomProjectionParams(
                feature_batch_size=first.shape[0],
                device=self.device,
                **self.proj_params.model_dump(),
            ),
        )
        return projector(grad, ensemble_id=ckpt_idx)

    def _move(self, batch):
        """Move one batch to the device."""
        if isinstance(batch, (tuple, list)):
            return tuple(x.to(self.device) for x in batch)
        if isinstance(batch, dict):
            return {k: v.to(self.device) for k, v in batch.items()}
        msg = "We currently only support the train/test data to be tuple, list, or dict."
        raise TypeError(msg)

    def _functions(self, ckpt_idx):
        """The gradient functions of one checkpoint."""
        if self.layer_name is None:
            return self.grad_loss_func, self.grad_target_func
        kwargs = {
            "in_dims": (None, 0),
            "layer_name": self.layer_name,
            "ckpt_idx": ckpt_idx,
        }
        return (
            self.task.get_grad_loss_func(**kwargs),
            self.task.get_grad_target_func(**kwargs),
        )

    def attribute(  # noqa: PLR0912, PLR0915
'''
m("b5-q-tracin-project", ALLP, [
    (_t, _tp, "                train_batch_grad = self._project(grad_t, train_batch_data, ckpt_idx)\n"),
    (_t, _tq, "                    test_batch_grad = self._project(grad_t, test_batch_data, ckpt_idx)\n"),
    (_t, _tp, "                train_batch_grad = self._project(grad_t, train_batch_data, ckpt_idx)\n"),
    (_t, _tm, "                train_batch_data = self._move(train_batch_data_)\n"),
    (_t, _tn, "                    test_batch_data = self._move(test_batch_data_)\n"),
    (_t, _tm, "                train_batch_data = self._move(train_batch_data_)\n"),
    (_t, _tl, "            grad_loss, grad_target = self._functions(ckpt_idx)\n"),
    (_t, _tl, "            grad_loss, _ = self._functions(ckpt_idx)\n"),
    (_t, "self.grad_loss_func(parameters", "grad_loss(parameters"),
    (_t, "self.grad_loss_func(parameters", "grad_loss(parameters"),
    (_t, "self.grad_target_func(parameters", "grad_target(parameters"),
    (_t, "    def attribute(  # noqa: PLR0912, PLR0915\n", _th),
], "quiet")

# tracin: the test gradients of a checkpoint are computed once, before the training batches
m("b5-q-tracin-once", ALLP, [
    (_t, _tq, "                    test_batch_grad = self._project(grad_t, test_batch_data, ckpt_idx)\n                    test_grads.append(test_batch_grad.detach())\n"),
    (_t, _tp, "                train_batch_grad = self._project(grad_t, train_batch_data, ckpt_idx)\n"),
    (_t, _tp, "                train_batch_grad = self._project(grad_t, train_batch_data, ckpt_idx)\n"),
    (_t, txt(_t, "                for test_batch_idx, test_batch_data_ in enumerate(", "raise TypeError(msg)\n"),
     "                for test_batch_idx, test_batch_grad in enumerate(test_grads):\n"),
    (_t, "                    # get gradient of test\n                    grad_t = self.grad_target_func(parameters, test_batch_data)\n                    test_batch_grad = self._project(grad_t, test_batch_data, ckpt_idx)\n                    test_grads.append(test_batch_grad.detach())\n", ""),
    (_t, "            for train_batch_idx, train_batch_data_ in enumerate(", '''            test_grads = [
                self._project(
                    self.grad_target_func(parameters, batch),
                    batch,
                    ckpt_idx,
                ).detach()
                for batch in map(self._move, test_dataloader)
            ]

            for train_batch_idx, train_batch_data_ in enumerate('''),
    (_t, "    def attribute(  # noqa: PLR0912, PLR0915\n", _th),
], "quiet")

m("b5-q-tracin-norm", ALLP, [
    (_t, txt(_t, "                    # accumulate the TDA score in corresponding positions (blocks)\n", ".detach()\n                            .cpu()\n                        )\n\n        return"),
     '''                    block = (slice(row_st, row_ed), slice(col_st, col_ed))
                    left, right = train_batch_grad, test_batch_grad
                    if self.normalized_grad:
                        left, right = normalize(left, dim=1), normalize(right, dim=1)
                    scores = ckpt_weight * torch.einsum("id,jd->ij", left, right)
                    tda_output[block] = tda_output[block] + scores.detach().cpu()

        return'''),
    (_t, "        for ckpt_idx, ckpt_weight in zip(\n            range(len(self.task.get_checkpoints())),\n            self.weight_list,\n        ):\n", "        for ckpt_idx, ckpt_weight in enumerate(self.weight_list):\n"),
], "quiet")

# trak: one helper for the features of a loader
_kf = '''    def _features(self, loader, ckpt_idx, grad_func, probabilities, desc):
        """Projected gradients of a loader's samples and 1 - p if asked for."""
        parameters, _ = self.task.get_param(
            ckpt_idx=ckpt_idx,
            layer_name=self.layer_name,
        )
        features, residuals = [], []
        full_params = None
        if probabilities:
            full_params = _unflatten_params(
                self.task.get_param(ckpt_idx=ckpt_idx)[0],
                self.task.get_model(),
            )
        for data in tqdm(loader, desc=desc, leave=False):
            if isinstance(data, dict):
                batch = {k: v.to(self.device) for k, v in data.items()}
            elif isinstance(data, (tuple, list)):
                batch = tuple(x.to(self.device) for x in data)
            else:
                msg = (
                    "We currently only support the train/test data to be "
                    "tuple, list, or dict."
                )
                raise TypeError(msg)
            grad = torch.nan_to_num(grad_func(parameters, batch)) / self.norm_scaler
            size = grad.shape[0]
            projector = random_project(
                grad,
                proj_params=RandomProjectionParams(
                    feature_batch_size=size,
                    device=self.device,
                    **self.proj_params.model_dump(),
                ),
            )
            features.append(projector(grad, ensemble_id=ckpt_idx).clone().detach())
            if probabilities:
                p = self.correct_probability_func(full_params, batch).flatten()
                residuals.append((torch.ones(size).to(self.device) - p).detach())
        return (
            torch.cat(features, dim=0),
            torch.cat(residuals, dim=0) if probabilities else None,
        )

    def _set_functions(self, ckpt_idx):
        if self.layer_name is not None:
            self.grad_target_func = self.task.get_grad_target_func(
                in_dims=(None, 0),
                layer_name=self.layer_name,
                ckpt_idx=ckpt_idx,
            )
            self.grad_loss_func = self.task.get_grad_loss_func(
                in_dims=(None, 0),
                layer_name=self.layer_name,
                ckpt_idx=ckpt_idx,
            )

    def cache(
'''
_kc = txt(_k, "            parameters, _ = self.task.get_param(\n", "            Q = torch.cat(Q, dim=0)\n")
_ka = txt(_k, "            parameters, _ = self.task.get_param(\n", "                Q = torch.cat(Q, dim=0)\n", 1)
_ks = txt(_k, "            parameters, _ = self.task.get_param(\n", "                Q = torch.cat(Q, dim=0)\n", 2)
_kt = txt(_k, "            test_projected_grad = []\n", "            test_projected_grad = torch.cat(test_projected_grad, dim=0)\n")
_kd = '"calculating gradient of training set..."'
m("b5-q-trak-features", ALLP, [
    (_k, _kc, f"            self._set_functions(ckpt_idx)\n            full_train_projected_grad, Q = self._features(\n                self.full_train_dataloader,\n                ckpt_idx,\n                self.grad_loss_func,\n                True,\n                {_kd},\n            )\n"),
    (_k, _ka, f"            self._set_functions(ckpt_idx)\n            if train_dataloader is not None:\n                train_projected_grad, Q = self._features(\n                    train_dataloader,\n                    ckpt_idx,\n                    self.grad_loss_func,\n                    True,\n                    {_kd},\n                )\n"),
    (_k, _ks, f"            self._set_functions(ckpt_idx)\n            if train_dataloader is not None:\n                train_projected_grad, Q = self._features(\n                    train_dataloader,\n                    ckpt_idx,\n                    self.grad_loss_func,\n                    True,\n                    {_kd},\n                )\n"),
    (_k, _kt, "            test_projected_grad, _ = self._features(\n                test_dataloader,\n                ckpt_idx,\n                self.grad_target_func,\n                False,\n                \"calculating gradient of test set...\",\n            )\n"),
    (_k, "    def cache(\n", _kf),
], "quiet")

# trak: running means as sums
m("b5-q-trak-sums", ALLP, [
    (_k, "            running_Q = running_Q * running_count + Q\n            running_count += 1  # noqa: SIM113\n            running_Q /= running_count\n", "            running_Q = running_Q + Q\n"),
    (_k, "        self.Q = running_Q\n", "        self.Q = running_Q / len(inv_XTX_XT_list)\n"),
    (_k, "        running_count = 0\n", "", 0),
], "quiet")

m("b5-q-trak-lists", ALLP, [
    (_k, txt(_k, "            if train_dataloader is not None:\n                kernel_matrix", "            running_xinv_XTX_XT /= running_count\n        if train_dataloader is not None:\n            return (running_xinv_XTX_XT * running_Q.to(self.device).unsqueeze(0)).T\n        return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T\n"),
     '''            if train_dataloader is None:
                inverse = self.inv_XTX_XT_list[ckpt_idx]
            else:
                kernel = train_projected_grad.T @ train_projected_grad
                kernel.diagonal().add_(self.regularization)
                inverse = torch.linalg.solve(kernel, train_projected_grad.T)
                residuals.append(Q)
            products.append(test_projected_grad @ inverse)
        if train_dataloader is None:
            mean_q = self.Q
        else:
            mean_q = torch.stack(residuals).mean(dim=0)
        mean_product = torch.stack(products).mean(dim=0)
        return (mean_product * mean_q.to(self.device)[None, :]).T
'''),
    (_k, "        running_xinv_XTX_XT = 0\n        running_Q = 0\n        running_count = 0\n", "        products, residuals = [], []\n"),
], "quiet")

# influence functions: one module-level helper for the batches and one loop over the full training set
_ie = txt(_i, "        vector_product = 0\n        model_params, _", "        return vector_product\n")
_ic = _ie.replace("ihvp_explicit(", "ihvp_cg(")
_ih = '''def _move(batch, device):
    """Move a batch to a device."""
    if isinstance(batch, (tuple, list)):
        return tuple(x.to(device) for x in batch)
    if isinstance(batch, dict):
        return {k: v.to(device) for k, v in batch.items()}
    msg = "We currently only support the train/test data to be tuple, list, or dict."
    raise TypeError(msg)


def _sum_products(attributor, solver, ckpt_idx, test_rep):
    """Add up the inverse-Hessian-vector products of all batches."""
    params, _ = attributor.task.get_param(ckpt_idx, layer_name=attributor.layer_name)
    loss = attributor.task.get_loss_func(
        layer_name=attributor.layer_name,
        ckpt_idx=ckpt_idx,
    )
    key = attributor.task.loss_func_data_key
    products = []
    for batch in attributor.full_train_dataloader:
        func = partial(loss, **{key: _move(batch, attributor.device)})
        ihvp = solver(func, **attributor.transformation_kwargs)
        products.append(ihvp((params,), test_rep).detach())
    return sum(products)


class IFAttributorExplicit(BaseInnerProductAttributor):
'''
m("b5-q-if-sum", ALLP, [
    (_i, _ie, "        return _sum_products(self, ihvp_explicit, ckpt_idx, test_rep)\n"),
    (_i, _ic, "        return _sum_products(self, ihvp_cg, ckpt_idx, test_rep)\n"),
    (_i, "class IFAttributorExplicit(BaseInnerProductAttributor):\n", _ih),
], "quiet")

_id = txt(_i, "    def _compute_denom(\n", "        return val\n")
m("b5-q-if-denom-mixin", ALLP, [
    (_i, _id, "    _compute_denom = _own_denom\n"),
    (_i, _id, "    _compute_denom = _own_denom\n"),
    (_i, "class IFAttributorExplicit(BaseInnerProductAttributor):\n", '''def _own_denom(
    self,
    ckpt_idx,
    train_batch_rep,
    test_batch_rep=None,
    relatif_method=None,
):
    """Compute the denominator for the influence calculation."""
    transformed = self.transform_test_rep(ckpt_idx, train_batch_rep)
    if relatif_method == "theta":
        return transformed.norm(dim=1).clamp_min(1e-12)
    if relatif_method == "l":
        products = torch.einsum("ij,ij->i", test_batch_rep, transformed)
        return products.clamp_min(1e-12).sqrt()
    error_msg = f"Unknown method: {relatif_method}"
    raise ValueError(error_msg)


class IFAttributorExplicit(BaseInnerProductAttributor):
'''),
], "quiet")
