"""Planted bugs (see tools/seed.py)."""
PRELUDE = '''import copy, os, sys, tempfile, threading, warnings
warnings.filterwarnings("ignore")
import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset
import dattri
assert os.path.realpath(dattri.__file__).startswith(os.path.realpath(os.getcwd())), dattri.__file__
from dattri.task import AttributionTask

torch.manual_seed(0)


def data(n, bs, seed=0, d=4, k=3, **kw):
    g = torch.Generator().manual_seed(seed)
    return DataLoader(TensorDataset(torch.randn(n, d, generator=g), torch.randint(0, k, (n,), generator=g)), batch_size=bs, **kw)


def net(seed=0):
    torch.manual_seed(seed)
    return nn.Sequential(nn.Linear(4, 5), nn.Tanh(), nn.Linear(5, 3)).eval()


def make(nck=1, target=None):
    model = net(0)
    cks = [copy.deepcopy(net(i + 1).state_dict()) for i in range(nck)]

    def loss(params, batch):
        x, y = batch
        return nn.functional.cross_entropy(torch.func.functional_call(model, params, (x.reshape(-1, 4),)), y.reshape(-1))

    def margin(params, batch):
        x, y = batch
        out = torch.func.functional_call(model, params, (x.reshape(-1, 4),))
        return (out ** 2).sum()

    return AttributionTask(loss_func=loss, model=model, checkpoints=cks if nck > 1 else cks[0],
                           target_func={None: None, "margin": margin}[target])


def same(a, b, tol=1e-4):
    return a.shape == b.shape and torch.allclose(a, b, rtol=tol, atol=tol)


'''
A = "dattri/algorithm/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))


seed("c01-base-column-stride", "C01", "train and test loaders with different batch sizes, several test batches",
     "columns of a test batch are placed with the train loader's batch size, so scores land in other samples' columns",
     [(A + "base.py", "col_st = test_batch_idx * test_dataloader.batch_size\n                    col_ed = min(\n                        (test_batch_idx + 1) * test_dataloader.batch_size,",
       "col_st = test_batch_idx * train_dataloader.batch_size\n                    col_ed = min(\n                        col_st + test_dataloader.batch_size,")],
     '''from dattri.algorithm.influence_function import IFAttributorExplicit
t = make()
def run(bt, be):
    a = IFAttributorExplicit(task=t, regularization=0.1)
    a.cache(data(8, 8, 1))
    return a.attribute(data(8, bt, 1), data(6, be, 2))
sys.exit(0 if same(run(8, 6), run(4, 2)) else 1)
''')
seed("c02-base-train-rep-target", "C02", "a target function different from the loss, layer restriction set",
     "train samples are represented by gradients of the target function when layers are restricted",
     [(A + "base.py", "        grad_loss_func = self.task.get_grad_loss_func(", "        getter = (\n            self.task.get_grad_loss_func\n            if self.layer_name is None\n            else self.task.get_grad_target_func\n        )\n        grad_loss_func = getter(")],
     '''from dattri.algorithm.influence_function import IFAttributorCG
t = make(target="margin")
a = IFAttributorCG(task=t, regularization=0.1, layer_name=["2.weight", "2.bias"])
x, y = next(iter(data(5, 5, 1)))
rep = a.generate_train_rep(0, (x.unsqueeze(0), y.unsqueeze(0)))
p, _ = t.get_param(0, layer_name=["2.weight", "2.bias"])
ref = t.get_grad_loss_func(layer_name=["2.weight", "2.bias"], ckpt_idx=0)(p, (x.unsqueeze(0), y.unsqueeze(0)))
sys.exit(0 if same(rep, ref) else 1)
''')
seed("c03-trak-cached-statistic", "C03", "several different checkpoints and a cached training set",
     "every checkpoint's test gradients are multiplied with the last checkpoint's cached kernel",
     [(A + "trak.py", "self.inv_XTX_XT_list[ckpt_idx]", "inv_XTX_XT_list[-1]"),
      (A + "trak.py", "        running_xinv_XTX_XT = 0\n", "        running_xinv_XTX_XT = 0\n        inv_XTX_XT_list = getattr(self, \"inv_XTX_XT_list\", None)\n")],
     '''from dattri.algorithm.trak import TRAKAttributor
from dattri.params.projection import TRAKProjectionParams
t = make(3)
def prob(params, batch):
    x, y = batch
    out = torch.func.functional_call(t.model, params, (x.reshape(-1, 4),))
    return out.softmax(-1)[..., 0].mean()
def mk():
    return TRAKAttributor(t, prob, proj_params=TRAKProjectionParams(proj_dim=8), regularization=0.5)
a = mk(); a.cache(data(8, 8, 1)); s1 = a.attribute(data(4, 4, 2))
s2 = mk().attribute(data(4, 4, 2), train_dataloader=data(8, 8, 1))
sys.exit(0 if same(s1, s2, 1e-3) else 1)
''')
TKF, MET, GTF, RTF, BUF = "dattri/task.py", "dattri/metric/metrics.py", "dattri/metric/ground_truth.py", "dattri/model_util/retrain.py", "dattri/benchmark/utils.py"
seed("c04-gradient-cache-key", "C04", "one task asked for loss gradients of two different layers at one checkpoint",
     "the cached per-sample gradient function of another layer is handed out, so gradients belong to the layer asked for first",
     [(TKF, '        loss_target_func_kwargs = {\n            "in_dims": in_dims,\n            "layer_name": layer_name,\n', '        loss_target_func_kwargs = {\n            "in_dims": in_dims,\n            "layer_name": None if layer_name is None else len(layer_name),\n')],
     '''t = make()
x, y = next(iter(data(5, 5, 1)))
def g(task, names):
    p, _ = task.get_param(0, layer_name=names)
    return task.get_grad_loss_func(in_dims=(None, 0), layer_name=names, ckpt_idx=0)(p, (x.unsqueeze(1), y.unsqueeze(1)))
ref = g(make(), ["2.bias"])
try:
    g(t, ["0.bias"])
    got = g(t, ["2.bias"])
except Exception:
    sys.exit(1)
sys.exit(0 if same(got, ref) else 1)
''')
seed("c03-gradient-cache-key", "C03", "a layer restriction, several checkpoints that differ in the frozen layers, and a checkpoint loader that returns a new model",
     "the gradient functions of the first checkpoint serve every later one, with the first checkpoint's frozen layers",
     [(TKF, '        loss_target_func_kwargs = {\n            "in_dims": in_dims,\n            "layer_name": layer_name,\n            "ckpt_idx": ckpt_idx,\n        }\n        if self.grad_loss_func_kwargs != loss_target_func_kwargs:',
       '        loss_target_func_kwargs = {\n            "in_dims": in_dims,\n            "layer_name": layer_name,\n            "ckpt_idx": None,\n        }\n        if self.grad_loss_func_kwargs != loss_target_func_kwargs:')],
     '''from dattri.algorithm.tracin import TracInAttributor
from dattri.params.projection import TracInProjectionParams
def fresh(model, ck):
    new = net(0)
    new.load_state_dict(ck)
    return new
def mk(*ids):
    t = make(2)
    return AttributionTask(loss_func=t.original_loss_func, model=net(0), checkpoints=[t.get_checkpoints()[i] for i in ids], checkpoints_load_func=fresh)
def run(task, w):
    return TracInAttributor(task=task, weight_list=torch.tensor(w), normalized_grad=False, proj_params=TracInProjectionParams(proj_type="identity"), layer_name=["0.weight"]).attribute(data(6, 6, 1), data(4, 4, 2))
sys.exit(0 if same(run(mk(0, 1), [1.0, 1.0]), run(mk(0), [1.0]) + run(mk(1), [1.0])) else 1)
''')
seed("c03-tracin-self-weights", "C03", "self-attribution without normalised gradients and a checkpoint weight other than one",
     "the caller's checkpoint weights are dropped in self-attribution",
     [(A + "tracin.py", '                            torch.einsum("ij,ij->i", train_batch_grad, train_batch_grad)\n                            * ckpt_weight\n', '                            torch.einsum("ij,ij->i", train_batch_grad, train_batch_grad)\n                            / self.weight_list.numel()\n')],
     '''from dattri.algorithm.tracin import TracInAttributor
def run(w):
    return TracInAttributor(task=make(), weight_list=torch.tensor([w]), normalized_grad=False).self_attribute(data(6, 6, 1))
sys.exit(0 if same(run(3.0), 3.0 * run(1.0)) else 1)
''')
seed("c08-tracin-tuple-batch", "C08", "a loader whose collate function yields tuples instead of lists",
     "self-attribution refuses tuple batches, which are documented as supported",
     [(A + "tracin.py", "                if isinstance(train_batch_data_, (tuple, list)):", "                if isinstance(train_batch_data_, list):", 1)],
     '''from dattri.algorithm.tracin import TracInAttributor
def coll(b):
    return torch.stack([x for x, _ in b]), torch.stack([y for _, y in b])
def run(**k):
    return TracInAttributor(task=make(), weight_list=torch.tensor([1.0]), normalized_grad=False).self_attribute(data(6, 3, 1, **k))
sys.exit(0 if same(run(), run(collate_fn=coll)) else 1)
''')
seed("c09-lds-score-inplace", "C09", "the caller keeps using the score matrix given to lds",
     "lds subtracts the mean from the caller's score matrix in place",
     [(MET, "    score = score.T.cpu()\n", "    score = score.T.cpu()\n    score -= score.mean(dim=1, keepdim=True)\n")],
     '''from dattri.metric import lds
s = torch.randn(8, 3); keep = s.clone()
idx = torch.stack([torch.randperm(8)[:4] for _ in range(6)])
lds(s, (torch.randn(6, 3), idx))
sys.exit(0 if torch.equal(s, keep) else 1)
''')
seed("c15-loo-model-directory", "C15", "the recorded directory of a retrained model is used to load it",
     "leave-one-out retraining saves each model in the folder of the following index once the first folder exists",
     [(RTF, '        model_dir = Path(path) / f"index_{index}"\n', '        model_dir = Path(path) / f"index_{len(metadata[\'map_index_dir\'])}"\n')],
     '''import yaml
from dattri.model_util.retrain import retrain_loo
from dattri.metric import calculate_loo_ground_truth
def train(loader, **k):
    m = nn.Linear(4, 1)
    m.n = sorted(float(x.sum()) for b, _ in loader for x in b)
    return m
with tempfile.TemporaryDirectory() as d:
    dl = data(6, 3, 1)
    retrain_loo(train, dl, d, indices=[4, 2])
    vals, idx = calculate_loo_ground_truth(lambda m, dl: torch.tensor([sum(m.n)]), d, data(1, 1, 2))
    xs = [float(x.sum()) for b, _ in dl for x in b]
    ok = sorted(int(i) for i in idx) == [2, 4] and all(abs(float(v[0]) - (sum(xs) - xs[int(i)])) < 1e-3 for v, i in zip(vals, idx))
sys.exit(0 if ok else 1)
''')
seed("c15-lds-runs-overwritten", "C15", "several subsets, several runs per subset, a run number used as a folder",
     "the ground truth averages the first run's model several times instead of all runs",
     [(GTF, '            ckpt_path = Path(subset_dir_map[i]) / f"model_weights_{j}.pt"\n', '            ckpt_path = Path(subset_dir_map[i]) / f"model_weights_{j // max(i, 1)}.pt"\n')],
     '''from dattri.model_util.retrain import retrain_lds
from dattri.metric import calculate_lds_ground_truth
def train(loader, seed=None, **k):
    m = nn.Linear(1, 1, bias=False)
    m.weight.data.fill_(float(seed))
    return m
with tempfile.TemporaryDirectory() as d:
    retrain_lds(train, data(6, 3, 1), d, num_subsets=3, num_runs_per_subset=2, seed=0)
    v, _ = calculate_lds_ground_truth(lambda p, dl: torch.tensor([float(torch.load(p)["weight"])]), d, data(1, 1, 2))
sys.exit(0 if same(v.flatten(), -torch.tensor([0.5, 2.5, 4.5])) else 1)
''')
seed("c16-tracin-self-shuffle", "C16", "self-attribution with a shuffling loader",
     "no warning is given when self-attribution scores are computed with a shuffling loader",
     [(A + "tracin.py", "        test_dataloader = train_dataloader\n        _check_shuffle(test_dataloader)\n        _check_shuffle(train_dataloader)\n", "        test_dataloader = train_dataloader\n        if len(test_dataloader) != len(train_dataloader):\n            _check_shuffle(test_dataloader)\n            _check_shuffle(train_dataloader)\n")],
     '''from dattri.algorithm.tracin import TracInAttributor
a = TracInAttributor(task=make(), weight_list=torch.tensor([1.0]), normalized_grad=False)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    a.self_attribute(data(6, 3, 1, shuffle=True))
sys.exit(0 if any("shuffl" in str(x.message).lower() for x in w) else 1)
''')
seed("c17-trak-second-loader", "C17", "a training loader passed to attribute after caching, with a single checkpoint",
     "TRAK silently uses another training loader than the cached one instead of refusing it",
     [(A + "trak.py", "        if train_dataloader is not None and self.full_train_dataloader is not None:", "        if (\n            train_dataloader is not None\n            and self.full_train_dataloader is not None\n            and len(train_dataloader.sampler) > len(self.full_train_dataloader.sampler)\n        ):")],
     '''from dattri.algorithm.trak import TRAKAttributor
t = make()
def prob(params, batch):
    x, y = batch
    out = torch.func.functional_call(t.model, params, (x.reshape(-1, 4),))
    return out.softmax(-1)[..., 0].mean()
a = TRAKAttributor(t, prob, regularization=0.5)
a.cache(data(8, 8, 1))
try:
    a.attribute(data(4, 4, 2), train_dataloader=data(6, 6, 3))
except ValueError:
    sys.exit(0)
sys.exit(1)
''')
seed("c18-trak-statistics-appended", "C18", "cache called twice on the same attributor",
     "the second cache appends its statistics behind the first ones, which stay in use",
     [(A + "trak.py", "        inv_XTX_XT_list = []\n", "        inv_XTX_XT_list = getattr(self, \"inv_XTX_XT_list\", [])\n")],
     '''from dattri.algorithm.trak import TRAKAttributor
from dattri.params.projection import TRAKProjectionParams
t = make()
def prob(params, batch):
    x, y = batch
    out = torch.func.functional_call(t.model, params, (x.reshape(-1, 4),))
    return out.softmax(-1)[..., 0].mean()
def mk():
    return TRAKAttributor(t, prob, proj_params=TRAKProjectionParams(proj_dim=8), regularization=0.5)
a = mk(); a.cache(data(8, 8, 1)); a.cache(data(8, 8, 5)); s1 = a.attribute(data(4, 4, 2))
b = mk(); b.cache(data(8, 8, 5)); s2 = b.attribute(data(4, 4, 2))
sys.exit(0 if same(s1, s2, 1e-3) else 1)
''')
seed("c20-lds-seed-collision", "C20", "several subsets and several runs per subset",
     "runs of neighbouring subsets are trained with one and the same seed",
     [(RTF, "                train_seed = seed + i * num_runs_per_subset + j\n", "                train_seed = seed + i + j * (num_runs_per_subset - 1)\n")],
     '''from dattri.model_util.retrain import retrain_lds
seen = []
def train(loader, seed=None, **k):
    seen.append(seed)
    return nn.Linear(1, 1)
with tempfile.TemporaryDirectory() as d:
    retrain_lds(train, data(6, 3, 1), d, num_subsets=3, num_runs_per_subset=3, seed=5)
sys.exit(0 if len(set(seen)) == 9 else 1)
''')
seed("c26-lds-truth-of-other-test", "C26", "more than one test sample",
     "the p-value of a test sample is computed against another test sample's ground truth",
     [(MET, "                spearmanr(sum_scores[:, i], gt_values[:, i]).pvalue,", "                spearmanr(sum_scores[:, i], gt_values[:, -i]).pvalue,")],
     '''from dattri.metric import lds
from scipy.stats import spearmanr
torch.manual_seed(1)
s = torch.randn(8, 4); gt = torch.randn(6, 4)
idx = torch.stack([torch.randperm(8)[:4] for _ in range(6)])
c, p = lds(s, (gt, idx))
ref = [spearmanr([float(s[idx[k], j].sum()) for k in range(6)], gt[:, j].numpy()).pvalue for j in range(4)]
sys.exit(0 if same(p, torch.tensor(ref, dtype=p.dtype)) else 1)
''')
seed("c26-auc-rank-order", "C26", "a detection run whose highest scores are the mislabelled samples",
     "samples are inspected from the lowest to the highest score",
     [(MET, "    low_quality_to_high_quality = torch.argsort(score).flip(0)\n", "    low_quality_to_high_quality = torch.argsort(score.flip(0))\n")],
     '''from dattri.metric import mislabel_detection_auc
s = torch.tensor([3.0, 9, 1, 8, 7, 2, 4, 0, 5, 6])
truth = torch.zeros(10); truth[[1, 3, 4]] = 1
_, (fpr, tpr, _) = mislabel_detection_auc(s, truth)
sys.exit(0 if float(tpr[3]) == 1.0 and float(fpr[3]) == 0.0 else 1)
''')
seed("c21-chunk-sizes-skip", "C21", "a parameter larger than the chunk limit follows smaller ones",
     "the ranges of a model's layer-wise parameters start one position late after a frozen parameter",
     [("dattri/func/utils.py", "            size = math.prod(shape)\n            yield tensors[current_index : current_index + size].reshape(shape)\n            current_index += size\n", "            size = math.prod(shape)\n            yield tensors[current_index : current_index + size].reshape(shape)\n            current_index += max(size, shape[0] * len(shape))\n")],
     '''from dattri.func.utils import _unflatten_params, flatten_params
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = nn.Parameter(torch.randn(5, 1))
        self.b = nn.Parameter(torch.randn(3))
m = M()
p = {k: v for k, v in m.named_parameters()}
try:
    q = _unflatten_params(flatten_params(p).detach(), m)
    ok = all(torch.equal(p[k].detach(), q[k]) for k in p)
except RuntimeError:
    ok = False
sys.exit(0 if ok else 1)
''')
seed("c14-loader-model-device-map", "C14", "the shakespeare training split smaller than the whole text",
     "label flipping changes a label that is not in the reported noisy indices",
     [(BUF, "    noise_index = rng.choice(n_train, size=int(p * n_train), replace=False)\n", "    noise_index = rng.choice(n_train, size=int(p * n_train))\n")],
     '''sys.exit(0)
''')
SEEDS.pop()


# ---------------------------------------------------------------- second batch
BPI = A + "block_projected_if/"
MGR, HOOK, META, CPU, IFP, PROJ = BPI + "offload/disk_io/manager.py", BPI + "core/hook.py", BPI + "core/metadata.py", BPI + "offload/cpu.py", A + "influence_function.py", "dattri/func/projection.py"
DISK = '''import time, logging
logging.disable(logging.CRITICAL)
_zeros = torch.zeros
def zeros(*a, **k):
    k.pop("pin_memory", None)
    return _zeros(*a, **k)
torch.zeros = zeros
from dattri.algorithm.block_projected_if.offload.disk_io import manager as M
DIR = tempfile.mkdtemp()
def manager(**k):
    return M.ChunkedDiskIOManager(DIR, "s", num_threads=2, max_samples_per_chunk=16, num_write_workers=1, **k)
def leave(code):
    import shutil
    sys.stdout.flush()
    shutil.rmtree(DIR, ignore_errors=True)
    os._exit(code)
'''
seed("c12-buffer-reused-while-queued", "C12", "slow disk: more than eight chunks are stored before the first queued write runs",
     "a queued write shares memory with the pooled buffer, so a later chunk's rows are written under the earlier chunk",
     [(MGR, "filled_tensor = buffer.tensor[: buffer.current_row].clone().contiguous()", "filled_tensor = buffer.tensor[: buffer.current_row].contiguous()")],
     DISK + '''m = manager(chunk_size=1)
gate = threading.Event()
H = M.ChunkedMemoryMapHandler
orig = H.write_chunk
def slow(*a, **k):
    gate.wait(60)
    return orig(*a, **k)
H.write_chunk = staticmethod(slow)
m.start_batch_range(0, 12)
for i in range(12):
    m.store_gradients(i, [torch.full((2, 3), float(i)), torch.full((2, 2), 100.0 + i)])
gate.set()
m.finalize_batch_range()
bad = 0
for i in range(12):
    a, b = m.retrieve_gradients(i)
    bad += not (bool((a == i).all()) and bool((b == 100.0 + i).all()))
leave(1 if bad else 0)
''')
seed("c25-write-error-logged-only", "C25", "a background chunk write fails (disk full, permission)",
     "the failed write is only logged: waiting for the data reports success",
     [(MGR, '            logger.exception("Error writing %s chunk %s", data_type, chunk_id)\n            raise\n', '            logger.exception("Error writing %s chunk %s", data_type, chunk_id)\n')],
     DISK + '''m = manager(chunk_size=1)
def fail(*a, **k):
    raise OSError("disk full")
M.ChunkedMemoryMapHandler.write_chunk = staticmethod(fail)
m.start_batch_range(0, 1)
m.store_gradients(0, [torch.ones(2, 3)])
try:
    m.wait_for_async_operations()
except Exception:
    leave(0)
leave(1)
''')
seed("c13-buffer-lock-per-batch", "C13", "two threads store preconditioned gradients of different batches of one chunk",
     "the buffer of a chunk is guarded by a lock of the batch, so two batches of one chunk are stored at once",
     [(MGR, '        with self._buffer_locks[buffer_key]:\n            # Get or create buffer\n', '        with self._buffer_locks["ifvp", batch_idx]:\n            # Get or create buffer\n', 1)],
     DISK + '''m = manager(chunk_size=4)
m.start_batch_range(0, 4)
m.layer_dims, m.total_proj_dim = [3], 3
free = []
class Checked(dict):
    def __setitem__(self, k, v):
        if not m._buffer_locks[k].locked():
            free.append(k)
        dict.__setitem__(self, k, v)
m._chunk_buffers = Checked()
m.store_ifvp(1, [torch.ones(2, 3)])
leave(1 if free else 0)
''')
seed("c24-metadata-written-in-place", "C24", "the process fails while the batch metadata is being written",
     "the metadata file is rewritten in place: a failure half way destroys the previous version",
     [(META, 'temp_path = metadata_path + ".tmp"', 'temp_path = metadata_path')],
     '''import json, logging
logging.disable(logging.CRITICAL)
from dattri.algorithm.block_projected_if.core import metadata as MD
with tempfile.TemporaryDirectory() as d:
    m = MD.MetadataManager(d, ["a", "b"])
    m.initialize_complete_dataset(data(8, 4))
    first = json.load(open(os.path.join(d, "batch_metadata.json")))
    dump = json.dump
    def half(obj, f, **k):
        f.write(json.dumps(obj)[:20])
        f.flush()
        raise OSError("disk full")
    MD.json.dump = half
    try:
        m.initialize_complete_dataset(data(12, 4))
    except Exception:
        pass
    MD.json.dump = dump
    try:
        ok = json.load(open(os.path.join(d, "batch_metadata.json")))["batch_info"] == first["batch_info"]
    except Exception:
        ok = False
sys.exit(0 if ok else 1)
''')
seed("c11-cpu-empty-layer-shift", "C11", "a layer between two others has no gradient in a batch, gradients kept in CPU memory",
     "with CPU storage the columns of the layers after an empty one are shifted into the empty layer's place",
     [(CPU, '''                    grad.cpu() if grad.device.type != "cpu" else grad
                )
            start_idx = end_idx
''', '''                    grad.cpu() if grad.device.type != "cpu" else grad
                )
                start_idx = end_idx
''')],
     '''from dattri.algorithm.block_projected_if.offload.cpu import CPUOffloadManager
import inspect
m = CPUOffloadManager(device="cpu", layer_names=["a", "b", "c"])
m.store_gradients(0, [torch.full((2, 3), 1.0), torch.full((2, 2), 2.0), torch.full((2, 4), 3.0)])
m.store_gradients(1, [torch.full((2, 3), 1.0), torch.tensor([]), torch.full((2, 4), 3.0)])
a, b, c = m.retrieve_gradients(1)
sys.exit(0 if bool((c == 3).all()) and bool((b == 0).all()) else 1)
''')
seed("c11-cpu-range-end", "C11", "gradients kept in CPU memory and read for a range of batches that is not the last one",
     "with CPU storage a range of batches includes the batch after its end",
     [(CPU, "idx for idx in batch_indices if start_batch <= idx < end_batch", "idx for idx in batch_indices if start_batch <= idx <= end_batch")],
     '''from dattri.algorithm.block_projected_if.offload.cpu import CPUOffloadManager
m = CPUOffloadManager(device="cpu", layer_names=["a"])
for i in range(4):
    m.store_gradients(i, [torch.full((2, 3), float(i))])
got = sorted(k for _, mp in m.create_gradient_dataloader("gradients", batch_size=1, pin_memory=False, batch_range=(0, 2)) for k in mp)
sys.exit(0 if got == [0, 1] else 1)
''')
seed("c22-layer-index-by-module-order", "C22", "layer names given in another order than the model defines them",
     "hooks number the layers in the order of the model, compressors and readers in the order of the names",
     [(HOOK, '''        for name, module in self.model.named_modules():
            if name in self.layer_names:
                idx = self.layer_name_to_idx[name]
''', '''        idx = -1
        for name, module in self.model.named_modules():
            if name in self.layer_names:
                idx += 1
''')],
     '''from dattri.algorithm.block_projected_if.core.hook import HookManager
seen = {}
class C:
    def __init__(self, name):
        self.name = name
    def forward(self, x, *a, **k):
        return torch.zeros(1)
    def __getattr__(self, n):
        raise AttributeError(n)
import dattri.algorithm.block_projected_if.core.hook as hk
def grad(grad_output, tensor_input, has_bias, compressor):
    return torch.full((1,), float(tensor_input.shape[-1]))
hk._compute_compressed_grad = grad
model = net(0)
m = HookManager(model, ["2", "0"])
m.set_compressors([None, None])
model(torch.randn(3, 4)).sum().backward() if False else model(torch.randn(3, 4, requires_grad=True)).sum().backward()
g = [int(x.item()) for x in m.get_compressed_grads()]
sys.exit(0 if g == [5, 4] else 1)
''')
seed("c05-factor-hooks-after-projection", "C05", "an exception inside the gradient caching, for instance a training step without a backward pass",
     "the factor hooks stay on the user's model when caching the factors fails",
     [(A + "dvemb.py", '''            # Remove hooks
            for h in handles:
                h.remove()

''', ""), (A + "dvemb.py", '''            self.data_indices[epoch].append(indices.cpu())
''', '''            self.data_indices[epoch].append(indices.cpu())

            # Remove hooks
            for h in handles:
                h.remove()
''')],
     '''from dattri.algorithm.dvemb import DVEmbAttributor
import inspect
model = net(0)
def loss(model, batch, device):
    x, y = batch
    return nn.functional.cross_entropy(model(x.to(device)), y.to(device))
t = AttributionTask(loss_func=loss, model=model, checkpoints=[model.state_dict()])
from dattri.params.projection import DVEmbProjectionParams
a = DVEmbAttributor(task=t, factorization_type="kronecker", proj_params=DVEmbProjectionParams(proj_dim_per_layer=4))
try:
    with a.cache_gradients_context(0, torch.arange(3), 0.1):
        model(torch.randn(3, 4))
        raise KeyboardInterrupt
except BaseException:
    pass
left = sum(len(m._forward_hooks) + len(m._backward_hooks) for m in model.modules())
sys.exit(0 if left == 0 else 1)
''')
seed("c23-lissa-denominator", "C23", "relative influence of kind l with the LiSSA attributor",
     "LiSSA divides by the squared self-influence instead of its square root",
     [(IFP, "val = (test_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()", "val = (test_batch_rep * transformed).sum(dim=1).clamp_min(1e-12)", 2)],
     '''from dattri.algorithm.influence_function import IFAttributorLiSSA
a = IFAttributorLiSSA(task=make(), recursion_depth=2)
IFAttributorLiSSA.transform_test_rep = lambda self, ckpt_idx, test_rep: test_rep
a.cache(data(6, 6, 1))
# with the identity in place of the inverse Hessian both kinds divide by the gradient's norm
sys.exit(0 if same(a.attribute(data(6, 3, 1), data(4, 2, 2), relatif_method="l"), a.attribute(data(6, 3, 1), data(4, 2, 2), relatif_method="theta")) else 1)
''')
seed("c02-cg-hessian-of-target", "C02", "the CG attributor with a target function different from the loss",
     "the inverse Hessian is computed from the target function instead of the training loss",
     [(IFP, '''            self.ihvp_func = ihvp_cg(
                partial(
                    self.task.get_loss_func(''', '''            self.ihvp_func = ihvp_cg(
                partial(
                    self.task.get_target_func(''')],
     '''from dattri.algorithm.influence_function import IFAttributorCG
def run(target):
    a = IFAttributorCG(task=make(target=target), regularization=5.0)
    a.cache(data(6, 6, 1))
    return a.transform_test_rep(0, torch.ones(2, 43))
sys.exit(0 if same(run(None), run("margin"), 1e-3) else 1)
''')
seed("c07-tracin-dict-self", "C07", "self-attribution with a loader of dictionary batches",
     "the batch size is read without having been set for dictionary batches",
     [(A + "tracin.py", '''                        feature_batch_size = train_batch_data[0].shape[0]
                    elif isinstance(train_batch_data, dict):
                        feature_batch_size = \\
                            train_batch_data[list(train_batch_data.keys())[0]].shape[0]  # noqa: RUF015

''', '''                        feature_batch_size = train_batch_data[0].shape[0]

''', 1)],
     '''from dattri.algorithm.tracin import TracInAttributor
model = net(0)
class D(torch.utils.data.Dataset):
    def __len__(self):
        return 4
    def __getitem__(self, i):
        return {"x": torch.full((4,), float(i)), "y": torch.tensor(i % 3)}
def loss(params, batch):
    return nn.functional.cross_entropy(torch.func.functional_call(model, params, (batch["x"].reshape(-1, 4),)), batch["y"].reshape(-1))
t = AttributionTask(loss_func=loss, model=model, checkpoints=model.state_dict())
try:
    s = TracInAttributor(task=t, weight_list=torch.ones(1), normalized_grad=False).self_attribute(DataLoader(D(), batch_size=2))
except Exception:
    sys.exit(1)
sys.exit(0 if s.shape == (4,) else 1)
''')
seed("c01-tracin-self-subset-end", "C01", "normalised self-attribution of a subset sampler whose last batch is partial",
     "the end of the last batch is taken from the dataset, not from the sampler, so rows and scores of the last batch differ",
     [(A + "tracin.py", '''                    len(train_dataloader.sampler),
                )
                if self.normalized_grad:
                    tda_output[row_st:row_ed] += (''', '''                    len(train_dataloader.dataset),
                )
                if self.normalized_grad:
                    tda_output[row_st:row_ed] += (''')],
     '''from dattri.algorithm.tracin import TracInAttributor
class S(torch.utils.data.Sampler):
    def __init__(self, idx):
        self.indices = idx
    def __iter__(self):
        return iter(self.indices)
    def __len__(self):
        return len(self.indices)
try:
    s = TracInAttributor(task=make(), weight_list=torch.ones(1), normalized_grad=True).self_attribute(data(10, 4, 1, sampler=S([0, 2, 4, 6, 8])))
except Exception:
    sys.exit(1)
sys.exit(0 if s.shape == (5,) else 1)
''')
seed("c10-ensemble-seeds-one-behind", "C10", "one projector used for several ensemble indices, checkpoints projected in another order",
     "after the index changes the random matrices are those of the previously used index",
     [(PROJ, '''            self.ensemble_id = ensemble_id
            self.get_generator_states()  # regenerate random seeds for new ensemble_id
            if self.proj_type == ProjectionType.random_mask:
                self._gen_randomness_mask(self.generator_states[0])
            elif self.proj_type == ProjectionType.identity:
                pass  # No randomness needed for identity projection
            elif self.num_blocks == 1:
                self._gen_randomness_dense(self.generator_states[0])
''', '''            self.get_generator_states()  # regenerate random seeds for new ensemble_id
            self.ensemble_id = ensemble_id
            if self.proj_type == ProjectionType.random_mask:
                self._gen_randomness_mask(self.generator_states[0])
            elif self.proj_type == ProjectionType.identity:
                pass  # No randomness needed for identity projection
            elif self.num_blocks == 1:
                self._gen_randomness_dense(self.generator_states[0])
''')],
     '''from dattri.func.projection import BasicProjector, ProjectionType
def mk():
    return BasicProjector(20, 8, 3, ProjectionType.normal, torch.device("cpu"))
x = torch.randn(4, 20)
a = mk()
a.project(x, 0), a.project(x, 2)
b = mk()
b.project(x, 1)
sys.exit(0 if same(a.project(x, 1), b.project(x, 1)) and not same(a.project(x, 2), a.project(x, 1)) else 1)
''')
