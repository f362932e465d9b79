"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

A = "dattri/algorithm/"
B = A + "block_projected_if/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    P.append(d)


p("C01", "Every score lands at its own train row and test column",
  "For every attributor, the returned score matrix has one row per sample drawn from the training loader and one column per sample drawn from the test loader, in loader order, and the score of a (train sample, test sample) pair is stored at the row and column of exactly that pair. Self-attribution returns one score per training sample, each stored at the position of that sample. This holds for all batch sizes, partial last batches and subset samplers, even when train and test use different ones.",
  ["inputs", "configurations"], "every combination of train/test loader lengths, batch sizes, samplers, attributor and constructor configuration",
  "Tests compare shapes or scores on a few loaders with equal batch sizes; a transposed or shifted block is invisible on square or single-batch cases.",
  [A + "base.py", A + "tracin.py", A + "trak.py", A + "data_shapley.py", A + "rps.py", A + "dvemb.py", B + "block_projected_if.py"],
  [("block slice arithmetic in attribute/self_attribute", A + "base.py, tracin.py, data_shapley.py"), ("concatenation in loader order", A + "trak.py, rps.py"), ("batch-to-row mapping", B + "block_projected_if.py")],
  ["return value of attribute() and self_attribute()"])

p("C02", "Train samples use the loss, test samples use the target function",
  "When a separate target function is configured, every gradient-based attributor represents training samples by derivatives of the loss function on training data, and test samples by derivatives of the target function on test data. Curvature (Hessian, Fisher, Kronecker or Gauss-Newton statistics) is built from the loss on training data only. No path exchanges the two functions or the two datasets.",
  ["inputs", "configurations"], "all attributors, with and without caching, layer restriction or projection",
  "Almost every test uses the same function for loss and target and the same data for train and test, so swapping them changes nothing a test sees.",
  [A + "base.py", A + "tracin.py", A + "trak.py", A + "influence_function.py", A + "dvemb.py", "dattri/task.py"],
  [("gradient functions handed out per role", "dattri/task.py"), ("train/test representation methods", A + "base.py"), ("per-batch gradients", A + "tracin.py, trak.py")],
  ["score matrix for tasks with target_func != loss_func"])

p("C03", "Every checkpoint contributes with its own parameters",
  "For a task with several checkpoints, each ensemble-capable attributor (TracIn, TRAK and the influence-function family) processes every checkpoint, and within one checkpoint the parameters, gradient functions, cached statistics, probabilities and projections used for train and test samples all belong to that checkpoint. The results are combined over all checkpoints exactly as documented: weighted sum with the caller's weights for TracIn-style attributors, arithmetic mean for the others.",
  ["configurations", "inputs"], "all checkpoint counts, weights and attributors that accept ensembles",
  "Tests use one or two checkpoints that are often identical, where mixing or dropping checkpoints is invisible.",
  [A + "base.py", A + "tracin.py", A + "trak.py", A + "influence_function.py", "dattri/task.py"],
  [("loop over checkpoints and running mean", A + "base.py"), ("weighted sum", A + "tracin.py"), ("checkpoint-indexed caches", A + "influence_function.py, trak.py"), ("checkpoint loading", "dattri/task.py")],
  ["score matrix for ensembles of distinct checkpoints"])

p("C04", "A layer restriction applies to parameters and functions alike",
  "When the caller restricts an attributor to given layers, the parameters that are differentiated and every loss, target, gradient or curvature function they are passed to are restricted to those same layers, for train data, test data and cached statistics. Without a restriction all trainable parameters are used.",
  ["configurations", "inputs"], "all attributors with a layer option and all layer subsets",
  "Layer restriction is exercised by single calls in few attributors; each forgotten argument shows only for one attributor, mode and cache state.",
  [A + "base.py", A + "tracin.py", A + "trak.py", A + "influence_function.py", "dattri/task.py", "dattri/func/utils.py"],
  [("layer option forwarded to the task accessors", A + "*.py"), ("parameter subset selection", "dattri/task.py"), ("partial parameter wrapper", "dattri/func/utils.py")],
  ["parameters and functions used by attribute()/cache()"])

p("C05", "Temporary hooks are removed on every exit",
  "Every hook an operation registers on the user's model, and every method it replaces on the model, is removed or restored before that operation finishes, whether it returns normally or fails with an exception from user code or data loading.",
  ["fault_sequences", "inputs", "histories"], "all operations that register hooks, all points at which user callbacks or loaders can raise",
  "Tests only run the successful path and do not inspect the model afterwards.",
  ["dattri/model_util/hook.py", A + "dvemb.py", A + "influence_function.py", B + "core/hook.py", B + "core/compressor.py", B + "block_projected_if.py"],
  [("hook registration and removal", "dattri/model_util/hook.py, " + A + "dvemb.py, influence_function.py"), ("hook manager", B + "core/hook.py")],
  ["model._forward_hooks after the operation"])

p("C06", "Every documented option reaches the computation it names",
  "Each option accepted by an attributor, inverse-Hessian-vector routine, projection factory or parameter object (regularization, damping, tolerances, iteration counts, batch sizes, modes, seeds, projection type and dimension, device) is used by the computation under that same meaning. No wrapper drops an option, substitutes a constant for it, or passes it in the position of another option.",
  ["configurations"], "every public option of every attributor and function-level API, through every wrapper",
  "Tests call each API with defaults or one value and check shapes or loose tolerances, so a dropped or swapped option passes.",
  ["dattri/func/hessian.py", "dattri/func/fisher.py", "dattri/func/projection.py", "dattri/params/projection.py", A + "influence_function.py", A + "dvemb.py", A + "logra.py", A + "factgrass.py", A + "trak.py", A + "tracin.py"],
  [("wrappers over the function-level API", "dattri/func/hessian.py"), ("constructor options", A + "*.py"), ("projection parameter objects", "dattri/params/projection.py")],
  ["effect of each option on the returned values"])

p("C07", "No supported call reads a value that was never assigned",
  "On every path through the library, for every supported combination of options, input shapes and cache state, each variable is assigned before it is read and each attribute an operation reads has been set by the constructor or by a step the operation itself performs.",
  ["inputs", "configurations", "histories"], "all functions of the package, all branch outcomes",
  "Each test follows one path; an assignment missing from an unusual branch only fails there.",
  ["dattri"],
  [("branching assignments", "all modules"), ("constructor initialisation", A + "*.py")],
  ["NameError/UnboundLocalError/AttributeError raised by public calls"])

p("C08", "Tuple, list and dict batches are handled everywhere documented",
  "Attributors documented to accept tuple, list and dict batches treat all three the same way in every phase, moving every entry to the configured device, and raise a type error for any other batch type before computing anything from it.",
  ["inputs", "configurations"], "all documented attributor/batch-type combinations, in cache, attribute and self-attribute",
  "Dict batches are tested for two attributors and one phase each.",
  [A + "base.py", A + "tracin.py", A + "trak.py", "docs/guide/data_compatibility.md"],
  [("batch normalisation branches", A + "base.py, tracin.py, trak.py")],
  ["behaviour of cache/attribute/self_attribute per batch type"])

p("C09", "Caller-owned objects are not modified",
  "Computing attributions never changes objects the caller owns: batches yielded by a loader, parameter dictionaries and checkpoints of the task, lists, dictionaries and option objects passed as arguments, and tensors passed to function-level routines keep their contents, so repeating the same call gives the same answer.",
  ["histories", "inputs"], "all public operations and all sequences of repeated calls",
  "Tests build fresh inputs for each call and never compare them afterwards.",
  ["dattri/task.py", "dattri/func/utils.py", "dattri/func/hessian.py", "dattri/func/projection.py", A + "influence_function.py", A + "dvemb.py", "dattri/benchmark/utils.py"],
  [("copies before modification", "dattri/func/utils.py, " + A + "*.py")],
  ["caller's objects before and after a call; result of a second identical call"])

p("C10", "Random projections are determined by seed and ensemble index",
  "A random projection is fully determined by its dimensions, type, the user's seed and the ensemble index: equal values give the same matrix in any process and call order, the seed and the index both influence it, and train and test data of one checkpoint share the same projection. No projection draws from, or reseeds, a global random state whose history could change the result.",
  ["histories", "configurations", "inputs"], "all projector kinds, seeds, ensemble ids and call orders",
  "Tests project once or twice in a fixed order and check only norms or shapes.",
  ["dattri/func/projection.py", A + "tracin.py", A + "trak.py", A + "dvemb.py", B + "core/compressor.py"],
  [("seeded generators", "dattri/func/projection.py"), ("ensemble id per checkpoint", A + "tracin.py, trak.py"), ("per-layer seeds", B + "core/compressor.py")],
  ["projected features for equal and different seeds"])

p("C11", "Gradient-storage strategies are interchangeable",
  "Keeping compressed gradients in accelerator memory, CPU memory or on disk gives the same gradients, preconditioners and batch numbering back: every strategy implements the whole storage interface with the same parameters, stores and returns a value under the same batch and layer, and distinguishes raw from preconditioned gradients the same way.",
  ["configurations", "histories"], "all strategies and all sequences of store, retrieve and clear operations",
  "Tests run mostly the in-memory strategy on one batch.",
  [B + "offload/offload.py", B + "offload/memory.py", B + "offload/cpu.py", B + "offload/disk.py"],
  [("abstract storage interface", B + "offload/offload.py"), ("three implementations", B + "offload/")],
  ["retrieved gradients per strategy"])

p("C12", "Stored gradients are complete before anyone is told they exist",
  "On disk, gradient data is written in full before the index that describes it, every queued write is marked pending before it is handed to a background thread and unmarked when it ends, and any reader first waits for pending writes. An interruption between the steps leaves data without an index entry, never an index entry without data.",
  ["crash_points", "schedules", "fault_sequences"], "all interleavings of writer threads with readers, all interruption points",
  "Tests never interrupt a write and finish before threads interleave.",
  [B + "offload/disk_io/manager.py", B + "offload/disk_io/memory_map.py", B + "offload/disk.py", B + "block_projected_if.py"],
  [("write queue and pending marks", B + "offload/disk_io/manager.py"), ("data then metadata", B + "offload/disk_io/memory_map.py"), ("waits before reading", B + "block_projected_if.py")],
  ["cache directory contents", "gradients read back"])

p("C13", "State shared with background threads is accessed under its lock",
  "Every mutable field that background I/O threads share with the caller is read and written only while its lock is held, no lock is left held on any exit, locks are never taken in opposite orders, and no thread blocks on I/O completion while holding a lock the completing thread needs.",
  ["schedules"], "all interleavings of the caller with writer, prefetch and executor threads",
  "Races need rare interleavings that a test run does not produce.",
  [B + "offload/disk_io/manager.py", B + "offload/disk_io/memory_map.py", B + "offload/disk_io/prefetch_dataset.py", B + "core/metadata.py"],
  [("lock-guarded fields", B + "offload/disk_io/manager.py")],
  ["consistency of pending sets, buffers and statistics"])

p("C14", "Every advertised benchmark choice can actually be run",
  "Each dataset, model, metric and setting that the benchmark loader or the retraining command line advertises has a corresponding training function, model factory and data source, each reachable under the advertised name and callable with the arguments the dispatcher passes (the loader returns None for an entry that the setting explicitly registers as None). The training function, the loss function and the model factory of a setting construct the same model; training and loss functions put the model and the data on the device they are given; the samplers have the documented sizes; and the checkpoint and ground-truth files that the loader opens are those it downloads.",
  ["configurations"], "all advertised choices",
  "Most choices need downloads and long training, so tests cover a few.",
  ["dattri/benchmark/load.py", "dattri/script/dattri_retrain.py", "dattri/benchmark/datasets"],
  [("registries", "dattri/benchmark/load.py, dattri/script/dattri_retrain.py")],
  ["load_benchmark and the command line"])

p("C15", "What retraining writes is what ground-truth evaluation reads",
  "Leave-one-out and subset retraining record, for each saved model, the directory it was saved in and the exact training indices it used or omitted, and ground-truth evaluation reads those records under the same names and pairs every loss value with the indices of the model that produced it. Subset models are numbered consistently when the work is split over several runs, and the metadata that evaluation starts from is written only after every model and index file it describes.",
  ["inputs", "configurations", "crash_points", "histories"], "all index lists, subset counts and partitions",
  "Tests retrain a handful of tiny models in one partition starting at zero.",
  ["dattri/model_util/retrain.py", "dattri/metric/ground_truth.py", "dattri/metric/metrics.py", "dattri/script/dattri_retrain.py"],
  [("metadata and directory layout", "dattri/model_util/retrain.py"), ("readers", "dattri/metric/ground_truth.py")],
  ["metadata.yml, index files, ground-truth tensors"])

p("C16", "Shuffled loaders are reported before they are used",
  "Every attribution entry point warns when a loader whose samples it will index by position shuffles its data, for train and test loaders alike and also when caching, before the first batch is read.",
  ["inputs", "configurations"], "all attributors, entry points and loaders",
  "No test passes a shuffled loader.",
  [A + "utils.py", A + "base.py", A + "tracin.py", A + "trak.py", A + "data_shapley.py", A + "rps.py", B + "block_projected_if.py"],
  [("shuffle check", A + "utils.py"), ("calls of it", A + "*.py")],
  ["warnings emitted"])

p("C17", "Inconsistent requests are refused before any computation",
  "Each request the documentation declares invalid (checkpoint and weight counts that differ, a second training loader after caching, no training loader at all, several checkpoints where one is supported, unknown modes or methods, attribution before caching, out-of-range layer maps, non-square projection sizes) raises the documented error on every path before loaders are read or gradients computed, and valid requests are not refused.",
  ["configurations", "histories"], "all documented invalid requests",
  "Only a few error paths are tested.",
  [A + "tracin.py", A + "trak.py", A + "influence_function.py", A + "dvemb.py", A + "data_shapley.py", A + "rps.py", B + "block_projected_if.py", "dattri/task.py", "dattri/func/hessian.py", "dattri/func/projection.py"],
  [("guards", A + "*.py")],
  ["exceptions raised"])

p("C18", "Caching again replaces what was cached before",
  "After caching a new training set, every later result depends only on the new cache: lists, statistics, stored gradients, preconditioners and index metadata of an earlier cache are discarded or rebuilt, also when the new data has the same size.",
  ["histories"], "all sequences of cache and attribute calls on one attributor and one cache directory",
  "Tests cache once per attributor.",
  [A + "trak.py", A + "influence_function.py", A + "rps.py", A + "dvemb.py", B + "block_projected_if.py", B + "core/metadata.py"],
  [("state reset in cache()", A + "*.py")],
  ["scores after caching twice"])

p("C19", "Evaluation does not train and runs in evaluation mode",
  "The benchmark loss and evaluation functions switch the model to evaluation mode before the first forward pass, compute no parameter updates, and load the requested checkpoint into the model first; the task's default checkpoint loading, the benchmark loader, the brittleness check and DVEmb also use or hand out the model in evaluation mode, and no attributor switches it back; the forward passes that benchmark training learns from happen outside evaluation mode, also after an evaluation between epochs.",
  ["inputs", "configurations"], "all benchmark settings and checkpoints",
  "Dropout and batch-norm effects are small and random, and most settings need downloads.",
  ["dattri/benchmark/datasets", "dattri/task.py"],
  [("loss functions per benchmark", "dattri/benchmark/datasets/*/*.py"), ("default checkpoint loading", "dattri/task.py")],
  ["model.training during evaluation"])

p("C20", "Seeded training is reproducible",
  "Every benchmark training function that takes a seed fixes the random state with that seed before it creates the model or draws its first random number, and repeated retraining with one seed derives every model's randomness from that seed: the subsets and training seeds depend only on the given seed and the number of the subset and run (so that a partitioned run trains the same models), the models of one subset get different seeds, and the command lines pass their seed on.",
  ["histories", "configurations"], "all training functions, seeds and process histories",
  "Two runs in one fresh test process agree by luck or are never compared.",
  ["dattri/benchmark/datasets", "dattri/model_util/retrain.py", "dattri/benchmark/utils.py", "dattri/script/dattri_retrain.py"],
  [("seed calls", "dattri/benchmark/datasets/*/*.py, dattri/model_util/retrain.py")],
  ["trained parameters"])

p("C21", "Flattened parameters round-trip in one fixed order",
  "Flattening named parameters and unflattening them are inverse: both cover exactly the trainable parameters, in the same order, with adjacent non-overlapping ranges, for whole-model, layer-wise and partial forms, and chunked projection uses the same ranges for sizing and slicing.",
  ["inputs", "programs"], "all models and layer selections",
  "Tests use models whose parameters are all trainable and in default order.",
  ["dattri/func/utils.py", "dattri/func/projection.py", "dattri/task.py"],
  [("flatten/unflatten pairs", "dattri/func/utils.py"), ("chunked projection", "dattri/func/projection.py")],
  ["dict -> vector -> dict"])

p("C22", "Train and test gradients of a layer share one compressor",
  "Block-projected attribution compresses the training and the test gradients of a layer with the same sparsifier and projector, keeps layers aligned between gradients, preconditioners and stored offsets, and pairs train layer k only with test layer k.",
  ["configurations", "inputs"], "all models, layer lists and compressor settings",
  "Tests compare shapes and self-consistency on one small model.",
  [B + "block_projected_if.py", B + "core/compressor.py", B + "core/hook.py", B + "core/metadata.py"],
  [("compressor setup and hook manager", B + "block_projected_if.py")],
  ["scores per layer"])

p("C23", "A requested score normalisation is applied or refused",
  "When the caller requests a score normalisation, every attributor that accepts the option divides the scores by the documented denominator, computed from training representations of the same batch and checkpoint, in both attribution and self-attribution, or raises an error; it never silently returns unnormalised or differently normalised scores.",
  ["configurations", "inputs"], "all attributors and normalisation options",
  "Tests exercise one attributor with single-batch loaders.",
  [A + "base.py", A + "influence_function.py", A + "tracin.py"],
  [("denominator computation", A + "influence_function.py"), ("division", A + "base.py")],
  ["scores with and without normalisation"])

p("C24", "Metadata files survive interruption",
  "Saving batch or chunk metadata is atomic: at any interruption point the file under its final name is either the complete previous version or the complete new one; a chunk's index may also be absent, but only from the moment its data starts to be rewritten until the new index is complete.",
  ["crash_points"], "all interruption points while saving",
  "Tests do not interrupt a save.",
  [B + "core/metadata.py", B + "offload/disk_io/memory_map.py"],
  [("write to a temporary file, then rename", B + "core/metadata.py")],
  ["metadata file contents after a crash"])

p("C25", "A failed background read or write is reported to the caller",
  "When reading or writing stored gradients fails, synchronously or in a background thread, the error reaches the caller of the operation or of the next wait; it is never replaced by empty, zero or stale data, and it never leaves a waiter blocked forever.",
  ["fault_sequences", "schedules"], "all I/O failures at all points",
  "Tests inject no I/O faults.",
  [B + "offload/disk_io/manager.py", B + "offload/disk_io/memory_map.py", B + "offload/disk_io/prefetch_dataset.py", B + "offload/disk.py", B + "block_projected_if.py"],
  [("error handling in workers", B + "offload/disk_io/manager.py")],
  ["exceptions seen by the caller"])

p("C26", "Metrics pair each score with the sample it belongs to",
  "Every metric reads the score matrix as rows for training samples and columns for test samples, selects scores of exactly the training indices recorded in the ground truth, and pairs the result for a test sample with the ground truth of the same test sample.",
  ["inputs", "configurations"], "all score matrices and ground truths, square or not, in any retraining order",
  "Tests use square matrices and indices 0..n-1 in order.",
  ["dattri/metric/metrics.py", "dattri/metric/ground_truth.py", "dattri/metric/britteness.py"],
  [("index selection and correlation", "dattri/metric/metrics.py")],
  ["metric values"])

# ---- not decided by static analysis
N = "values of floating-point computations"
p("C31", "Inverse-Hessian-vector products are accurate",
  "For a positive-definite damped Hessian, the explicit, conjugate-gradient, LiSSA and Arnoldi routines approximate the true product within their documented tolerance.",
  ["inputs"], "all losses and vectors", "Accuracy depends on the spectrum of each input.",
  ["dattri/func/hessian.py"], [("solvers", "dattri/func/hessian.py")])
p("C32", "Random projections preserve inner products",
  "With the documented dimension, projections keep pairwise inner products within the Johnson-Lindenstrauss error with high probability.",
  ["inputs"], "all feature sets", "A probabilistic numeric statement.",
  ["dattri/func/projection.py"], [("projectors", "dattri/func/projection.py")])
p("C33", "KNN-Shapley recursion yields exact Shapley values",
  "The values returned equal the Shapley values of the KNN utility.",
  ["inputs"], "all label and distance configurations", "Exponential definition; tests cover one example.",
  [A + "data_shapley.py"], [("recursion", A + "data_shapley.py")])
p("C34", "EK-FAC statistics approximate the Fisher matrix",
  "Kronecker factors, eigenbases and corrected eigenvalues approximate the model's Fisher information.",
  ["inputs"], "all models and data", "Numerical approximation quality.",
  ["dattri/func/fisher.py", A + "influence_function.py"], [("estimators", "dattri/func/fisher.py")])
p("C35", "Attribution scores predict retraining outcomes",
  "Scores correlate with actual leave-one-out or subset retraining effects.",
  ["inputs"], "all benchmarks", "Statistical claim about training dynamics.",
  ["dattri/metric"], [("metrics", "dattri/metric/metrics.py")])
p("C36", "DVEmb recursion equals unrolled training influence",
  "Data-value embeddings equal the derivative of the final model with respect to sample weights along the recorded SGD trajectory.",
  ["histories"], "all trajectories", "A numeric identity over run-time trajectories.",
  [A + "dvemb.py"], [("embedding recursion", A + "dvemb.py")])
p("C37", "Memory and time stay within the configured limits",
  "Offloading, chunking and prefetching keep memory below the configured limits and overlap I/O with computation.",
  ["schedules"], "all model sizes and schedules", "Resource use depends on runtime sizes and timing.",
  [B + "offload"], [("buffering", B + "offload/disk_io/")])
p("C38", "Downloaded benchmark data is correct",
  "Downloaded datasets, checkpoints and pre-computed ground truths are complete and uncorrupted.",
  ["inputs"], "all benchmark settings", "Needs the network and remote content.",
  ["dattri/benchmark/load.py"], [("downloads", "dattri/benchmark/load.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
