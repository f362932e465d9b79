"""Writes DESIGN.md: hand-written text below + rule texts from the last evidence + findings + planted bugs."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.environ.get("VERIF_EVIDENCE", H + "/evidence")

HEAD = """# Static verification of dattri

One family of technique: static analysis. `python3 -m sa.run <property>` parses `/repo/dattri` on every run (stdlib
`ast` only, nothing of the repository is imported or executed), interprets the public operations abstractly and
applies repository-specific rules to what happened. `sa/` is the machinery, `sa/rules/<id>.py` one rule set per
property. (This file is written by `tools/mkdesign.py`.)

## The engine

`sa/interp.py` is a flow- and context-sensitive, join-based abstract interpreter for Python. It starts at the public
API (constructor, `cache`, `attribute`, `self_attribute`, ...) with symbolic arguments, inlines every repository
function it meets (methods, closures, generators, context managers, decorators), and treats torch, user callbacks and
the numerical kernels as opaque. Values are *provenance terms*: interned expression trees that say where a value came
from (a loader's element, a task function applied to the parameters of checkpoint `idx(loop)`, ...). Loops are run to
a fixpoint with loop-carried symbols; branches join; path conditions are recorded; no solver is involved and no path
is enumerated. Each call, load, store, raise, loop, hook registration and lock operation becomes an *event* with its
provenance terms, its path condition, the loops around it, what must have happened before it, and what is held at it.
The rules are statements about events and terms, so extracted helpers, renamed variables, reordered statements and
rewritten loops leave them unaffected.

Parts: `terms.py` (interned terms), `core.py` (modules, classes, MRO, name resolution of the analysed package),
`interp.py`, `drive.py` (symbolic attributors, loaders, tasks; `attributor()`, `functions()`), `scen.py` (the table of
attributor configurations: every attributor x options x cached/uncached x entry points, and the block-projected
family), `axes.py` (which sample set each tensor axis ranges over), `evals.py` (evaluations of loss/target functions:
with which parameters, data, layers; memo tables and their keys), `num.py` (linear forms of index arithmetic:
`n + 1 - n`, half-open ranges, partial last batches), `fold.py` (constant folding over concrete option values),
`feas.py` (feasibility of a path condition over finite option domains), `files.py` (paths written, read, renamed,
removed), `offl.py` (the three offload managers and the disk manager's threads), `report.py`, `run.py`.

**Obligations.** A rule applied to one construct gives one obligation: discharged, violated, or undecided (a term
outside what the rule understands). Undecided obligations are listed in the evidence and never raise an alarm. A rule
with fewer instances than its confirmed minimum is recorded as undecided too; a check that decides nothing at all fails
as broken instead of passing vacuously.
Internal errors inside one scenario are confined to it (`c.guard`) and reported as undecided.

**Strength.** Each verdict quantifies over all paths of the analysed scenarios (over-approximated by joins) and over
all values of the symbolic inputs: any batch count and size, any number of checkpoints, any data. That is what the
tests sample. What it does not cover: arithmetic inside tensors (an opaque kernel may compute the wrong number),
third-party code, user functions, and anything a rule leaves undecided. Hence `level: other` in the manifest. `quick`
and `thorough` run the same analysis: it has no depth bound to raise (loops go to a fixpoint), each check needs 5-60 s.

**Judging what code does.** Every rule was tried on behaviour-preserving variants as well as on broken ones:
`tools/mutants.py` holds about 700 variants of the sources, each with the expected verdict ("bad"/"quiet"), and
`tools/mut.py` runs them. Renamings, extracted helpers, comprehension/loop rewrites, early returns, `with`/`try`
rewrites, reordered independent statements are among the quiet ones.

"""
HOW = {
"C01": "The axes domain gives each tensor axis the sample set it ranges over (train loader, test loader, features), through einsum/mm/sum/cat/stack/slice stores. A block store `out[rows, cols] = block` must have rows that are this train batch's position range and cols that are this test batch's, where the position is a linear form of the loop counters (partial last batches included), and the stored block must be oriented (train, test). Joining functions (cat over batches, averaging over checkpoints) must combine results of the same position.",
"C02": "Each evaluation of a task function on data is classified by role (train representation, test representation, curvature) from where its result ends up; train roles must come from the loss on train data, test roles from the target function on test data, curvature from the loss. RPS is documented to differ and is exempt.",
"C03": "Inside the loop over checkpoints all parameters, functions, cached statistics, projectors and weights that meet in one product must carry the same checkpoint index; memo tables must be keyed by it; the loop must run over all checkpoints; the combination over checkpoints must be the documented sum/mean with each checkpoint's own weight.",
"C04": "Layer-restriction terms on both sides of every evaluation `f(params, data)` must be the same value; splits use the restricted parameters; task functions restrict exactly to what is asked; a single string is one layer.",
"C05": "Typestate over hook handles and replaced methods with exceptional edges from every opaque call: a handle live at a return or at an exception exit is a violation.",
"C06": "For every option (constructor arguments, parameter objects, function arguments): does it reach a term that matters (data or control dependence of results, stores, warnings, opaque callees)? Options forwarded to opaque kernels must arrive at the parameter of the same meaning; documented relations (lambda, 1/regularization ...) are checked as roles; an explicit argument has priority over a stored one.",
"C07": "Definite assignment on feasible paths for locals (path conditions correlated through `feas`), definition of all global names, and must-set attributes over each public call sequence, for each supported option value.",
"C08": "Runs every entry point with the batch typed tuple, list and dict (and a foreign type) and compares the sequences of what model functions receive, normalised by entry.",
"C09": "May-alias roots of every mutating operation (in-place tensor methods, subscript stores, list/dict mutators, attribute stores): none may be an object reached from a caller's argument, batch, checkpoint or task dictionary.",
"C10": "The terms that reach a random generator's seed are exactly functions of (seed, ensemble index); no global random state; nothing drawn before depends on history; one projector per checkpoint for train and test.",
"C11": "Interfaces are compared by signature; contents by reading back: the term returned under a key is the term stored under it, through concatenation, slicing by batch ranges and per-layer columns.",
"C12": "Must-have-happened-before over events of the disk manager, including the worker functions handed to the executor: data write before index write, mark before submit, unmark after write on every exit, reader waits dominate reads.",
"C13": "Lockset analysis: fields shared with worker closures and their locks (keyed locks are distinguished by key), held sets at each access, acquisition order graph, release on every exit, no blocking wait with a needed lock held.",
"C14": "Registries are evaluated (constant folding over the tables and choices), then each advertised combination is followed through `load_benchmark`/the retrain command: callable exists, signature accepts the arguments, data reaches the model's device, sample counts match the documentation.",
"C15": "Writer/reader agreement: file-name terms and metadata keys written by `retrain_loo/lds` against those read by the ground-truth functions; recorded indices against the subset handed to training; partition ranges cover 0..n.",
"C16": "For each loader indexed by position: on every path a warning under the condition 'sampler is a shuffling one' precedes the loader's first batch.",
"C17": "Assume the facts of each invalid request documented (constant or symbolic), then every path must raise the documented error before loaders are read or state is written; with a valid one it must not.",
"C18": "Runs cache; cache; attribute with two symbolic training sets: no term of the result may reach the first one.",
"C19": "Must-have-happened `eval()` before forward, `load_state_dict` before both, no `backward`/`step`; the reverse for training.",
"C20": "Must-have-happened seeding before the first draw (torch/numpy/random separately) with the term of the given seed; injectivity of derived seeds (linear forms over run counters).",
"C21": "Order terms of both directions (named_parameters, dict order, slices by running offset as linear forms), trainable filters on both sides, chunk widths against slice widths.",
"C22": "Identity of compressor objects between train and test paths, layer index as position in one list, no late binding in hook closures.",
"C23": "With normalisation requested every stored score is a quotient whose denominator's provenance is the training representation of the same batch and checkpoint in the documented form, or all paths raise.",
"C24": "Effects on paths: written under a temporary name, closed before `os.replace`, final name removed by nobody, temporary name not read.",
"C25": "Exceptional edges of I/O operations: an except clause that neither re-raises nor records is a swallow; recorded errors are re-raised by each wait; no default data after a failed read.",
"C26": "Row/column roles of the score matrix in each metric, selection by recorded indices, rank functions applied along the same order, positions versus dataset indices kept apart.",
}
NA = """## Properties static analysis cannot decide here (`not_applicable`)

C31-C36 are numerical or statistical statements about runtime tensors (solver accuracy, Johnson-Lindenstrauss,
Shapley exactness, Fisher approximation, retraining correlation, unrolled derivatives): the source fixes the formula
but no dataflow fact bounds the value. C37 concerns the allocator and the disk at run time. C38 concerns remote files.
Each reason is in the manifest.

"""
TAIL = """## False alarms corrected, limits

* C08 was first stated for all attributors and all batch types; the documentation promises tuple and list for all and
  dict for CG, TracIn, TRAK: the property now says 'everywhere documented'.
* C02: RPS is documented to use the target function on training data; exempt.
* C09: `get_cifar2_indices_and_adjust_labels` modifies the dataset as its documented purpose; excluded.
* C11: storing one batch number twice without clearing differs between disk and memory, but no public operation does
  it; disk returns shape (0,) instead of (n, 0) for empty layers. Neither is alarmed on.
* C14: the wikitext2 leave-one-out models are neither advertised nor downloaded; skipped.
* C18: a variant of DataInf that creates its representation table only if missing, refilled per checkpoint on each
  caching, may alarm (element-wise overwrite of a container is not recognised as replacement).
* vcheck takes files below `dattri/benchmark/` for test files, so the eight defects there are recorded, not repaired.

"""

def main():
    props = [json.loads(l) for l in open(H + "/properties.jsonl")]
    out = [HEAD, "## Properties and how each is decided\n"]
    for p in props:
        i = p["id"]
        f = f"{EV}/{i}.json"
        if i not in HOW:
            continue
        out.append(f"### {i} {p['title']}\n\n{HOW[i]}\n")
        if os.path.exists(f):
            d = json.load(open(f))
            rules = RULES(d)
            for r, t in rules.items():
                out.append(f"* `{r}`: {t}")
        out.append("")
    out.append(NA)
    out.append("## Genuine defects\n\nRepaired (`fix:` commits in /repo) and recorded ones, from `known_findings.txt`:\n")
    for l in open(H + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m:
            out.append(f"* {m[1]} repaired in {m[2]}: {m[3]}")
        m = re.match(r"finding: property=(\S+) rule=(\S+) construct=(.*?) :: (.*)", l)
        if m:
            out.append(f"* {m[1]} recorded (`{m[2]}`): {m[4]}")
    out.append("\n## Planted bugs and what catches them\n\nEach lies in `seeded/<id>` and is caught by the check of its own property (confirmed by vcheck or by `tools/seed.py`).\n")
    for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
        d = json.load(open(f))
        out.append(f"* `{os.path.basename(os.path.dirname(f))}` (check {d['property']}): {d['what_it_breaks']} Needs: {d['needs']}")
    out.append("""
Rules added because a planted bug or variant was missed: whole-key memo tables (C03, C04), checkpoint weights, joined
per-checkpoint lists and scaling after the loop (C03), rows of partial batches, chunk rows of the block projector and
the steps recorded together by DVEmb (C01), backward passes (C02), method options and priority of explicit arguments
(C06), DataInf and `first(loader)` batches (C08), keyed locks (C13), ranges of the last part (C15), collisions of
derived seeds (C20), chunk widths (C21), known dimensions (C22), order of returned values and indices (C26), skipped
columns of empty layers (C11). A later batch of bugs in the storage added number formats, directories, row sizes and file
names (C11), the key of the read cache (C12), a temporary name of its own (C24), dropped error records and made-up rows
(C25). A batch of larger refactorings, run against all checks, added `map()`, `slice()`, errors raised inside
comprehensions, sums divided after their loop, and read-modify-write of score blocks.
""")
    out.append(TAIL)
    open(H + "/DESIGN.md", "w").write("\n".join(out))


def RULES(d):
    r = d.get("rules") or d.get("coverage", {}).get("rules") or {}
    if isinstance(r, list):
        r = {x.get("rule") or x.get("name"): x.get("text", "") for x in r}
    return {k: (v if isinstance(v, str) else v.get("text", v.get("rule", ""))) for k, v in r.items()}


main()
