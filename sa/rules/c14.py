"""C14: every advertised benchmark choice can actually be run.

The dispatchers are analysed once for every combination of the choices they advertise, with the module-level tables known.
"""
from __future__ import annotations

import ast
import itertools
import os
import re

from ..drive import functions
from ..terms import T, alts, const, is_const, mk, phi, show, sym
from .c15 import flat, subterms, text

R_KEYS = "tables-have-the-same-settings"
R_REACH = "every-choice-belongs-to-a-setting"
R_CALL = "what-is-registered-can-be-called"
R_KIND = "registered-objects-play-their-part"
R_MODEL = "one-model-per-setting"
R_FILES = "loaded-files-were-downloaded"
R_DEV = "runs-on-the-requested-device"
R_SPLIT = "training-part-first"
R_SIZE = "documented-sample-sizes"
R_NANO = "nanogpt-settings-reach-the-training-script"
R_ENTRY = "commands-have-their-function"

CLI = "dattri.script.dattri_retrain.main"
NANO = "dattri.script.dattri_retrain_nanogpt"
LOAD = "dattri.benchmark.load.load_benchmark"
ARGS = sym("args")
LOADER = sym("loader")
DEVICE = sym("device")
MOVES = ("to", "cuda", "cpu")
USED = set()
SAME_MODEL = ("eval", "train", "to", "cuda", "cpu", "float", "double", "half", "requires_grad_")


def run(c):
    c.rule(R_KEYS, "a setting that one table of the dispatcher contains is contained in all the tables looked up for it")
    c.rule(R_REACH, "every dataset, model and setting that is advertised is dispatched for some combination of choices")
    c.rule(R_CALL, "what the tables hold is called with arguments it accepts, and its result is used as what it is")
    c.rule(R_KIND, "the benchmark holds a model, functions and datasets (or None where a setting has none) under the documented names")
    c.rule(R_MODEL, "the training function, the loss function and the model factory of a setting construct the same model")
    c.rule(R_FILES, "the files that the loader opens are those it downloaded")
    c.rule(R_DEV, "training and loss functions move the model and the data to the device they are given")
    c.rule(R_SPLIT, "dataset functions return the training part first and the other part second")
    c.rule(R_SIZE, "the samplers have the sizes documented for the setting")
    c.rule(R_NANO, "settings substituted into a nanoGPT configuration exist there, and the files of an advertised dataset exist")
    c.rule(R_ENTRY, "console commands name functions that can be called without arguments")
    with c.guard("dattri_retrain"):
        cli(c)
    with c.guard("load_benchmark"):
        load(c)
    with c.guard("other functions"):
        others(c)
    with c.guard("datasets"):
        splits(c)
    with c.guard("nanogpt"):
        nano(c)
    with c.guard("console_scripts"):
        entries(c)


# ---------------------------------------------------------------- running a dispatcher for one combination

def strings(i, recv, name, r):
    """Results of string methods on known strings."""
    if name == "parse_args":
        return ARGS
    if name == "join" and recv.op == "const" and r.op == "call" and len(r.args[1]) == 1:
        its = i.exact_items(r.args[1][0])
        if its is not None and all(x.op == "const" and isinstance(x.args[0], str) for x in its):
            return const(recv.args[0].join(x.args[0] for x in its))
        if its:
            parts = [y for x in its for y in (recv, x if x.op == "const" else mk("fmt", x, None))][1:]
            return mk("fstr", *parts)
        return r
    if r.op == "call" and recv.op == "const" and isinstance(recv.args[0], str) and all(x.op == "const" for x in r.args[1]) and not r.args[2]:
        try:
            v = getattr(recv.args[0], name)(*[x.args[0] for x in r.args[1]])
        except Exception:   # noqa: BLE001
            return r
        if isinstance(v, (str, bool, int)):
            return const(v)
        if isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v):
            return mk("tuple", *[const(x) for x in v])
    return r


def arg(n):
    return mk("attr", ARGS, n)


def known(c, mods, **kw):
    r = functions(c.repo, tables=True, model=strings, **kw)
    for m in mods:
        r.i.load_tables(c.repo.modules[m])
    return r


def table_names(r):
    """Object of a module-level table -> its name."""
    out = {}
    for m, fid in r.i.modframes.items():
        for n, v in r.i.S.frames.get(fid, {}).items():
            if v.op == "obj" and r.i.objs[v.args[0]]["kind"] == "dict":
                out.setdefault(v, f"{m}.{n}")
    return out


def modules_used(c, qual):
    """The dispatcher's module and those its tables may come from."""
    m = c.repo.modules[qual.rsplit(".", 1)[0]]
    out = [m.name]
    for n, b in m.names.items():
        r = c.repo.resolve(m, n)
        if r and r[0] == "var" and r[1].name not in out:
            out.append(r[1].name)
    return out


def values(r, t):
    """The constants of a sequence of choices, or None."""
    ks = r.i.exact_keys(t)
    if ks is not None:
        return ks
    it = r.i.exact_items(t)
    if it is None and t.op == "call" and t.args[1] and t.args[0].op == "ext" and t.args[0].args[0].rsplit(".")[-1] in ("list", "sorted", "tuple"):
        return values(r, t.args[1][0])
    if it is not None and all(x.op == "const" for x in it):
        return [x.args[0] for x in it]
    return None


PROBLEMS = ("badcall", "badunpack", "missingkey")


def problems(r, events):
    """Things that cannot work in a run."""
    for e in events:
        if e.kind == "badcall" and not external_method(r, e):
            yield e, f"{e.d['callee'].rsplit('.', 1)[-1]} is called with {', '.join(e.d['problems'])}"
        elif e.kind == "badunpack":
            yield e, f"{e.d['got']} values are unpacked into {e.d['want']}"
        elif e.kind == "missingkey":
            yield e, f"there is no {show(e.d['index'])} in the table"
        elif e.kind == "call" and e.d.get("func") is not None and e.d["func"].op in ("const", "tuple"):
            yield e, f"{show(e.d['func'])} is called"
        elif e.kind == "call" and e.d.get("callee", "").startswith(".") and e.d.get("recv") is not None and is_const(e.d["recv"], None):
            yield e, f"{e.d['callee'][1:]} of None is called"
        elif e.kind == "unbound" and e.d["always"]:
            yield e, f"{e.d['name']} is read before it is assigned"


def external_method(r, e):
    return False


def fname(v):
    return v.rsplit(".", 1)[-1]


# ---------------------------------------------------------------- command line

def cli(c):
    mods = modules_used(c, CLI)
    r = known(c, mods)
    r.fcall(CLI, "main")
    c.functions |= r.i.inlined
    tables = table_names(r)
    choices = {}
    for e in r.events("main", "call"):
        if e.callee == ".add_argument" and e.args and e.args[0].op == "const":
            kw = dict(e.d["kwargs"])
            dest = kw["dest"].args[0] if "dest" in kw else next((a.args[0] for a in e.args if str(a.args[0]).startswith("--")), e.args[0].args[0])
            vs = values(r, kw["choices"]) if "choices" in kw else None
            if vs is not None:
                choices[dest.lstrip("-").replace("-", "_")] = vs
    used = set()
    for e in r.events("main", "subload"):
        if e.base in tables:
            used |= {n for n in choices if arg(n) in subterms(e.index)}
    used = sorted(used)
    if not used:
        c.unknown(R_KEYS, "dattri_retrain", "no table is looked up by an option with choices")
        return
    combos = list(itertools.product(*[choices[n] for n in used]))
    c.scenarios.append(f"dattri_retrain: {' x '.join(f'{n}({len(choices[n])})' for n in used)}")
    served, seen, models = {}, set(), {}
    good = {n: set() for n in used}
    for combo in combos:
        vals = dict(zip(used, combo))
        name = "dattri_retrain:" + ",".join(map(str, combo))
        q = known(c, mods, subst={**{arg(n): const(v) for n, v in vals.items()}, arg("extra_param"): const(None)})
        q.fcall(CLI, "main")
        c.functions |= q.i.inlined
        tabs = table_names(q)
        hit, miss = {}, {}
        for e in q.events("main"):
            if e.kind in ("subload", "missingkey") and e.d["base"] in tabs and e.d["index"].op == "const":
                k = e.d["index"].args[0]
                keys = q.i.exact_keys(e.d["base"])
                if keys is None:
                    continue
                (hit if k in keys else miss).setdefault(k, {})[tabs[e.d["base"]]] = e
        single = {v for v in combo}
        refused = False
        for k, ts in miss.items():
            if k in hit or k in single:
                for t, e in ts.items():
                    c.bad(R_KEYS, f"{fname(t)}:{k}", f"{k} is advertised" + (f" and is in {', '.join(map(fname, hit[k]))}" if k in hit else "") +
                          f", but {fname(t)} has no such entry", e.loc)
            refused = True
        retrained = [e for e in q.events("main", "call") if e.callee.startswith("dattri.model_util.retrain.retrain_")]
        if refused:
            continue
        if q.results["main"] is None or not retrained:
            for k in hit:
                if k not in single:
                    c.bad(R_REACH, f"{k}:{combo[-1]}", f"the setting {k} is in {', '.join(map(fname, hit[k]))} but nothing is retrained for {vals}",
                          next(iter(hit[k].values())).loc)
            continue
        for n, v in vals.items():
            good[n].add(v)
        for k, ts in hit.items():
            for t in ts:
                served.setdefault(t, set()).add(k)
            c.ok(R_KEYS, f"{k}", f"in {', '.join(sorted(map(fname, ts)))}")
        bad = False
        for e, msg in problems(q, q.events("main")):
            bad = True
            c.bad(R_CALL, f"{e.fn.rsplit('.', 1)[-1] if hasattr(e, 'fn') else ''}:{combo[-1] if msg.startswith('retrain') else ''}" .rstrip(":") or name,
                  f"with {vals}: {msg}", e.loc)
        trained = train_calls(q, retrained)
        if not trained:
            c.unknown(R_CALL, name, "no call of a training function found")
        elif not bad:
            c.ok(R_CALL, name, f"{retrained[0].callee.rsplit('.', 1)[-1]} calls {trained[0].callee.rsplit('.', 1)[-1]}")
        for e in q.events("main", "call"):
            if e.callee.rsplit(".", 1)[-1] == "DataLoader" and e.fn.rsplit(".", 1)[0] == CLI.rsplit(".", 1)[0]:
                ds = e.args[0] if e.args else dict(e.d["kwargs"]).get("dataset")
                got = marks(q, ds) if ds is not None else set()
                if got == {OTHER}:
                    c.bad(R_SPLIT, f"dattri_retrain:{combo[0]}:loader", f"with {vals}, models are retrained on the test data", e.loc)
                elif got:
                    c.ok(R_SPLIT, f"dattri_retrain:{combo[0]}:loader")
        for e in trained:
            if arg("device") not in choices and not any(arg("device") in subterms(v) for v in e.bound.values()):
                c.bad(R_DEV, f"{name}:device", f"the device of the command line does not reach {e.callee.rsplit('.', 1)[-1]}", e.loc)
            else:
                c.ok(R_DEV, f"{name}:device", e.callee.rsplit(".", 1)[-1])
    for n in used:
        for v in choices[n]:
            if v in good[n]:
                c.ok(R_REACH, f"{n}:{v}")
            else:
                c.bad(R_REACH, f"dattri_retrain:{n}:{v}", f"--{n} {v} is advertised, but no setting can be retrained with it",
                      f"{c.repo.modules[mods[0]].rel}:1")
    for t in {e.base: tables[e.base] for e in r.events("main", "subload") if e.base in tables}.items():
        keys = r.i.exact_keys(t[0])
        if keys is None:
            c.unknown(R_REACH, fname(t[1]), "entries not known")
            continue
        for k in keys:
            if k in served.get(t[1], ()):
                c.ok(R_REACH, f"{fname(t[1])}:{k}")
            elif not any(str(k) in x for x in c_bad_keys(c)):
                c.bad(R_REACH, f"{fname(t[1])}:{k}", f"{k} is in {fname(t[1])}, but no combination of the advertised choices leads to it",
                      f"{c.repo.modules[t[1].rsplit('.', 1)[0]].rel}:1")


def c_bad_keys(c):
    return {v[1] for v in c.violations if v[0] == R_KEYS}


def train_calls(q, retrained):
    out = []
    for e in q.events("main", "call"):
        if e.callee.startswith("dattri.benchmark.") and any(f.node is not None and f.info is not None and f.info.qual == x.callee
                                                         for f in e.stack[-1:] for x in retrained):
            out.append(e)
    return out


# ---------------------------------------------------------------- load_benchmark

def load(c):
    mods = modules_used(c, LOAD)
    f = c.repo.func(LOAD)
    r = known(c, mods)
    r.fcall(LOAD, "load")
    c.functions |= r.i.inlined
    tables = table_names(r)
    single, combined = {}, {}
    pm, pd = sym("model"), sym("dataset")
    for e in r.events("load"):
        if e.kind in ("subload", "contains") and e.d["base"] in tables:
            i = e.d["index"] if e.kind == "subload" else e.d["value"]
            have = {p for p in (pm, pd) if p in subterms(i)}
            (combined if have == {pm, pd} else single if have else {}).setdefault(e.d["base"], (i, e))
    if not combined:
        c.unknown(R_KEYS, "load_benchmark", "no table is looked up by dataset and model")
        return
    ids, where = {}, {}
    for t in combined:
        for k in r.i.exact_keys(t) or ():
            ids.setdefault(k, []).append(tables[t])
    datasets = {k for t, (i, _) in single.items() if i is pd for k in r.i.exact_keys(t) or ()}
    metrics = ["lds", "loo"]
    pairs = {}
    for k in ids:
        for d in sorted(datasets, key=len):
            if str(k).startswith(d) and len(k) > len(d):
                m = re.sub(r"^[^A-Za-z0-9]+", "", k[len(d):])
                pairs[k] = (d, m)
    loc0 = f"{c.repo.modules[mods[0]].rel}:{f.node.lineno}"
    for k in ids:
        if k not in pairs:
            c.bad(R_REACH, f"load:{k}", f"{k} is in {', '.join(map(fname, ids[k]))}, but its dataset is in no table of datasets", loc0)
    for d in sorted(datasets):
        if any(p[0] == d for p in pairs.values()):
            c.ok(R_REACH, f"load:{d}")
        else:
            c.bad(R_REACH, f"load:{d}", f"the dataset {d} is advertised, but no setting uses it", loc0)
    c.scenarios.append(f"load_benchmark: {len(pairs)} settings x {len(metrics)} metrics")
    for k, (d, m) in sorted(pairs.items()):
        with c.guard(f"load:{k}"):
            setting(c, mods, k, d, m, metrics, loc0)


def setting(c, mods, k, d, m, metrics, loc0):
    offered = []
    for metric in metrics:
        name = f"load:{k}:{metric}"
        q = known(c, mods, nonnull=lambda t: True if t is sym("download_path") else None)
        q.fcall(LOAD, "load", model=const(m), dataset=const(d), metric=const(metric))
        c.functions |= q.i.inlined
        tabs = table_names(q)
        evs = q.events("load")
        miss = [e for e in evs if e.kind == "missingkey" and e.d["base"] in tabs]
        for e in miss:
            c.bad(R_KEYS, f"{fname(tabs[e.d['base']])}:{show(e.d['index']).strip(chr(39))}",
                  f"{k} is advertised, but {fname(tabs[e.d['base']])} has no entry {show(e.d['index'])}", e.loc)
        res = q.results["load"]
        if res is None:
            rs = [e for e in evs if e.kind == "raise"]
            c.bad(R_REACH, f"load:{k}", f"load_benchmark refuses {k}, which is in its tables", rs[-1].loc if rs else loc0)
            return
        if miss:
            return
        c.ok(R_KEYS, f"load:{k}")
        bad = False
        for e, msg in problems(q, evs):
            bad = True
            c.bad(R_CALL, f"load:{k}:{e.fn.rsplit('.', 1)[-1]}", f"load_benchmark for {k}: {msg}", e.loc)
        if not bad:
            c.ok(R_CALL, name)
        if files(c, q, evs, name, k, metric, loc0):
            offered.append(metric)
        details = res.args[0] if res.op == "tuple" and res.args else res
        if metric == metrics[0]:
            parts(c, q, details, k, loc0)
    if offered:
        c.ok(R_FILES, f"load:{k}", "metrics " + ", ".join(offered))
    else:
        c.bad(R_FILES, f"load:{k}:ground_truth", f"no ground truth is downloaded for {k}", loc0)


def others(c):
    """Training and loss functions that no table holds run on the device they are given too."""
    for f in c.repo.all_functions():
        m = re.match(r"(train|loss)_", f.name)
        if not m or f.cls is not None or f.qual.rsplit(".", 1)[0] + "." + f.name != f.qual or not f.qual.startswith("dattri.benchmark.datasets."):
            continue
        names = [p[0] if isinstance(p, tuple) else getattr(p, "arg", p) for p in f.params]
        if "device" not in names or f.qual in USED:
            continue
        if not {"dataloader"} <= set(names):
            continue
        with c.guard(f.qual):
            q = known(c, [f.module.name])
            kw = {n: sym(n) for n in names if n in ("model_path", "seed", "dataloader")}
            kw.update(dataloader=LOADER, device=DEVICE)
            q.fcall(f.qual, "f", **kw)
            c.functions |= q.i.inlined
            devices(c, q, q.events("f"), f)


def entry(q, details, key):
    if details.op != "obj":
        return None
    return q.i.S.heap.get(details.args[0], {}).get(("k", key))


def function_of(q, t):
    """The repository function behind a registered value."""
    while t.op == "partial":
        t = t.args[0]
    fv = q.i.lookup_fv(t) if t.op in ("func", "bound") else None
    return fv[0].info if fv is not None else None


def parts(c, q, details, k, loc0):
    if entry(q, details, "model") is None:
        c.unknown(R_KIND, f"load:{k}", "the returned entries are not known")
        return
    models = {}
    for key in ("loss_func", "target_func", "train_func"):
        v = entry(q, details, key)
        for x in alts(v) if v is not None else ():
            if is_const(x, None) or function_of(q, x) is not None:
                c.ok(R_KIND, f"load:{k}:{key}", show(x))
            elif x.op in ("const", "tuple") or x.op == "obj" and q.i.objs[x.args[0]]["kind"] != "inst":
                c.bad(R_KIND, f"load:{k}:{key}", f"{key} of {k} is {show(x)}, which is not a function", loc0)
            else:
                c.unknown(R_KIND, f"load:{k}:{key}", show(x)[:80])
    v = entry(q, details, "model")
    for x in alts(v):
        if is_const(x, None):
            c.ok(R_KIND, f"load:{k}:model", "none")
        elif x.op in ("const", "tuple", "sym", "func", "partial", "class"):
            c.bad(R_KIND, f"load:{k}:model", f"the model returned for {k} is {show(x)}, which is not a model", loc0)
        else:
            got = built(q, x)
            models["model factory"] = got
            c.ok(R_KIND, f"load:{k}:model", str(got)[:80])
    for key in ("train_dataset", "test_dataset"):
        v = entry(q, details, key)
        if v is not None and all(x.op == "const" for x in alts(v)):
            c.bad(R_KIND, f"load:{k}:{key}", f"{key} of {k} is {show(v)}", loc0)
        elif v is not None:
            c.ok(R_KIND, f"load:{k}:{key}")
            got, other = marks(q, v), OTHER if key == "train_dataset" else TRAINING
            if got == {other}:
                c.bad(R_SPLIT, f"load:{k}:{key}", f"{key} of {k} is the {'test' if other == OTHER else 'training'} data", loc0)
            elif got:
                c.ok(R_SPLIT, f"load:{k}:{key}")
    for key, what in (("train_func", "training function"), ("loss_func", "loss function")):
        v = entry(q, details, key)
        if v is None or is_const(v, None) or len(alts(v)) > 1 or function_of(q, v) is None:
            continue
        got = use(c, q, v, key, k)
        if got is not None:
            models[what] = got
    if len(models) > 1:
        kinds = set(models.values())
        if len(kinds) == 1:
            c.ok(R_MODEL, k, str(next(iter(kinds)))[:100])
        elif any(x is None for x in kinds):
            c.unknown(R_MODEL, k, "some model is not known")
        else:
            c.bad(R_MODEL, k, f"for {k}, " + "; ".join(f"the {w} makes {describe(g)}" for w, g in models.items()), loc0)
    sizes(c, q, details, k, loc0)


def describe(g):
    return f"{fname(g[0])}({', '.join(f'{a}={b}' for a, b in g[1])})"


def use(c, q, v, key, k):
    """Call a registered training or loss function as a benchmark does; the model it uses."""
    f = function_of(q, v)
    USED.add(f.qual)
    args = (LOADER,) if key == "train_func" else (sym("model_path"), LOADER)
    kw = {"seed": sym("seed"), "device": DEVICE} if key == "train_func" else {"device": DEVICE}
    q.apply(v, *args, key=f"{key}", **kw)
    evs = q.events(key)
    where = f"{f.module.rel}:{f.node.lineno}"
    bad = False
    for e, msg in problems(q, evs):
        bad = True
        c.bad(R_CALL, f"{f.name}:{e.fn.rsplit('.', 1)[-1]}", f"{f.name}, called with " + ("a loader" if key == "train_func" else "a path and a loader") +
              f", {' and '.join(kw)}: {msg}", e.loc)
    if q.results[key] is None:
        c.bad(R_CALL, f"{f.name}", f"{f.name} never returns", where)
        return None
    if not bad:
        c.ok(R_CALL, f"{k}:{f.name}")
    devices(c, q, evs, f)
    if key == "train_func":
        got = {built(q, x) for x in alts(q.results[key]) if x.op not in ("undef",)}
    else:
        got = {built(q, e.d["recv"]) for e in evs if e.kind == "call" and e.callee == ".load_state_dict"}
    return got.pop() if len(got) == 1 else None


def base_model(t):
    """The model itself behind method calls that return it."""
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in SAME_MODEL:
        t = t.args[0].args[0]
    return t


def built(q, t):
    """(class or factory, arguments) of the construction of a model, without its device."""
    t = base_model(t)
    dev = ("device",)
    if t.op == "obj" and q.i.objs[t.args[0]]["kind"] == "inst":
        ci = q.i.objs[t.args[0]]["cls"]
        for e in q.i.events:
            if e.kind == "call" and e.callee.endswith(".__init__") and e.d.get("recv") is t or \
                    e.kind == "call" and e.callee.endswith(".__init__") and e.bound.get("self") is t:
                if e.callee.rsplit(".", 1)[0] in {x.qual for x in ci.mro(q.repo)}:
                    return ci.qual, tuple(sorted((n, show(v, 4)) for n, v in e.bound.items() if n not in dev and v is not t))
        return ci.qual, ()
    if t.op == "call" and t.args[0].op == "ext":
        return t.args[0].args[0], tuple([(str(n), show(a, 4)) for n, a in enumerate(t.args[1])] + [(n, show(a, 4)) for n, a in t.args[2] if n not in dev])
    if t.op == "call" and t.args[0].op == "attr":
        return show(t.args[0], 4), tuple([(str(n), show(a, 4)) for n, a in enumerate(t.args[1])] + [(n, show(a, 4)) for n, a in t.args[2] if n not in dev])
    return None


# ---------------------------------------------------------------- devices

def devices(c, q, evs, f):
    """Every forward pass uses a model and data that are on the device given."""
    models = {}
    for e in evs:
        if e.kind == "call" and e.callee in (".load_state_dict", ".parameters", ".state_dict", ".train", ".eval") and e.d.get("recv") is not None:
            models.setdefault(base_model(e.d["recv"]), e)
    for mdl, first in models.items():
        calls = [e for e in evs if e.kind == "call" and e.callee == "<value>" and base_model(e.d["func"]) is mdl]
        if not calls:
            continue
        moved = [e for e in evs if e.kind == "call" and e.callee in (".to", ".cuda") and base_model(e.d["recv"]) is mdl and
                 (e.callee == ".cuda" or any(DEVICE in subterms(x) for x in tuple(e.args) + tuple(v for _, v in e.d["kwargs"])))]
        if not moved:
            c.bad(R_DEV, f"{f.name}:model", f"{f.name} never moves the model to the device it is given", calls[0].loc)
        elif min(e.seq for e in moved) > min(e.seq for e in calls):
            c.bad(R_DEV, f"{f.name}:model", f"{f.name} uses the model before it moves it to the device it is given", calls[0].loc)
        else:
            c.ok(R_DEV, f"{f.name}:model", moved[0].loc)
        for e in calls:
            raw = [x for x in tuple(e.args) + tuple(v for _, v in e.d["kwargs"]) if unmoved(q, x)]
            if raw:
                c.bad(R_DEV, f"{f.name}:data", f"{e.fn.rsplit('.', 1)[-1]} passes {show(raw[0], 3)} to the model without moving it to the device it is given", e.loc)
            else:
                c.ok(R_DEV, f"{f.name}:data", e.loc)
        init = [e for e in evs if e.kind == "call" and e.callee.endswith(".__init__") and e.bound.get("self") is mdl and "device" in e.bound]
        for e in init[:1]:
            if DEVICE in subterms(e.bound["device"]):
                c.ok(R_DEV, f"{f.name}:constructed", e.callee)
            else:
                c.bad(R_DEV, f"{f.name}:constructed", f"{f.name} makes a model that keeps its own device {show(e.bound['device'])}, not the one it is given", e.loc)
    for e in evs:       # losses compare the outputs with labels on the same device
        if e.kind == "call" and e.callee == "<value>" and base_model(e.d["func"]) not in models and e.d["func"].op in ("call", "sym", "phi") and len(e.args) > 1:
            outs = [x for x in e.args if any(y.op == "call" and base_model(y.args[0]) in models for y in subterms(x))]
            raw = [x for x in e.args if x not in outs and unmoved(q, x)]
            if outs and raw:
                c.bad(R_DEV, f"{f.name}:labels", f"{e.fn.rsplit('.', 1)[-1]} compares the outputs with {show(raw[0], 3)}, which is not moved to the device it is given", e.loc)
            elif outs:
                c.ok(R_DEV, f"{f.name}:labels", e.loc)


def unmoved(q, t, seen=None):
    """Does this value use data of the loader that has not been moved to the device?"""
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in MOVES:
        if t.args[0].args[1] == "cuda":
            return False
        if any(DEVICE in subterms(x) for x in tuple(t.args[1]) + tuple(v for _, v in t.args[2])):
            return False
        return unmoved(q, t.args[0].args[0], seen)
    if t.op == "call" and any(DEVICE in subterms(x) for x in tuple(t.args[1]) + tuple(v for _, v in t.args[2])):
        return False
    if t.op in ("elem", "pick", "val", "key") and t.args[0] is LOADER or t.op == "elem" and LOADER in subterms(t.args[0]):
        return True
    if t.op == "dim" or t.op == "attr" and t.args[1] in ("shape", "device", "dtype"):
        return False
    if t.op == "obj":
        h = q.i.S.heap.get(t.args[0], {})
        vs = list(h.get("items") or []) + [v for n, v in h.items() if n == "*" or n == "v*" or isinstance(n, tuple) and n[0] == "k"]
        vs += [x for how, x in q.i.contents.get(t.args[0], ()) if how in ("val", "spread", "elem", "comp", "append")]
        return any(isinstance(v, T) and unmoved(q, v, seen) for v in vs)

    def inner(args):
        for x in args:
            if isinstance(x, tuple):
                yield from inner(x)
            elif isinstance(x, T):
                yield x
    return any(unmoved(q, x, seen) for x in inner(t.args))


# ---------------------------------------------------------------- files

def files(c, q, evs, name, k, metric, loc0):
    """Are the files of this metric downloaded, and are those opened among them?"""
    dirs, wrote, urls = [], [], []
    for e in evs:
        if e.kind == "call" and e.callee == ".extractall" and e.args:
            dirs.append((path_of(e.args[0]), [x.args[0] for x in (subterms(e.d["recv"]) | subterms(e.args[0])) if x.op == "const" and isinstance(x.args[0], str)], e))
        elif e.kind == "call" and e.callee in (".open", "builtins.open") and any(is_const(x) and "w" in str(x.args[0]) for x in mode_of(e)):
            wrote.append((path_of(e.d["recv"] if e.callee == ".open" else e.args[0]), e))
        elif e.kind == "call" and e.callee in (".write_bytes", ".write_text"):
            wrote.append((path_of(e.d["recv"]), e))
    offered = any(p.rsplit("/", 2)[-2:-1] == [metric] for p, _ in wrote)
    ok = True
    for e in evs:
        if e.kind != "call" or not e.args:
            continue
        if e.callee == "torch.load":
            for x in alts(e.args[0]):
                p = path_of(x)
                if any(p == w for w, _ in wrote):
                    c.ok(R_FILES, name, p[-60:])
                elif offered or not wrote:
                    ok = False
                    c.bad(R_FILES, f"load:{k}:{p.rsplit('/', 1)[-1]}", f"for {k} and {metric}, {tail(p)} is read but only " +
                          f"{', '.join(sorted({tail(w) for w, _ in wrote})) or 'nothing'} is downloaded", e.loc)
    # directories of the pre-trained models
    res = q.results["load"]
    details = res.args[0] if res is not None and res.op == "tuple" and res.args else None
    for key in ("models_full", "models_half"):
        v = entry(q, details, key) if details is not None else None
        if v is None or v.op != "obj":
            continue
        els = [x for how, x in q.i.contents.get(v.args[0], ()) if how in ("elem", "comp", "append")]
        for x in els:
            p = path_of(x)
            home = [(d, u, e) for d, u, e in dirs if p == d or p.startswith(d + "/")]
            if not dirs:
                continue
            if not home:
                c.bad(R_FILES, f"load:{k}:{key}", f"the models of {key} are looked for in {tail(p)}, where no archive is unpacked", loc0)
                continue
            want = key.split("_")[-1]
            other = "half" if want == "full" else "full"
            u = [s for _, us, _ in home for s in us if "http" in s]
            if any(f"_{other}." in s for s in u) and not any(f"_{want}." in s for s in u):
                c.bad(R_FILES, f"load:{k}:{key}", f"the models of {key} are taken from the archive {u[0].rsplit('/', 1)[-1]}", loc0)
            else:
                c.ok(R_FILES, f"load:{k}:{key}", tail(p))
            counted = listed(q, x)
            if counted and not any(p.startswith(y + "/") for y in counted):
                c.bad(R_FILES, f"load:{k}:{key}:number", f"the models of {key} are in {tail(home[0][0])}, but as many are returned as there are in {tail(counted[0])}", loc0)
            elif counted:
                c.ok(R_FILES, f"load:{k}:{key}:number", tail(counted[0]))
    return offered and ok


def listed(q, t):
    """Directories whose entries the numbers in a path are counted from."""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] in ("iterdir", "glob"):
                out.append(path_of(y.args[0].args[0]))
            elif y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] in ("os.listdir", "os.scandir") and y.args[1]:
                out.append(path_of(y.args[1][0]))
            elif y.op == "idx":
                todo.append(q.i.loopinfo[y.args[-1]]["iter"])
            elif y.op == "elem" and len(y.args) > 1:
                todo.append(y.args[0])
            elif y.op == "obj":
                todo += [q.i.loopinfo[lid]["iter"] for lid in q.i.objs[y.args[0]].get("loops") or ()]
                todo += [z for how, z in q.i.contents.get(y.args[0], ()) if how in ("elem", "comp", "append", "spread") and isinstance(z, T)]
    return out


def mode_of(e):
    kw = dict(e.d["kwargs"])
    pos = e.args[0 if e.callee == ".open" else 1:][:1]
    return list(pos) + ([kw["mode"]] if "mode" in kw else [])


def path_of(t):
    return text(flat(t))


def tail(p):
    return "/".join(p.split("/")[-2:])


# ---------------------------------------------------------------- dataset functions

TRAINING, OTHER = "training", "other"


def splits(c):
    """Functions that return a pair of datasets."""
    seen = set()
    for q in (LOAD, CLI):
        mod = c.repo.modules[q.rsplit(".", 1)[0]]
        for n in list(mod.names):
            r = c.repo.resolve(mod, n)
            if r and r[0] == "func" and ".datasets." in r[1].module.name and r[1].name.startswith("create_") and "dataset" in r[1].name:
                seen.add(r[1].qual)
    for qual in sorted(seen):
        with c.guard(qual):
            q = known(c, [])
            q.fcall(qual, "d")
            c.functions |= q.i.inlined
            res = q.results["d"]
            f = c.repo.func(qual)
            where = f"{f.module.rel}:{f.node.lineno}"
            for pair in alts(res) if res is not None else ():
                if pair.op != "tuple":
                    c.unknown(R_SPLIT, f.name, "result is not a pair")
                    continue
                if len(pair.args) != 2:
                    c.bad(R_SPLIT, f.name, f"{f.name} returns {len(pair.args)} values where a training and a test set are expected", where)
                    continue
                a, b = (marks(q, x) for x in pair.args)
                if a == {OTHER} or b == {TRAINING}:
                    c.bad(R_SPLIT, f.name, f"{f.name} returns the {'test' if a == {OTHER} else 'training'} data as its {'first' if a == {OTHER} else 'second'} dataset", where)
                elif a == {TRAINING} and b:
                    c.ok(R_SPLIT, f.name)
                else:
                    c.unknown(R_SPLIT, f.name, f"{show(pair, 3)}"[:100])


def marks(q, t, depth=0, seen=None):
    """Which parts of the data a dataset is made of, by the selectors used: train=..., split=..., names of files."""
    seen = set() if seen is None else seen
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], T):
                if x[0] == "train" and x[1].op == "const" and isinstance(x[1].args[0], bool):
                    out.add(TRAINING if x[1].args[0] else OTHER)
                    continue
                todo.append(x[1])
                continue
            todo += x
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "const" and isinstance(x.args[0], str):
            w = re.split(r"[^a-z]+", x.args[0].lower())
            if "train" in w:
                out.add(TRAINING)
            elif {"test", "val", "valid", "validation", "generated"} & set(w):
                out.add(OTHER)
            continue
        if x.op == "obj":
            ob = q.i.objs[x.args[0]]
            if ob["kind"] == "inst":
                for e in q.i.events:
                    if e.kind == "call" and e.callee.endswith(".__init__") and e.bound.get("self") is x:
                        todo += [v for n, v in e.bound.items() if v is not x]
            else:
                todo += [v for _, v in q.i.contents.get(x.args[0], ())]
            continue
        if x.op in ("dim", "lv"):
            continue
        if x.op == "sub" and x.args[1].op == "const":
            todo.append(x.args[1])
            if isinstance(x.args[1].args[0], str):
                continue
        todo += list(x.args)
    return out


# ---------------------------------------------------------------- documented sizes

def documented(c):
    """{(dataset, model): (train, test)} of the README's table of settings."""
    p = os.path.join(c.repo.root, "README.md")
    out = {}
    if not os.path.exists(p):
        return out
    head = None
    with open(p, encoding="utf-8") as f:
        for line in f:
            cells = [x.strip() for x in line.strip().strip("|").split("|")] if line.lstrip().startswith("|") else None
            if cells is None:
                head = None
                continue
            low = [x.lower() for x in cells]
            if "dataset" in low and "model" in low:
                head = low
                continue
            if head and len(cells) == len(head):
                row = dict(zip(head, cells))
                s = next((v for n, v in row.items() if "sample size" in n), "")
                m = re.findall(r"\d+", s)
                if len(m) == 2:
                    out[norm(row["dataset"]), norm(row["model"])] = (int(m[0]), int(m[1]))
    return out


def norm(s):
    return re.sub(r"[^a-z0-9]", "", re.sub(r"-(\d+)$", lambda m: m.group(0) if m.group(1) != "10" else "", s.lower()))


def sizes(c, q, details, k, loc0):
    docs = {d + "_" + m: v for (d, m), v in documented(c).items()}
    want = docs.get("_".join(norm(x) for x in k.split("_", 1)))
    for key, n in (("train_sampler", 0), ("test_sampler", 1)):
        v = entry(q, details, key)
        got = size_of(q, v) if v is not None else None
        if got is None or want is None:
            c.unknown(R_SIZE, f"{k}:{key}", "size not known" if got is None else "not documented")
        elif got == want[n]:
            c.ok(R_SIZE, f"{k}:{key}", str(got))
        else:
            c.bad(R_SIZE, f"{k}:{key}", f"the {key} of {k} goes through {got} samples, where the documented setting has {want[n]}", loc0)


def size_of(q, t):
    """Number of samples of a sampler over a constant range."""
    if t.op == "obj":
        for e in q.i.events:
            if e.kind == "call" and e.callee.endswith(".__init__") and e.bound.get("self") is t:
                got = {size_of(q, v) for n, v in e.bound.items() if v is not t} - {None}
                return got.pop() if len(got) == 1 else None
        it = q.i.exact_items(t)
        return len(it) if it is not None else None
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.range":
        a = t.args[1]
        if all(x.op == "const" and isinstance(x.args[0], int) for x in a):
            return len(range(*[x.args[0] for x in a]))
        return None
    if t.op == "call" and t.args[1]:
        return size_of(q, t.args[1][0])
    return None


# ---------------------------------------------------------------- nanoGPT

def nano(c):
    main = f"{NANO}.main"
    r = known(c, [])
    r.fcall(main, "main")
    c.functions |= r.i.inlined
    names, where = [], ""
    for e in r.events("main", "call"):
        if e.callee == ".add_argument" and e.args and is_const(e.args[0], "--dataset"):
            kw = dict(e.d["kwargs"])
            where = e.loc
            vs = values(r, kw["choices"]) if "choices" in kw else None
            h = kw.get("help")
            names = vs or (re.findall(r"'(\w+)'", h.args[0]) if h is not None and h.op == "const" else [])
            if "default" in kw and kw["default"].op == "const" and kw["default"].args[0] not in names:
                names = list(names) + [kw["default"].args[0]]
    pkg = os.path.join(c.repo.root, "dattri")
    for d in names:
        q = known(c, [], subst={arg("dataset"): const(d)})
        q.fcall(main, "main")
        call = next((e for e in q.events("main", "call") if e.callee == f"{NANO}.retrain"), None)
        if call is None:
            c.unknown(R_NANO, d, "no call of retrain")
            continue
        sets = {mk("attr", e.base, e.attr): e.value for e in q.events("main", "setattr")}
        conf, data = (inside(sets.get(call.bound.get(n), call.bound.get(n))) for n in ("config_path", "dataset_path"))
        if conf is None or data is None:
            c.unknown(R_NANO, d, "paths not known")
            continue
        ok = True
        mod = c.repo.modules.get("dattri." + conf[:-3].replace("/", ".")) if conf.endswith(".py") else None
        if not os.path.exists(os.path.join(pkg, conf)):
            ok = False
            c.bad(R_NANO, f"{d}:config", f"the dataset {d} is advertised, but its configuration {conf} does not exist", where)
        for p in sorted({suffix(e, call.bound["dataset_path"]) for e in q.events("main") if e.kind in ("call", "branch")} - {None}):
            if p.endswith(".py") and not os.path.exists(os.path.join(pkg, data, p)):
                ok = False
                c.bad(R_NANO, f"{d}:{p}", f"the dataset {d} is advertised, but {data}/{p} does not exist", where)
        if ok:
            c.ok(R_NANO, f"{d}:files", conf)
        if mod is not None:
            keys(c, q, d, mod, call)


def inside(t):
    """The path within the package that a path denotes."""
    if t is None:
        return None
    p = path_of(t)
    m = re.search(r"\}/(.*)$", p)
    return m.group(1) if m and "{" not in m.group(1) else None


def suffix(e, base):
    """File name joined to a directory in the arguments of a call."""
    for x in tuple(e.d.get("args") or ()) + ((e.d.get("cond"),) if e.d.get("cond") is not None else ()):
        for y in subterms(x):
            if y.op == "bin" and y.args[0] == "/" and y.args[2].op == "const" and isinstance(y.args[2].args[0], str) and base in subterms(y.args[1]):
                return y.args[2].args[0]
    return None


def keys(c, q, d, mod, call):
    """The lines replaced in a configuration exist in it."""
    have = {n for n, b in mod.names.items() if b[0] == "var"}
    lines = [ln for ln in mod.src.splitlines()]
    written = set()
    for how, x in [y for uid in q.i.contents for y in q.i.contents[uid]]:
        if isinstance(x, T) and x.op == "fstr" and x.args and x.args[0].op == "const":
            m = re.match(r"(\w+) = ", str(x.args[0].args[0]))
            if m:
                written.add(m.group(1))
    prefixes, always = {}, set()
    for e in q.events("main", "call"):
        if e.callee == ".append" and e.args and e.args[0].op == "fstr" and e.args[0].args[0].op == "const":
            m = re.match(r"(\w+) = ", str(e.args[0].args[0].args[0]))
            if not m:
                continue
            conds = [p for p in e.pc if p[1] and p[0].op == "call" and p[0].args[0].op == "attr" and p[0].args[0].args[1] == "startswith"]
            if conds:
                prefixes.setdefault(m.group(1), []).append((conds[-1][0].args[1][0], e))
            else:
                always.add(m.group(1))
    for n, ps in prefixes.items():
        for p, e in ps:
            if p.op != "const":
                continue
            hits = [ln for ln in lines if ln.startswith(p.args[0])]
            vars_ = {re.match(r"(\w+)", ln).group(1) for ln in hits if re.match(r"(\w+)", ln)}
            if n in always:
                c.ok(R_NANO, f"{d}:{n}", "also appended")
            elif not hits:
                c.bad(R_NANO, f"{d}:{n}", f"{n} replaces the lines of the configuration that start with {p.args[0]!r}, but {mod.rel} has none, so the setting is lost", e.loc)
            elif vars_ != {n}:
                c.bad(R_NANO, f"{d}:{n}", f"{n} replaces the lines of {mod.rel} that start with {p.args[0]!r}, which set {', '.join(sorted(vars_))}", e.loc)
            else:
                c.ok(R_NANO, f"{d}:{n}")


# ---------------------------------------------------------------- console commands

def entries(c):
    p = os.path.join(c.repo.root, "pyproject.toml")
    if not os.path.exists(p):
        return
    with open(p, encoding="utf-8") as f:
        src = f.read()
    for n, m, fn in re.findall(r"^\s*([\w-]+)\s*=\s*[\"']([\w.]+):(\w+)[\"']", src, re.M):
        if not m.startswith("dattri"):
            continue
        mod = c.repo.modules.get(m)
        r = c.repo.resolve(mod, fn) if mod is not None else None
        if r is None or r[0] != "func":
            c.bad(R_ENTRY, n, f"the command {n} names {m}.{fn}, which does not exist", "pyproject.toml:1")
            continue
        a = r[1].node.args
        need = len(a.posonlyargs + a.args) - len(a.defaults) + sum(d is None for d in a.kw_defaults)
        if need > 0:
            c.bad(R_ENTRY, n, f"the command {n} calls {m}.{fn}, which needs arguments", f"{r[1].module.rel}:{r[1].node.lineno}")
        else:
            c.ok(R_ENTRY, n, f"{m}.{fn}")
