"""C18: caching again replaces what was cached before."""
from __future__ import annotations

from ..drive import FULL, TEST, TRAIN, attributor
from ..drive import OPAQUE_MODS
from ..scen import BLOCK, BLOCK_PKG, DVEMB, IF, IFS, RPS, RPS_OPAQUE, TRAK
from ..terms import NONE, TRUE, children, const, is_const, mk, show, sym

R_RES = "result-of-new-cache-only"
R_DISK = "files-removed-before-new-data"
R_READ = "no-stale-copies-in-memory"

OLD = sym("old_train_dataloader")
OLD_TRAIN = sym("earlier_train_dataloader")
OLD_TEST = sym("earlier_test_dataloader")
OLDS = {OLD: "the training set cached before", OLD_TEST: "the test set of an earlier request",
        OLD_TRAIN: "the training set of an earlier request"}


def scenarios():
    out = []
    tt = dict(train_dataloader=TRAIN, test_dataloader=TEST)
    ott = dict(train_dataloader=OLD_TRAIN, test_dataloader=OLD_TEST)
    tst = dict(train_dataloader=NONE, test_dataloader=TEST)
    otst = dict(train_dataloader=NONE, test_dataloader=OLD_TEST)

    def add(name, qual, use, again, **cfg):
        for used in (False, True):
            calls = [("cache-1", "cache", dict(full_train_dataloader=OLD))]
            if used:
                calls.append(("use-1",) + use)
            calls += [("cache-2", "cache", dict(full_train_dataloader=FULL)), ("main",) + again]
            out.append((f"{name}:{'cache,use,cache' if used else 'cache,cache'}", qual, calls, cfg))
    for c in IFS:
        short = c.replace("IFAttributor", "IF-")
        add(short, IF + c, ("attribute", ott), ("attribute", tt))
        add(short + ".self", IF + c, ("self_attribute", dict(train_dataloader=OLD_TRAIN)),
            ("self_attribute", dict(train_dataloader=TRAIN)))
    add("TRAK", TRAK, ("attribute", otst), ("attribute", tst))
    add("TRAK.self", TRAK, ("self_attribute", dict(train_dataloader=NONE)), ("self_attribute", dict(train_dataloader=NONE)))
    add("RPS", RPS, ("attribute", ott), ("attribute", tt), opaque=RPS_OPAQUE | {"dattri.algorithm.utils.rps_finetune_theta"})
    return out


PROJECTORS = ("dattri.func.projection.random_project", "dattri.func.projection.arnoldi_project")


def shape_only(t):
    """Feature dimensions: determined by the model, not by the samples."""
    if t.op == "dim" and t.args[1] != 0:
        return True
    return t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("numel", "dim", "element_size")


def sources(r, t, olds=None):
    """Terms a value depends on, following the contents containers have *now*."""
    i = r.i
    stores = {}
    for e in i.events:
        if e.kind in ("substore", "inplace") and e.base.op == "call" and e.base.args[3] is not None:
            stores.setdefault(e.base, []).append(e.value)
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if shape_only(x):
            continue
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in PROJECTORS:
            # only the shape of the sample features matters
            todo.extend(v for k, v in x.args[2] if k != "feature")
            continue
        if x.op == "call" and x.args[0].op == "class":
            # batch sizes only configure the projection kernel
            todo.extend(x.args[1])
            todo.extend(v for k, v in x.args[2] if k != "feature_batch_size")
            continue
        todo.extend(children(x))
        if x.op == "obj":
            ob = i.objs[x.args[0]]
            for v in i.S.heap.get(x.args[0], {}).values():
                if ob["kind"] == "inst":
                    continue
                if isinstance(v, tuple):
                    todo.extend(v)
                elif v is not None:
                    todo.append(v)
            if x.args[0] in i.generators:
                todo.extend(i.generators[x.args[0]][2].values())
        elif x.op == "idx" and x.args[0] in i.loopinfo:
            todo.append(i.loopinfo[x.args[0]]["iter"])
        elif x.op == "lv" and x in i.lvinfo:
            todo.extend(v for v in i.lvinfo[x])
        elif x in stores:
            todo.extend(stores[x])
    return seen


def via(r, t, old):
    """Attribute of the attributor through which an old value is reached."""
    h = r.i.S.heap.get(r.obj.args[0], {})
    main = sources(r, t)
    out = []
    for k, v in h.items():
        if isinstance(k, str) and hasattr(v, "op") and v in main and v.op not in ("const", "sym") and \
                old in sources(r, v):
            out.append(k)
    return sorted(out)


def run(c):
    c.rule(R_RES, "after a second cache(), scores depend only on the training set given to it")
    for name, qual, calls, cfg in scenarios():
        c.scenarios.append(name)
        with c.guard(name):
            r = attributor(c.repo, qual, **cfg)
            for key, meth, params in calls:
                r.call(meth, key=key, sep=True, **params)
            c.functions |= r.i.inlined
            judge(c, name, r, r.results["main"])
    dvemb(c)
    c.rule(R_DISK, "with disk storage, the files of an earlier cache are removed before the first new gradient is stored")
    c.rule(R_READ, "after the stored files are removed no copy of their contents is served from memory")
    block(c)
    disk(c)
    c.need(R_RES, 8)


def judge(c, name, r, t):
    if t is None:
        c.unknown(R_RES, name, "no normal exit")
        return
    src = sources(r, t)
    stale = [o for o in OLDS if o in src]
    if not stale:
        c.ok(R_RES, name)
    for o in stale:
        how = via(r, t, o)
        c.bad(R_RES, f"{name}:{o.args[0]}", f"the scores depend on {OLDS[o]}"
              + (f" through self.{', self.'.join(how)}" if how else ""), "")


def dvemb(c):
    old, new = sym("old_batch"), sym("new_batch")
    OLDS[old] = "the gradients recorded for an earlier cache"
    for fac in (False, True):
        name = f"DVEmb:{'factors' if fac else 'gradients'}"
        c.scenarios.append(name)
        with c.guard(name):
            r = attributor(c.repo, DVEMB, init={}, truth=lambda t: fac if t.op == "sym" and
                           t.args[0] == "use_factorization" else None)
            h = r.i.S.heap[r.obj.args[0]]
            if "use_factorization" in h:
                h["use_factorization"] = const(fac)
            for n, b in ((1, old), (2, new)):
                r.call("cache_gradients", key=f"grad-{n}", sep=True, batch_data=b, epoch=sym(f"epoch{n}"),
                       indices=sym(f"indices{n}"), learning_rate=sym(f"rate{n}"))
                r.call("cache", key=f"cache-{n}", sep=True, gradients=NONE, learning_rates=NONE, memory_saving=TRUE)
            t = r.call("attribute", key="main", sep=True, test_dataloader=TEST)
            c.functions |= r.i.inlined
            judge(c, name, r, t)


STORE_MODS = (BLOCK_PKG + "core.compressor", BLOCK_PKG + "core.hook", BLOCK_PKG + "core.utils", BLOCK_PKG + "offload.disk_io")
STORES = ("store_gradients", "store_ifvp", "store_preconditioner")
SUBDIRS = ("grad", "ifvp", "precond")


def block(c):
    for off in ("none", "cpu", "disk"):
        for hes in ("eFIM", "Identity"):
            name = f"Block:{off}:{hes}"
            c.scenarios.append(name)
            with c.guard(name):
                r = attributor(c.repo, BLOCK, init=dict(offload=const(off), hessian=const(hes), layer_names=sym("layers")),
                               opaque_mods=OPAQUE_MODS + STORE_MODS)
                r.call("cache", key="cache-1", sep=True, full_train_dataloader=OLD)
                r.call("cache", key="cache-2", sep=True, full_train_dataloader=FULL)
                r.call("attribute", key="main", sep=True, train_dataloader=TRAIN, test_dataloader=TEST)
                r.call("compute_self_attribution", key="self", sep=True)
                c.functions |= r.i.inlined
                judge(c, name + ":attribute", r, r.results["main"])
                judge(c, name + ":self", r, r.results["self"])
                if off == "disk":
                    removed(c, name, r)


def names(i, t):
    return {x.args[0] for x in i.expand(t) if x.op == "const" and isinstance(x.args[0], str)}


def removed(c, name, r):
    i = r.i
    stores = [e for e in r.events("cache-2", "call") if str(e.callee).rsplit(".", 1)[-1] in STORES
              and e.result is not None and e.result.op == "call"]
    if not stores:
        c.unknown(R_DISK, name, "no store call found")
        return
    first = min(stores, key=lambda e: e.seq)
    rem = []
    for e in r.events("cache-2", "call"):
        last = str(e.callee).rsplit(".", 1)[-1]
        if last in ("unlink", "rmtree", "remove", "rmdir", "removedirs") and e.seq < first.seq:
            t = e.recv if e.recv is not None else (e.args[0] if e.args else None)
            if t is not None:
                every = last == "rmtree" or any(
                    x.op == "call" and (x.args[0].args[1] if x.args[0].op == "attr" else str(x.args[0].args[0]).rsplit(".", 1)[-1])
                    in ("iterdir", "glob", "rglob", "listdir", "scandir", "walk") for x in i.expand(t))
                rem.append((e, names(i, t), every))
    for d in SUBDIRS:
        mine = [e for e, ns, every in rem if every and (d in ns or not ns & set(SUBDIRS))]
        if mine:
            c.ok(R_DISK, f"{name}:{d}")
        else:
            c.bad(R_DISK, f"{name}:{d}", f"files of an earlier cache in '{d}' are still there when new data is stored",
                  first.loc)


def disk(c):
    name = "ChunkedDiskIOManager:read-cache"
    with c.guard(name):
        r = attributor(c.repo, BLOCK_PKG + "offload.disk.DiskOffloadManager",
                       opaque_mods=(BLOCK_PKG + "offload.disk_io.memory_map", BLOCK_PKG + "offload.disk_io.prefetch_dataset"))
        i = r.i
        r.call("retrieve_gradients", key="read", sep=True, batch_idx=sym("batch_idx"), is_test=const(False))
        io = [v for v in i.S.heap[r.obj.args[0]].values() if hasattr(v, "op") and v.op == "obj"
              and i.objs[v.args[0]].get("cls") is not None]

        def held():
            out = {}
            for o in io:
                for k, v in i.S.heap.get(o.args[0], {}).items():
                    if v is not None and v.op == "obj" and i.objs[v.args[0]]["kind"] == "dict":
                        src = sources(r, v)
                        if any(x.op == "call" and x.args[0].op == "ext" and "load_chunk" in x.args[0].args[0] for x in src):
                            out[k] = v
            return out
        before = held()
        r.call("clear_cache", key="clear", sep=True)
        after = held()
        c.functions |= i.inlined
        for k in before:
            if k in after:
                c.bad(R_READ, f"{name}:{k}", f"clear_cache leaves chunks read earlier in self.{k}", "")
            else:
                c.ok(R_READ, f"{name}:{k}")
        if not before:
            c.unknown(R_READ, name, "no read cache found")
