"""C01: every score lands at its own train row and test column."""
from __future__ import annotations

from ..axes import Axes
from ..interp import is_alloc
from ..drive import TEST, attributor
from ..scen import DVEMB, blocks, table
from ..terms import NONE, alts, children, const, is_const, show, sym

R_SHAPE = "result-axes"
R_BLOCK = "block-position"
R_VALUE = "block-orientation"
R_COMB = "consistent-combination"


def base_alloc(t):
    """Strip value-preserving wrappers; returns (allocation, transposed?)."""
    tr = False
    while True:
        if is_alloc(t):
            return t, tr
        if t.op == "T":
            t, tr = t.args[0], not tr
            continue
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("detach", "cpu", "to", "clone", "contiguous"):
            t = t.args[0].args[0]
            continue
        return None, tr


def scaled_alloc(t, depth=0):
    """Allocations a value is made from by arithmetic."""
    a, _ = base_alloc(t)
    if a is not None:
        yield a
    elif depth < 6 and t.op == "bin":
        for x in t.args[1:]:
            yield from scaled_alloc(x, depth + 1)
    elif depth < 6 and (t.op == "T" or t.op == "call" and t.args[0].op == "attr"):
        yield from scaled_alloc(t.args[0] if t.op == "T" else t.args[0].args[0], depth + 1)


R_STEP = "recorded-steps-stay-together"
R_CHUNK = "chunk-rows-belong-to-their-samples"


def run(c):
    c.rule(R_CHUNK, "block-projected attribution: the rows cut from a stored chunk with the chunk's own row range of a "
                    "batch are stored at the sample range recorded for that same batch, and the columns address the "
                    "test rows the product was computed with")
    c.rule(R_SHAPE, "the returned tensor has axes (samples of the train loader, samples of the test loader); "
                    "self-attribution: (samples of the train loader,)")
    c.rule(R_BLOCK, "a block is stored at [i*batch_size_X : one batch later (cut at len(sampler_X))] where i and "
                    "batch_size_X belong to the loader whose axis is indexed")
    c.rule(R_VALUE, "the rows and columns of a stored block come from the batches its slices address")
    c.rule(R_COMB, "values are never combined elementwise or contracted across different sample sets")
    n = 0
    for s in table():
        with c.guard(s.name):
            check_scenario(c, s, s.build(c.repo))
    for s in blocks():
        with c.guard(s.name):
            check_projected(c, s, s.build(c.repo))
    c.rule(R_STEP, "DVEmb: the gradients, learning rate and sample indices combined in one step were recorded by the "
                   "same call, each embedding row is added at its sample's index, and attribute() returns the rows of "
                   "the requested indices in the requested order")
    for ft in ("none", "kronecker", "elementwise"):
        with c.guard("DVEmb." + ft):
            check_steps(c, ft)
    c.need(R_SHAPE, 15)
    c.need(R_BLOCK, 20)


def expected(s):
    if "test" in s.roles:
        return (("N", s.roles["train"]), ("N", s.roles["test"]))
    return (("N", s.roles["train"]),)


def check_scenario(c, s, r):
    c.scenarios.append(s.name)
    c.functions |= {f for f in r.i.inlined}
    ax = Axes(r.i)
    res = r.results["main"]
    want = expected(s)
    if res is None:
        c.unknown(R_SHAPE, s.name, "no normal return path")
        return
    for k, v in enumerate(alts(res)):
        a, tr = base_alloc(v)
        if a is None:
            a = next((x for x in scaled_alloc(v)), None)
            if a is not None:
                judge_shape(c, ax, s, ax.o(v), want, v)
                check_stores(c, ax, s, r, a)
                continue
        shape = ax.o(v) if a is None else ax.o(a)
        if a is not None and tr and shape:
            shape = tuple(reversed(shape))
        judge_shape(c, ax, s, shape, want, v)
        if a is not None:
            check_stores(c, ax, s, r, a)
    for t, msg in ax.conflicts:
        c.bad(R_COMB, s.name, f"{msg}: {show(t, 4)[:160]}", c_loc(s, r))
    if not ax.conflicts:
        c.ok(R_COMB, s.name)


def c_loc(s, r):
    f = r.cls.find(r.repo, [x for x in s.calls if x[0] == "main"][0][1])
    return f.loc()


def judge_shape(c, ax, s, shape, want, v):
    if shape is None or Ellipsis in shape:
        c.unknown(R_SHAPE, s.name, f"axes of {show(v, 3)[:80]} not inferred")
        return
    loc = s.name
    if len(shape) != len(want):
        if any(x is None for x in shape) and len(shape) < len(want):
            c.unknown(R_SHAPE, s.name, "rank not inferred")
            return
        c.bad(R_SHAPE, s.name, f"returns axes ({', '.join(ax.name(x) for x in shape)}), "
                               f"expected ({', '.join(ax.name(x) for x in want)})", loc)
        return
    for k, (g, w) in enumerate(zip(shape, want)):
        if g is None:
            c.unknown(R_SHAPE, f"{s.name}#axis{k}", "axis not inferred")
        elif g == w:
            c.ok(R_SHAPE, f"{s.name}#axis{k}", ax.name(g))
        else:
            c.bad(R_SHAPE, f"{s.name}#axis{k}", f"axis {k} is {ax.name(g)}, expected {ax.name(w)}", loc)


def check_stores(c, ax, s, r, a):
    shape = ax.o(a)
    # allocations feeding the result through sorted indices are checked as well
    targets = {a}
    for e in r.events("main", "substore"):
        b, _ = base_alloc(e.base)
        if b is None:
            continue
        sh = ax.o(b)
        if sh is None or not all(isinstance(x, tuple) for x in sh):
            continue
        targets.add(b)
        idx = e.index.args if e.index.op == "tuple" else (e.index,)
        cons = f"{s.name}:{e.fn}"
        blocks = []
        if len(idx) > len(sh):
            c.unknown(R_BLOCK, cons, "index rank")
            continue
        for k, it in enumerate(idx):
            d = ax.index_domain(it)
            key = f"{cons}#axis{k}"
            if d is None:
                c.unknown(R_BLOCK, key, f"index {show(it, 4)[:90]} not understood")
                blocks.append(None)
                continue
            if d == "all":
                blocks.append("all")
                continue
            if d[0] == "bad":
                c.bad(R_BLOCK, key, d[1], e.loc)
                blocks.append(None)
                continue
            tag = d[1]
            if tag[1] is not sh[k][1]:
                c.bad(R_BLOCK, key, f"axis {k} ({ax.name(sh[k])}) is indexed by {ax.name(tag)}", e.loc)
            else:
                c.ok(R_BLOCK, key, show(it, 4)[:80])
            blocks.append(tag)
        vs = alts(e.value)
        for v in vs:
            vsh = ax.o(v)
            if vsh is None or Ellipsis in vsh or len(vsh) != len(idx):
                if vsh is not None and Ellipsis not in vsh and len(vsh) > len(idx):
                    c.bad(R_VALUE, cons, f"the stored value has {len(vsh)} axes for a block with {len(idx)}", e.loc)
                else:
                    c.unknown(R_VALUE, cons, f"axes of {show(v, 3)[:60]} not inferred")
                continue
            for k, (g, bl) in enumerate(zip(vsh, blocks)):
                key = f"{cons}#axis{k}"
                if g is None or bl is None or not isinstance(bl, tuple):
                    c.unknown(R_VALUE, key, "not inferred")
                elif g == bl or g == "1":
                    c.ok(R_VALUE, key, ax.name(g))
                else:
                    c.bad(R_VALUE, key, f"axis {k} of the stored block holds {ax.name(g)} but the slice addresses "
                                        f"{ax.name(bl)}", e.loc)
    # whole-result updates with batch-sized values
    for e in r.events("main", "inplace"):
        b, _ = base_alloc(e.base)
        if b not in targets:
            continue
        sh = ax.o(b)
        for v in alts(e.value) if e.value is not None else ():
            vsh = ax.o(v)
            if vsh and any(isinstance(x, tuple) and x[0] == "B" for x in vsh if x is not Ellipsis):
                c.bad(R_BLOCK, f"{s.name}:{e.fn}:whole",
                      f"a per-batch value ({', '.join(ax.name(x) for x in vsh)}) is combined with the whole result "
                      f"({', '.join(ax.name(x) for x in sh)})", e.loc)


# ------------------------------------------------------------------ block-projected attribution
def span(t):
    """lo:hi written as both ends of one recorded range: the range term."""
    if t.op != "slice" or not is_const(t.args[2], None):
        return None
    lo, hi = t.args[:2]
    if lo.op == "sub" and hi.op == "sub" and is_const(lo.args[1], 0) and is_const(hi.args[1], 1) \
            and lo.args[0] is hi.args[0]:
        return lo.args[0]
    return None


def entry(e):
    """(mapping, key) a range was taken from."""
    if e.op == "elem" and e.args[0].op == "dictview":
        kind, m = e.args[0].args[:2]
        if kind == "values":
            return m, (m, e.args[1])
        return None
    if e.op != "sub":
        return None
    m, k = e.args
    if k.op == "elem":
        src = k.args[0]
        if src.op == "dictview" and src.args[0] == "keys":
            src = src.args[1]
        return m, (src, k.args[1])
    return m, k


def is_samples(m):
    return m.op == "call" and m.args[0].op == "attr" and m.args[0].args[1] == "get_batch_to_sample_mapping"


def chunk_of(m):
    """The loader element (chunk, mapping) a mapping comes from."""
    if m.op == "sub" and is_const(m.args[1], 1) and m.args[0].op == "elem":
        return m.args[0]
    return None


def shifted(t):
    """A recorded range of which one end was moved."""
    if t.op != "slice":
        return False
    parts = [x for x in t.args[:2] if x.op == "bin" and x.args[0] in ("+", "-")]
    subs = [x for x in t.args[:2] if x.op == "sub"]
    for p in parts:
        ops = p.args[1:]
        if any(o.op == "sub" and any(o.args[0] is q.args[0] for q in subs) for o in ops) \
                and any(o.op == "const" for o in ops):
            return True
    return False


def check_projected(c, s, r):
    c.scenarios.append(s.name)
    c.functions |= {f for f in r.i.inlined}
    results = {a for v in alts(r.results["main"]) for a in [base_alloc(v)[0]] if a is not None} \
        if r.results["main"] is not None else set()
    for e in r.events("main", "substore"):
        b, _ = base_alloc(e.base)
        if b is None or b not in results:
            continue
        idx = e.index.args if e.index.op == "tuple" else (e.index,)
        cons = f"{s.name}:{e.fn}"
        rng = span(idx[0])
        if shifted(idx[0]):
            c.bad(R_CHUNK, cons + "#rows", f"one end of the recorded sample range is moved: {show(idx[0], 5)[:120]}", e.loc)
            continue
        ent = entry(rng) if rng is not None else None
        if ent is None:
            c.unknown(R_CHUNK, cons, f"row index {show(idx[0], 4)[:80]} not understood")
            continue
        m, key = ent
        if not is_samples(m):
            if chunk_of(m) is not None:
                c.bad(R_CHUNK, cons + "#rows", "the result is addressed with the rows of the chunk "
                      f"({show(rng, 4)[:70]}), not with the samples recorded for the batch", e.loc)
            else:
                c.unknown(R_CHUNK, cons, f"{show(m, 3)[:60]} not understood")
            continue
        c.ok(R_CHUNK, cons + "#rows", show(rng, 4)[:80])
        value_rows(c, e, cons, r, key)
        if len(idx) > 1:
            value_columns(c, e, cons, r, idx[1])


def value_rows(c, e, cons, r, key):
    n = 0
    for x in r.i.expand(e.value):
        if x.op != "sub":
            continue
        sl = x.args[1].args[0] if x.args[1].op == "tuple" and x.args[1].args else x.args[1]
        if shifted(sl):
            n += 1
            c.bad(R_CHUNK, cons + "#chunk", f"one end of the chunk's row range is moved: {show(sl, 5)[:120]}", e.loc)
            continue
        rng = span(sl)
        ent = entry(rng) if rng is not None else None
        if ent is None:
            continue
        m, k2 = ent
        el = chunk_of(m)
        if is_samples(m):
            n += 1
            c.bad(R_CHUNK, cons + "#chunk", "the chunk is cut with the sample range, not with the chunk's own rows", e.loc)
            continue
        if el is None:
            continue
        n += 1
        if not same_key(k2, key):
            c.bad(R_CHUNK, cons + "#chunk", f"the rows of one batch ({show(rng, 4)[:60]}) are stored at the samples of "
                                            "another", e.loc)
            continue
        src = {y.args[0] for y in r.i.expand(x.args[0]) if y.op == "sub" and is_const(y.args[1], 0)
               and y.args[0].op == "elem" and y.args[0].args[1] is el.args[1] or
               y.op == "sub" and is_const(y.args[1], 0) and y.args[0] is el}
        if src and el not in src:
            c.bad(R_CHUNK, cons + "#chunk", "a chunk is cut with the row ranges of another loader's chunk", e.loc)
            continue
        c.ok(R_CHUNK, cons + "#chunk", show(rng, 4)[:80])
    if not n:
        if any(chunk_of(y) is not None or (y.op == "sub" and is_const(y.args[1], 0) and y.args[0].op == "elem")
               for y in r.i.expand(e.value)) and not any(y.op == "slice" for y in r.i.expand(e.value)):
            c.bad(R_CHUNK, cons + "#chunk", "a whole chunk is stored at the samples of one batch", e.loc)
        else:
            c.unknown(R_CHUNK, cons + "#chunk", "rows of the stored value not understood")


def same_key(a, b):
    return a == b or a is b


def value_columns(c, e, cons, r, col):
    if col.op != "slice":
        c.unknown(R_CHUNK, cons + "#columns", show(col, 4)[:60])
        return
    cand = set()
    for x in r.i.expand(e.value):
        if x.op == "sub":
            sl = x.args[1].args[0] if x.args[1].op == "tuple" and x.args[1].args else x.args[1]
            if sl.op == "slice" and span(sl) is None and not shifted(sl):
                cand.add(sl)
    if is_const(col.args[0], None) and is_const(col.args[1], None):
        if cand:
            c.bad(R_CHUNK, cons + "#columns", "values of a part of the test rows are stored in every column", e.loc)
        return
    if col in cand:
        c.ok(R_CHUNK, cons + "#columns", show(col, 4)[:80])
    elif len(cand) == 1:
        c.bad(R_CHUNK, cons + "#columns", f"computed for the test rows {show(next(iter(cand)), 4)[:70]} but stored at "
                                          f"the columns {show(col, 4)[:70]}", e.loc)
    else:
        c.unknown(R_CHUNK, cons + "#columns", show(col, 4)[:60])


# ------------------------------------------------------------------ DVEmb
KEEP = {"to", "cpu", "cuda", "long", "int", "clone", "detach", "contiguous", "type", "numpy", "tolist"}
REORDER = {"sorted", "set", "unique", "sort", "flip", "reversed", "argsort", "frozenset", "unique_consecutive"}
KEEP_EXT = {"torch.tensor", "torch.as_tensor", "torch.asarray", "builtins.list", "builtins.tuple", "numpy.array",
            "numpy.asarray", "torch.from_numpy", "torch.LongTensor"}


def bare(t):
    """Strip conversions that keep the elements and their order."""
    while True:
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in KEEP:
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in KEEP_EXT and t.args[1]:
            t = t.args[1][0]
        else:
            return t


def positions(r, t, lists):
    """{recorded list: positions it is read at} for the recorded per-step lists reaching t (through stores into objects)."""
    out, seen, todo = {}, set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "pick" and x.args[1].op == "obj" and x.args[1] in lists:
            out.setdefault(lists[x.args[1]], set()).add(x.args[2])
            continue
        if x.op == "sub" and x.args[0] in lists:
            out.setdefault(lists[x.args[0]], set()).add(x.args[1])
            continue
        if x.op == "sub" and x.args[0].op == "phi" and any(y in lists for y in x.args[0].args):
            for y in x.args[0].args:
                if y in lists:
                    out.setdefault(lists[y], set()).add(x.args[1])
            continue
        if x.op in ("dim", "slice") or x.op == "attr" and x.args[1] in ("dtype", "device", "shape"):
            continue
        if x.op == "obj":
            for how, v in r.i.contents.get(x.args[0], ()):
                todo.append(v)
            continue
        todo.extend(children(x))
    return out


def check_steps(c, ft):
    name = "DVEmb." + ft
    c.scenarios.append(name)
    batch, ix, ep, lr, want = sym("batch"), sym("indices"), sym("epoch"), sym("rate"), sym("wanted")
    r = attributor(c.repo, DVEMB, init=dict(factorization_type=const(ft)))
    r.call("cache_gradients", epoch=ep, batch_data=batch, indices=ix, learning_rate=lr)
    r.call("cache", gradients=NONE, learning_rates=NONE)
    r.call("attribute", test_dataloader=TEST, train_data_indices=want)
    c.functions |= r.i.inlined
    # the lists one call of cache_gradients() appends to
    lists = {}
    for e in r.events("cache_gradients", "substore"):
        nm = (e.d.get("name") or "").split(".")[-1]
        if e.value is not None and e.value.op == "obj" and e.index is ep:
            lists[e.value] = nm
    for o, nm in list(lists.items()):
        for how, v in r.i.contents.get(o.args[0], ()):
            if nm == "data_indices":
                if bare(v) is ix:
                    c.ok(R_STEP, f"{name}:recorded-indices")
                else:
                    c.bad(R_STEP, f"{name}:recorded-indices", f"the recorded sample indices are {show(v, 4)[:80]}, not "
                          "the ones given for the batch", r.cls.find(r.repo, "cache_gradients").loc())
    # where the rows of one step go
    emb = {e.value for e in r.events("cache", "substore") if (e.d.get("name") or "").endswith("embeddings")}
    n = 0
    for e in r.events("cache"):
        if e.kind == "call" and e.callee in (".index_add_", ".index_copy_", ".scatter_add_") and len(e.args) >= 3:
            base, idx, src = e.recv, e.args[1], e.args[2]
        elif e.kind == "substore":
            base, idx, src = e.base, e.index, e.value
        else:
            continue
        if base is None or not hasattr(base, "op"):
            continue
        b, _ = base_alloc(base)
        if b is None or (emb and b not in emb):
            continue
        ps, pi = positions(r, src, lists), positions(r, idx, lists)
        if not ps:
            continue
        n += 1
        cons = f"{name}:{e.fn}"
        root = bare(idx)
        if "data_indices" not in pi:
            if root.op == "slice" or any(y.op == "ext" and "arange" in str(y.args[0]) for y in r.i.expand(idx)):
                c.bad(R_STEP, cons, f"the rows of a step are added at {show(idx, 4)[:70]}, not at the recorded indices "
                                    "of its samples", e.loc)
            else:
                c.unknown(R_STEP, cons, f"index {show(idx, 4)[:70]} not understood")
            continue
        if root.op not in ("pick", "sub"):
            if root.op == "call":
                c.bad(R_STEP, cons, f"the recorded indices are changed before the rows are added: {show(root, 4)[:80]}", e.loc)
            else:
                c.unknown(R_STEP, cons, f"index {show(idx, 4)[:70]} not understood")
            continue
        where = set().union(*pi.values())
        for nm, pp in sorted(ps.items()):
            if pp == where:
                c.ok(R_STEP, f"{cons}:{nm}", "same position")
            elif len(pp) == 1 and len(where) == 1:
                c.bad(R_STEP, f"{cons}:{nm}", f"{nm} of step {show(next(iter(pp)), 4)[:50]} are used with the samples of "
                      f"step {show(next(iter(where)), 4)[:50]}", e.loc)
            else:
                c.unknown(R_STEP, f"{cons}:{nm}", "several positions")
    if not n:
        c.unknown(R_STEP, name, "no update of an embedding found")
    asked(c, name, r, want)


def asked(c, name, r, want):
    res = r.results.get("attribute")
    if res is None:
        c.unknown(R_STEP, name + ":attribute", "no normal return")
        return
    loc = r.cls.find(r.repo, "attribute").loc()
    hits = [x for x in r.i.expand(res) if x.op == "sub" and want in list(r.i.expand(x.args[1]))] + \
           [x for x in r.i.expand(res) if x.op == "call" and x.args[0].op in ("attr", "ext")
            and str(x.args[0].args[-1]).rsplit(".", 1)[-1] == "index_select"
            and any(want in list(r.i.expand(a)) for a in x.args[1])]
    if not hits:
        c.bad(R_STEP, name + ":attribute", "the requested train_data_indices do not select rows of the result", loc)
        return
    for x in hits:
        idx = x.args[1] if x.op == "sub" else [a for a in x.args[1] if want in list(r.i.expand(a))][0]
        if idx.op == "tuple":
            idx = idx.args[0]
        if bare(idx) is want:
            c.ok(R_STEP, name + ":attribute")
        elif idx.op == "call" or bare(idx).op == "call":
            c.bad(R_STEP, name + ":attribute", f"the returned rows are those of {show(idx, 5)[:90]}, not the requested "
                                               "indices in their order", loc)
        else:
            below = set(r.i.expand(idx))
            moved = [e for e in r.events("attribute", "call") if isinstance(e.callee, str)
                     and e.callee.rsplit(".", 1)[-1] in REORDER and e.result is not None and
                     (e.result in below or e.recv is not None and e.recv in below)
                     and any(hasattr(a, "op") and want in set(r.i.expand(a)) for a in tuple(e.args) + (e.recv,))]
            if moved:
                c.bad(R_STEP, name + ":attribute", f"the requested indices pass through {moved[0].callee}(), so the rows "
                      "are not returned in the requested order", moved[0].loc)
            else:
                c.unknown(R_STEP, name + ":attribute", show(idx, 5)[:80])
