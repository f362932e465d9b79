"""C21: flattened parameters round-trip in one fixed order."""
from __future__ import annotations

import ast

from ..drive import attributor, functions
from ..scen import blocks, table
from ..terms import T, alts, const, mk, show, sym
from .c09 import public_functions
from .c11 import lin
from .c22 import subterms

R_ADJ = "adjacent-ranges"
R_SIZE = "range-has-the-size-of-its-piece"
R_ORDER = "one-order"
R_ROUTE = "vector-unflattened-where-it-was-given"
R_TRAIN = "trainable-parameters-only"
R_CHUNK = "chunks-sized-as-sliced"

U = "dattri.func.utils."
TASK = "dattri.task.AttributionTask"
CHUNKED = "dattri.func.projection.ChunkedCudaProjector"
MAKE = "dattri.func.projection.make_random_projector"
REORDER = ("sorted", "reversed", "set", "frozenset")


def run(c):
    c.rule(R_ADJ, "pieces of a vector lie next to each other: each starts at 0 plus the sizes of the pieces before it")
    c.rule(R_SIZE, "the range of a piece has the size of the parameter it holds")
    c.rule(R_ORDER, "flattening and unflattening go through the parameters in the same order and keep names with values")
    c.rule(R_ROUTE, "the argument that is unflattened is the one the vector is passed as, all others are passed on unchanged")
    c.rule(R_TRAIN, "every enumeration of a model's named parameters is restricted to the trainable ones")
    c.rule(R_CHUNK, "chunked projection cuts the vector into the ranges its projectors were made for")
    seen = set()
    with c.guard("utils"):
        pairs(c, seen)
    with c.guard("flatten_func"):
        wrapper(c, seen)
    with c.guard("partial_param"):
        partial(c, seen)
    with c.guard("projection"):
        chunks(c, seen)
    with c.guard("task"):
        task(c, seen)
    with c.guard("functions"):
        r = functions(c.repo)
        for f in public_functions(c.repo):
            if f.qual.startswith("dattri.func."):
                r.fcall(f.qual, f.qual)
                ranges(c, r, f.qual, f.qual.split("dattri.")[1], seen)
        c.functions |= r.i.inlined
    for s in table() + blocks():
        with c.guard(s.name):
            r = s.build(c.repo)
            for k in r.ranges:
                ranges(c, r, k, s.name, seen)
            c.functions |= r.i.inlined
            c.scenarios.append(s.name)
    trainable(c)


# ---------------------------------------------------------------- running sums

def running(i, t, depth=0):
    """(starts, steps, unknown) of a running sum, with values it is reset to among the starts."""
    if t.op in ("ind", "psum"):
        return [t.args[0]], [t.args[1]], False
    if t.op == "lv" and t in i.lvinfo and depth < 4:
        v0, v1 = i.lvinfo[t]
        starts, steps, unk = [], [], False
        for x in alts(v0) if isinstance(v0, T) else ():
            if x.op == "lv" and x in i.lvinfo and x is not t:
                s, p, u = running(i, x, depth + 1) or ([], [], True)
                starts += s
                steps += [q for q in p if q not in steps]
                unk |= u
            else:
                starts.append(x)
        for x in alts(v1) if isinstance(v1, T) else ():
            if x is t:
                continue
            if x.op == "const":
                starts.append(x)
            elif x.op == "bin" and x.args[0] == "+" and t in x.args[1:]:
                s = x.args[2] if x.args[1] is t else x.args[1]
                if s not in steps:
                    steps.append(s)
            elif x.op in ("loopout", "lv", "mix"):
                unk = True
            else:
                d = lin(x)
                if d.pop(t, 0) == 1:
                    steps.append(d)
                else:
                    return None
        return starts, steps, unk
    return None


def slices(ix):
    for x in ([ix] if ix.op == "slice" else ix.args if ix.op == "tuple" else ()):
        if isinstance(x, T) and x.op == "slice":
            yield x


def ranges(c, r, key, scope, seen):
    i = r.i
    for e in r.events(key):
        if e.kind not in ("subload", "substore") or not isinstance(e.d.get("index"), T):
            continue
        for x in slices(e.index):
            a, b = x.args[0], x.args[1]
            if not isinstance(a, T) or not isinstance(b, T):
                continue
            got = running(i, a)
            if got is None:
                last = [y.args[0] for y in alts(a) if y.op == "prev"]
                if len(last) == 1 and any(y is const(0) for y in alts(a)) and (e.loc, "done") not in seen:
                    if last[0] is b or lin(last[0]) == lin(b):
                        seen.add((e.loc, "done"))
                        c.ok(R_ADJ, f"{e.fn}:{e.loc.rsplit(':', 1)[1]}")
                    else:
                        c.bad(R_ADJ, f"{e.fn}:step", f"{scope}: a piece ends at {show(b)[:50]} but the next one starts at {show(last[0])[:50]}", e.loc)
                continue
            where = f"{e.fn}:{e.loc.rsplit(':', 1)[1]}"
            starts, steps, unk = got
            size = lin(b)
            for k, v in lin(a).items():
                size[k] = size.get(k, 0) - v
            size = {k: v for k, v in size.items() if v}
            if (e.loc, "done") in seen:
                continue
            bases = {y.args[0] for s in steps for y in (s if isinstance(s, dict) else lin(s)) if isinstance(y, T) and y.op == "sub"}
            bad = [s for s in starts for y in alts(s) if y.op == "const" and y.args[0] != 0 or y.op == "sub" and y.args[0] in bases]
            if bad:
                c.bad(R_ADJ, f"{e.fn}:start", f"{scope}: the first piece starts at {show(bad[0])}", e.loc)
                continue
            diff = [s for s in steps if (s if isinstance(s, dict) else lin(s)) != size]
            if diff and not unk:
                shown = show(diff[0]) if isinstance(diff[0], T) else "something else"
                c.bad(R_ADJ, f"{e.fn}:step", f"{scope}: a piece is {show(b)[:50]} minus {show(a)[:50]} long but the next one starts {shown[:60]} later", e.loc)
                continue
            if not steps:
                c.unknown(R_ADJ, f"{scope}:{where}", "step not recognised")
                continue
            seen.add((e.loc, "done"))
            c.ok(R_ADJ, f"{where}")
            piece(c, r, e, steps, scope)


def piece(c, r, e, steps, scope):
    """The step is the size of the very parameter that is stored or of the shape the piece gets."""
    i = r.i
    S = set()
    for s in steps:
        for x in (s if isinstance(s, dict) else lin(s)):
            if isinstance(x, T):
                S |= set(subterms(x))
    if e.kind == "substore":
        V = set(subterms(e.value))
        items = {x for x in V if x.op in ("elem", "pick", "key", "val")}
        own = {x for x in S if x.op in ("elem", "pick", "key", "val")}
        if items and own:
            if items & own:
                c.ok(R_SIZE, f"{e.fn}:{e.loc}")
            else:
                c.bad(R_SIZE, f"{e.fn}:piece", f"{scope}: what is put into a range has nothing to do with what the range is sized by", e.loc)
        return
    got = mk("sub", e.base, e.index)
    for x in r.i.events:
        if x.kind == "call" and x.seq > e.seq and str(x.callee) in (".reshape", ".view") and x.recv is got and got is not None:
            bad = [a for a in x.args if a.op in ("elem", "pick", "sub", "attr") and not (
                a in S or a.op == "attr" and a.args[0] in S or any(y.op == "attr" and y.args[0] is a for y in S))]
            if bad and len(x.args) == 1:
                c.bad(R_SIZE, f"{e.fn}:shape", f"{scope}: a range sized by another parameter gets the shape {show(bad[0])[:60]}", x.loc)
            elif x.args:
                c.ok(R_SIZE, f"{e.fn}:{x.loc}")


# ---------------------------------------------------------------- order

def reorderings(i, t, seen=None):
    """(root container, reordering calls on the way) of an iterable."""
    seen = seen if seen is not None else set()
    out = []
    while isinstance(t, T) and t not in seen:
        seen.add(t)
        if t.op == "dictview":
            t = t.args[-1]
            continue
        if t.op == "call" and t.args[0].op == "ext":
            n = str(t.args[0].args[0]).rsplit(".", 1)[-1]
            if n in REORDER:
                out.append(n)
            if n in REORDER + ("list", "tuple", "iter", "enumerate", "keys", "values", "items", "tqdm") and t.args[1]:
                t = t.args[1][0]
                continue
            return t, tuple(out)
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("keys", "values", "items"):
            t = t.args[0].args[0]
            continue
        if t.op == "obj":
            o = i.objs[t.args[0]]
            if o.get("sorted"):
                out.append("sorted")
            if isinstance(o.get("from"), T):
                t = o["from"]
                continue
            if o["kind"] in ("list", "tuple", "gen"):
                its = {i.loopinfo[l]["iter"] for l in o.get("loops", ()) if l in i.loopinfo} or {
                    y.args[0] for how, v in i.contents.get(t.args[0], ()) for y in subterms(v) if y.op == "elem"}
                if len(its) == 1:
                    t = next(iter(its))
                    continue
            return t, tuple(out)
        return t, tuple(out)
    return t, tuple(out)


def calls_reorder(r, key):
    return [e for e in r.events(key) if e.kind == "call" and str(e.callee).rsplit(".", 1)[-1] in REORDER
            and str(e.callee).startswith("builtins.") or e.kind == "call" and str(e.callee) in (".sort", ".reverse")]


def pairs(c, seen):
    """The functions that flatten and unflatten."""
    repo = c.repo
    order = {}
    for name, params in (("_vectorize", dict(batch_dim=const(True), arr=const(None), g=sym("params"))),
                         ("flatten_params", dict(tensors=sym("params"))),
                         ("_unflatten_params", {}), ("_unflatten_params_layerwise", {})):
        if repo.func(U + name) is None:
            c.unknown(R_ORDER, name, "function not found")
            continue
        r = functions(repo)
        r.fcall(U + name, "f", **params)
        i = r.i
        n = len(i.events)
        node = next((e.node for e in r.events("f") if e.kind == "call"), None)
        for u in list(i.generators):
            if node is not None:
                g = next((t for t in gens(r, u)), None)
                if g is not None:
                    i.drain(g, node, "list")
        r.ranges["g"] = (n, len(i.events))
        for k in ("f", "g"):
            ranges(c, r, k, name, seen)
        order[name] = sorted({str(e.callee).rsplit(".", 1)[-1] for k in ("f", "g") for e in calls_reorder(r, k)})
        c.functions |= i.inlined
        if name.startswith("_unflatten"):
            named(c, r, name)
    flat = order.get("flatten_params")
    for n in ("_unflatten_params", "_unflatten_params_layerwise"):
        if flat is None or n not in order:
            continue
        f = repo.func(U + n)
        if order[n] != flat:
            c.bad(R_ORDER, n, f"{n} goes through the parameters {'reordered by ' + ', '.join(order[n]) if order[n] else 'in their own order'}, flatten_params {'reordered by ' + ', '.join(flat) if flat else 'in their own order'}", f.loc())
        else:
            c.ok(R_ORDER, n)


def gens(r, u):
    for e in r.i.events:
        v = e.d.get("result")
        if isinstance(v, T) and v.op == "obj" and v.args[0] == u:
            yield v


def named(c, r, name):
    """Names go with the values cut out for them."""
    i = r.i
    out = r.results["f"]
    for o in alts(out) if isinstance(out, T) else ():
        if o.op != "obj":
            continue
        z = i.objs[o.args[0]].get("zip")
        if isinstance(z, T) and z.op == "call" and len(z.args[1]) == 2:
            a, b = z.args[1]
            ra, rb = reorderings(i, a), reorderings(i, b)
            if b.op == "obj" and b.args[0] in i.generators:
                fv = i.generators[b.args[0]][1]
                its = [e.iterable for k in ("f", "g") for e in r.events(k) if e.kind == "iter" and e.fn.endswith(fv.node.name)]
                if len(its) == 1:
                    rb = reorderings(i, its[0])
            if ra[0] is rb[0] and ra[1] == rb[1]:
                c.ok(R_ORDER, f"{name}:names")
            elif ra[1] != rb[1]:
                c.bad(R_ORDER, f"{name}:names", f"{name} pairs names and values that were put in different orders", (r.events("f") or [None])[0].loc)
            else:
                c.unknown(R_ORDER, f"{name}:names", "the order of names and values was not recognised")
        for e in r.events("f"):
            if e.kind == "substore" and o in alts(e.base):
                pos = [x.args[-1] for x in subterms(e.index) if x.op == "pick"]
                take = [x.args[1] for x in subterms(e.value) if x.op == "sub" and x.args[0].op == "sym"]
                if pos and take:
                    if any(p is t for p in pos for t in take):
                        c.ok(R_ORDER, f"{name}:{e.loc}")
                    else:
                        c.bad(R_ORDER, f"{name}:names", f"{name} stores piece {show(take[0])} under the name of parameter {show(pos[0])}", e.loc)


# ---------------------------------------------------------------- wrappers

def wrapper(c, seen):
    q = U + "flatten_func"
    for n in (0, 1):
        for layered in (True, False):
            r = functions(c.repo, opaque=(U + "_unflatten_params", U + "_unflatten_params_layerwise"),
                          truth=lambda t, layered=layered: layered if t.op == "isinstance" else None)
            r.fcall(q, "w", model=sym("model"), param_num=const(n))
            f = r.apply(r.results["w"], sym("fn"), key="w1")
            if f is None:
                c.unknown(R_ROUTE, q, "no wrapper returned")
                return
            args = (sym("arg0"), sym("arg1"))
            r.apply(f, *args, key="w2", extra=sym("extra"))
            routed(c, r, "flatten_func", n, args, (U + "_unflatten_params_layerwise",) if layered else (U + "_unflatten_params",), "w2")
            c.functions |= r.i.inlined


def routed(c, r, name, n, args, wants, key):
    calls = [e for e in r.events(key) if e.kind == "call" and (e.d.get("func") is sym("fn") or str(e.callee) in ("<value>", "fn"))
             and (e.d.get("func") is None or e.func is sym("fn"))]
    if not calls:
        c.unknown(R_ROUTE, name, "the wrapped call was not recognised")
        return
    for e in calls:
        got = positional(r, e)
        if got is None or len(got) != len(args):
            c.unknown(R_ROUTE, name, "arguments of the wrapped call not recognised")
            continue
        for k, v in enumerate(got):
            for x in alts(v):
                if k == n:
                    good = x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in wants and reaches(r, x, args[k])
                    if name == "flatten_func" and good:
                        good = not any(y in subterms(x) for j, y in enumerate(args) if j != n)
                    if good:
                        c.ok(R_ROUTE, f"{name}:{n}:{wants[0].rsplit('.', 1)[-1]}")
                    else:
                        c.bad(R_ROUTE, f"{name}:{'tuple' if 'layerwise' in wants[0] else 'vector'}", f"{name}: argument {k} becomes {show(x)[:80]}", e.loc)
                elif x is not args[k]:
                    c.bad(R_ROUTE, f"{name}:other", f"{name}: argument {k}, which is not the parameters, becomes {show(x)[:80]}", e.loc)
                else:
                    c.ok(R_ROUTE, f"{name}:{n}:other")


def reaches(r, x, a):
    todo, done = list(x.args[1]) + [v for _, v in x.args[2] or ()], set()
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in done:
            continue
        done.add(t)
        if t is a or a in subterms(t):
            return True
        for y in subterms(t):
            if y.op == "obj":
                todo += [v for _, v in r.i.contents.get(y.args[0], ())]
                todo += [v for v in r.i.S.heap.get(y.args[0], {}).values() if isinstance(v, T)]
            elif y.op == "obj" or y in r.i.lvinfo:
                todo += [v for v in r.i.lvinfo[y] if isinstance(v, T)]
    return False


def positional(r, e):
    """Positional arguments with a known list spread out."""
    out = []
    for a in e.args:
        if a.op != "star":
            out.append(a)
            continue
        o = a.args[0]
        if o.op == "tuple":
            out += list(o.args)
            continue
        if o.op != "obj":
            return None
        it = r.i.exact_items(o)
        if it is None:
            return None
        out += list(it)
    return out


def partial(c, seen):
    q = U + "partial_param"
    for n in (0, 1):
        r = functions(c.repo, opaque=(U + "flatten_params",), truth=lambda t: False if t.op == "isinstance" else None)
        r.fcall(q, "w", full_param=sym("full"), layer_name=sym("layers"), param_num=const(n))
        f = r.apply(r.results["w"], sym("fn"), key="w1")
        if f is None:
            c.unknown(R_ROUTE, q, "no wrapper returned")
            return
        args = (sym("arg0"), sym("arg1"))
        r.apply(f, *args, key="w2")
        ranges(c, r, "w2", "partial_param", seen)
        routed(c, r, "partial_param", n, args, (U + "flatten_params",), "w2")
        # the vector is cut in the order asked for; a piece goes to the layer it is sized by
        for e in r.events("w2"):
            if e.kind != "substore":
                continue
            cut = [x for x in subterms(e.value) if x.op == "sub" and x.args[1].op == "slice" and x.args[0] in args]
            for x in cut:
                if x.args[0] is not args[n]:
                    c.bad(R_ROUTE, "partial_param:cut", f"partial_param cuts argument {args.index(x.args[0])} instead of {n}", e.loc)
                got = running(r.i, x.args[1].args[0]) if isinstance(x.args[1].args[0], T) else None
                S = set()
                for s in (got or ([], [], 0))[1]:
                    for y in (s if isinstance(s, dict) else lin(s)):
                        if isinstance(y, T):
                            S |= set(subterms(y))
                if got and e.index in S:
                    c.ok(R_SIZE, f"partial_param:{n}")
                elif got:
                    c.bad(R_SIZE, "partial_param:layer", f"partial_param puts a piece under {show(e.index)[:40]} that was sized by something else", e.loc)
        re = calls_reorder(r, "w2") + calls_reorder(r, "w") + calls_reorder(r, "w1")
        if re:
            c.bad(R_ORDER, "partial_param", f"partial_param goes through the layers reordered by {re[0].callee}, the task flattens them as asked for", re[0].loc)
        else:
            c.ok(R_ORDER, f"partial_param:{n}")
        # the merged dictionary keeps the order of the full one
        for e in r.events("w2"):
            if e.kind == "delitem" or e.kind == "call" and str(e.callee) in (".pop", ".popitem", ".move_to_end"):
                c.bad(R_ORDER, "partial_param:merged", "partial_param takes a parameter out and puts it back at the end", e.loc)
        c.functions |= r.i.inlined


def task(c, seen):
    """The vector of some layers holds them in the order asked for, as partial_param takes it apart."""
    def truth(t):
        if t.op == "isinstance":
            return False
        return None
    r = attributor(c.repo, TASK, init=dict(checkpoints=sym("checkpoints")), opaque=(U + "flatten_params", TASK + "._load_checkpoints"), truth=truth)
    for split in (False, True):
        key = f"get_param:{split}"
        r.call("get_param", key=key, sep=True, layer_name=sym("layers"), layer_split=const(split), param_layer_map=const(None))
        ranges(c, r, key, "get_param", seen)
        its = []
        for e in r.events(key):
            if e.kind == "iter" and e.fn.endswith("get_param") and isinstance(e.d.get("iterable"), T):
                its.append((e, reorderings(r.i, e.iterable)))
        asked = [x for x in its if x[1][0] is sym("layers")]
        re = calls_reorder(r, key)
        if re:
            c.bad(R_ORDER, f"get_param:{split}", f"get_param goes through the layers reordered by {re[0].callee}, partial_param takes them apart as asked for", re[0].loc)
        elif asked:
            c.ok(R_ORDER, f"get_param:{split}")
        elif its:
            e = its[0][0]
            c.bad(R_ORDER, f"get_param:{split}", "get_param flattens the layers in the model's order, partial_param takes them apart in the order asked for", e.loc)
        else:
            c.unknown(R_ORDER, f"get_param:{split}", "the order of the layers was not recognised")
    c.functions |= r.i.inlined


# ---------------------------------------------------------------- projection

def chunks(c, seen):
    repo = c.repo
    init = dict(projector_per_chunk=sym("projectors"), max_chunk_size=sym("max_size"), dim_per_chunk=sym("dims"))
    r = attributor(repo, CHUNKED, init=init)
    for m in ("project", "dict_project"):
        if m not in r.cls.methods if hasattr(r, "cls") else False:
            continue
        r.call(m, key=m, sep=True)
        ranges(c, r, m, f"ChunkedCudaProjector.{m}", seen)
        evs = r.events(m)
        for e in evs:
            if e.kind != "call" or str(e.callee).rsplit(".", 1)[-1] != "project" or e.recv is None:
                continue
            for p in alts(e.recv):
                k = which(p, sym("projectors"))
                if k is None:
                    continue
                used = [s for a in e.args for x in subterms(a) if x.op == "sub" for s in list(slices(x.args[1]))[-1:]
                        if x.args[1].op == "tuple"]
                wid = None
                for s in used:
                    a, b = s.args[0], s.args[1]
                    if not isinstance(b, T):
                        continue
                    d = lin(b)
                    for y, v in (lin(a) if isinstance(a, T) else {}).items():
                        d[y] = d.get(y, 0) - v
                    d = {y: v for y, v in d.items() if v}
                    if len(d) == 1:
                        wid = next(iter(d))
                    elif not isinstance(a, T) or a is const(None) or a is const(0):
                        wid = b
                if not isinstance(wid, T):
                    continue
                own = width(wid, sym("dims"), e)
                against = [t for t, v in e.pc if t.op == "cmp" and wid in t.args[1:]]
                if own is None and against and not any(
                        sym("dims") in subterms(y) for t in against for y in t.args[1:] if isinstance(y, T) and y is not wid):
                    c.bad(R_CHUNK, f"ChunkedCudaProjector.{m}", f"a chunk is projected when {show(against[0], 5)[:70]} holds, "
                          "whatever the size its projector was made for", e.loc)
                elif own is None:
                    c.unknown(R_CHUNK, f"{m}:{e.loc}", "the width of what is projected was not recognised")
                elif any(o is k or lids(o) & lids(k) for o in own):
                    c.ok(R_CHUNK, f"ChunkedCudaProjector.{m}:{e.loc}")
                else:
                    c.bad(R_CHUNK, f"ChunkedCudaProjector.{m}", f"the projector of chunk {show(k)[:40]} gets a piece as wide as chunk {show(own[0])[:40]}", e.loc)
    c.functions |= r.i.inlined
    # made for the sizes that are used to slice
    r = functions(repo, opaque=(CHUNKED, U + "get_parameter_chunk_sizes", "dattri.func.projection.CudaProjector", "dattri.func.projection.BasicProjector"))
    r.fcall(MAKE, "m", device=sym("device"))
    i = r.i
    for e in r.events("m"):
        if e.kind != "call" or str(e.callee) not in (CHUNKED, CHUNKED + ".__init__"):
            continue
        b = dict(e.bound or {})
        names = repo.cls(CHUNKED).find(repo, "__init__").params[1:]
        b.update({k: v for k, v in zip(names, e.args)})
        b.update(dict(e.kwargs or ()))
        P, D = b.get("projector_per_chunk"), b.get("dim_per_chunk")
        if P is None or D is None:
            continue
        feats = [v for x in r.events("m") if x.kind in ("call", "new") for k, v in (x.kwargs or ()) if k == "feature_dim" and x.loops and x.seq < e.seq]
        if not feats:
            c.unknown(R_CHUNK, "make_random_projector", "the sizes the projectors are made for were not recognised")
        for v in feats:
            if any(D in subterms(x) for x in alts(v)):
                c.ok(R_CHUNK, "make_random_projector:sizes")
            else:
                c.bad(R_CHUNK, "make_random_projector:sizes", f"projectors are made for {show(v)[:60]} but the vector is cut into {show(D)[:60]}", e.loc)
    c.functions |= i.inlined


def which(p, base):
    """Index with which an element of base was taken."""
    for x in subterms(p):
        if x.op == "sub" and x.args[0] is base:
            return x.args[1]
        if x.op == "pick" and x.args[1] is base:
            return x.args[2]
        if x.op == "elem" and base in subterms(x.args[0]):
            return x
    return None


def lids(x):
    return {x.args[-1]} if x.op in ("elem", "idx", "ind") else set()


def width(w, base, e):
    """Indices of the sizes w is known to be equal to."""
    k = which(w, base) if w.op in ("sub", "pick", "elem") else None
    if k is not None:
        return [k] + ([y for y in subterms(k)] if k.op == "elem" else [])
    out = []
    for t, v in e.pc:
        if t.op == "cmp" and (t.args[0] == "==" and v or t.args[0] == "!=" and not v) and w in t.args[1:]:
            o = t.args[2] if t.args[1] is w else t.args[1]
            k = which(o, base)
            if k is not None:
                out.append(k)
    return out or None


# ---------------------------------------------------------------- trainable

def trainable(c):
    """Enumerations of named_parameters()."""
    for f in c.repo.all_functions():
        if ".benchmark." in f.qual or ".script." in f.qual:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and n is not f.node:
                pass
            its = []
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    if enumerates(g.iter):
                        its.append((g.iter, [polarity(t) for t in g.ifs]))
            elif isinstance(n, ast.For) and enumerates(n.iter):
                tests = []
                for s in n.body:
                    if isinstance(s, ast.If):
                        p = polarity(s.test)
                        if p is not None:
                            skip = any(isinstance(x, ast.Continue) for x in s.body)
                            tests.append(not p if skip else p)
                its.append((n.iter, tests))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("dict", "list", "tuple", "OrderedDict") and n.args and enumerates(n.args[0]) \
                    and not filtered(n.args[0]):
                its.append((n.args[0], []))
            for it, tests in its:
                where = f"{f.module.name.replace('.', '/')}.py:{it.lineno}"
                if filtered(it) or True in tests:
                    c.ok(R_TRAIN, f"{f.qual}:{it.lineno}")
                elif harmless(f, n):
                    c.ok(R_TRAIN, f"{f.qual}:{it.lineno}")
                else:
                    c.bad(R_TRAIN, f.qual, f"{f.qual.split('dattri.')[-1]} enumerates {'the frozen' if False in tests else 'all'} parameters of the model, the task's functions only take the trainable ones", where)


def enumerates(n):
    if filtered(n):
        return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("enumerate", "list", "tuple", "sorted", "reversed", "iter") and n.args:
        return enumerates(n.args[0])
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "named_parameters"


def filtered(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "filter" and len(n.args) == 2 and enumerates(n.args[1]) \
        and polarity(n.args[0].body if isinstance(n.args[0], ast.Lambda) else n.args[0]) is not False


def polarity(t):
    """True if the test asks for trainable parameters, False for frozen ones, None if for neither."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        p = polarity(t.operand)
        return None if p is None else not p
    if isinstance(t, ast.BoolOp):
        ps = [polarity(v) for v in t.values]
        return next((p for p in ps if p is not None), None)
    if isinstance(t, ast.Attribute) and t.attr == "requires_grad":
        return True
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Attribute) and t.left.attr == "requires_grad" \
            and isinstance(t.comparators[0], ast.Constant):
        return bool(t.comparators[0].value) == isinstance(t.ops[0], (ast.Is, ast.Eq))
    return None


def harmless(f, n):
    """Only names, devices or types are looked at."""
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
        e = n.elt
        return isinstance(e, ast.Attribute) and e.attr in ("device", "dtype", "requires_grad")
    return False
