"""C22: train and test gradients of a layer share one compressor; layers stay aligned."""
from __future__ import annotations

import ast

from ..drive import attributor, functions
from ..scen import BLOCK_PKG, blocks
from ..terms import NONE, TRUE, T, alts, show, sym

R_ONE = "one-set-of-compressors"
R_KEPT = "compressors-replaced-only-when-missing"
R_LISTS = "hooks-and-compressors-for-the-same-layers"
R_POS = "layer-index-is-its-position"
R_HOOK = "hook-uses-one-index"
R_BUILD = "compressor-built-from-its-layer"
R_ENTRY = "one-entry-per-layer"
R_ALIGN = "layer-k-only-with-layer-k"
R_LATE = "no-late-bound-layer"

HM = BLOCK_PKG + "core.hook.HookManager"
FN = BLOCK_PKG + "core.hook.CompressedLinearBackward"
SETUP = BLOCK_PKG + "core.compressor.setup_model_compressors"
LAYERS = sym("layers")


def run(c):
    c.rule(R_ONE, "the hooks that record train gradients and those that record test gradients get the same stored compressors")
    c.rule(R_KEPT, "compressors are created only where there are none or before the train gradients they belong to are computed")
    c.rule(R_LISTS, "hooks and compressors are set up for the same model and the same list of layers")
    c.rule(R_POS, "the index of a layer's hook and compressor is its position in the list of layers")
    c.rule(R_HOOK, "the backward pass stores under the layer's index what it computed with that layer's input and compressor")
    c.rule(R_BUILD, "a layer's compressor is sized and seeded by that layer")
    c.rule(R_ENTRY, "a list with one entry per layer gets exactly one entry on every path")
    c.rule(R_ALIGN, "values of a layer are combined only with values of the same layer")
    c.rule(R_LATE, "functions made in a loop and kept do not read the loop variable later")
    with c.guard("HookManager"):
        hook(c)
    with c.guard("CompressedLinearBackward"):
        backward(c)
    with c.guard("setup_model_compressors"):
        setup(c)
    with c.guard("late binding"):
        late(c)
    for s in blocks():
        with c.guard(s.name):
            block(c, s)


def last(e):
    return str(e.callee).rsplit(".", 1)[-1]


def elem_of(i, lid):
    return i.loopinfo[lid]["iter"] if lid in i.loopinfo else None


def name_of(m):
    """Terms for the name of a module."""
    out = []
    if m.op == "sub" and m.args[1].op == "const" and m.args[1].args[0] == 1:
        for x in (m.args[0],):
            out.append(("pair", x))
    if m.op == "call" and m.args[0].op == "attr" and m.args[0].args[1] in ("get_submodule",) and m.args[1]:
        out.append(("name", m.args[1][0]))
    if m.op == "sub":
        out.append(("name", m.args[1]))
    return out


def same_name(m, t):
    if m.op == "val" and t.op == "key" and m.args[0] is t.args[0]:
        return True
    for kind, x in name_of(m):
        if kind == "name" and x is t:
            return True
        if kind == "pair" and t.op == "sub" and t.args[0] is x and t.args[1].op == "const" and t.args[1].args[0] == 0:
            return True
    return False


def position(i, evs, idx, m):
    """True if idx is the position of module m's name in the list of layers, False if not, None if unknown."""
    ok = []
    for x in alts(idx):
        if x.op == "idx":
            it = elem_of(i, x.args[0])
            if it is None:
                return None
            if not over_layers(it):
                return False
            hit = False
            for e in evs:
                key = e.index if e.kind == "subload" else e.args[0] if e.kind == "call" and last(e) == "get" and e.recv is not None and e.args else None
                base = e.d.get("base") if e.kind == "subload" else e.recv if e.kind == "call" else None
                if key is None or base is None:
                    continue
                for b in alts(base):
                    if b.op == "obj" and any(v is x for _, v in i.contents.get(b.args[0], ())):
                        if same_name(m, key):
                            hit = True
                        elif key.op == "idx":
                            return False
            if not hit:
                hit = any(k == "name" and elem_lid(n) == x.args[0] for k, n in name_of(m))
            ok.append(hit or None)
        elif x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "index" and x.args[1]:
            ok.append(over_layers(x.args[0].args[0]) and same_name(m, x.args[1][0]))
        elif x.op == "sub" or x.op == "pick":
            n = x.args[-1]
            ok.append(True if same_name(m, n) else None)
        elif any(y.op in ("idx", "ind", "lv") and not over_layers_lid(i, y) for y in subterms(x)):
            return False
        else:
            ok.append(None)
    return False if any(v is False for v in ok) else True if ok and all(ok) else None


def over_layers_lid(i, y):
    lid = y.args[0] if y.args[0] in i.loopinfo else None
    return lid is None or over_layers(elem_of(i, lid))


def elem_lid(t):
    return t.args[1] if t.op == "elem" and len(t.args) > 1 else None


def over_layers(it):
    for x in alts(it):
        if x is LAYERS or x.op == "attr" and x.args[1] == "layer_names":
            return True
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("builtins.enumerate", "builtins.list", "builtins.tuple") and x.args[1] and over_layers(x.args[1][0]):
            return True
    return False


def verdict(c, rule, cons, v, msg, loc):
    if v is True:
        c.ok(rule, cons)
    elif v is False:
        c.bad(rule, cons, msg, loc)
    else:
        c.unknown(rule, cons, "not recognised")


def hook(c):
    r = attributor(c.repo, HM, init=dict(model=sym("model"), layer_names=LAYERS, device=sym("device"), register_hooks=TRUE))
    i = r.i
    evs = list(r.events("__init__"))
    if not any(e.kind == "setattr" and e.attr == "forward" for e in evs):
        for n in ("register_hooks", "_register_hooks"):
            if r.ci.find(c.repo, n) if hasattr(r, "ci") else False:
                r.call(n, key=n)
                evs += r.events(n)
    sets = [e for e in evs if e.kind == "setattr" and e.attr == "forward"]
    for e in sets:
        for m in alts(e.base):
            s = len(i.events)
            i.call_term(e.value, (sym("module_input"),), (), e.node)
            new = i.events[s:]
            ap = [x for x in new if x.kind == "call" and last(x) == "apply" and x.args]
            if not ap:
                c.unknown(R_POS, "HookManager", "the autograd function's call was not recognised")
            params = [p for p in c.repo.func(FN + ".forward").params if p != "ctx"][-len(ap[0].args):] if ap else []
            for x in ap:
                b = dict(zip(params, x.args))
                for p, a in b.items():
                    if p in ("weight", "bias"):
                        good = any(y.op == "attr" and y.args[1] == p and y.args[0] is m for y in alts(a))
                        verdict(c, R_POS, f"HookManager:{p}", good, f"the wrapped layer computes with {show(a)} instead of its own {p}", x.loc)
                    elif "idx" in p or "index" in p:
                        verdict(c, R_POS, "HookManager:index", position(i, evs + new, a, m),
                                f"the hook of a layer stores its gradient under {show(a)}, not under the layer's position in the list of layers", x.loc)
    if not sets:
        c.unknown(R_POS, "HookManager", "no replaced forward method was recognised")
    c.functions |= i.inlined


def backward(c):
    f = functions(c.repo)
    fw, bw = c.repo.func(FN + ".forward"), c.repo.func(FN + ".backward")
    f.fcall(fw.qual, "fw")
    f.fcall(bw.qual, "bw")
    ctx = sym("ctx")
    saved = {e.attr: e.value for e in f.events("fw") if e.kind == "setattr" and isinstance(e.attr, str)}
    idxp = {k for k, v in saved.items() if v.op == "sym" and ("idx" in str(v.args[0]) or "index" in str(v.args[0]))}
    for key in ("fw", "bw"):
        for e in f.events(key):
            if e.kind not in ("substore", "subload"):
                continue
            for b in alts(e.base):
                if not (b.op == "attr" and b.args[1] in ("inputs", "compressed_grads", "compressors")):
                    continue
                x = e.index
                good = x.op == "attr" and x.args[1] in idxp if key == "bw" else x in [saved[k] for k in idxp] or x.op == "attr" and x.args[1] in idxp
                verdict(c, R_HOOK, f"{key}:{b.args[1]}:{e.kind}", good, f"{b.args[1]} is indexed by {show(x)} instead of the layer's index", e.loc)
    # the stored gradient is computed from this layer's input
    st = [e for e in f.events("bw") if e.kind == "substore" and any(b.op == "attr" and b.args[1] == "compressed_grads" for b in alts(e.base))]
    for e in st:
        ex = f.i.expand(e.value)
        good = any(y.op == "attr" and y.args[1] == "inputs" for y in ex) and any(y.op == "attr" and y.args[1] == "compressors" for y in ex) and any(
            y.op == "sym" and "grad" in str(y.args[0]) for y in ex)
        verdict(c, R_HOOK, "bw:value", good, "the stored gradient does not use the layer's input, output gradient and compressor", e.loc)
    if not st:
        c.bad(R_HOOK, "bw:store", "the backward pass does not store the compressed gradient", bw.qual)
    c.functions |= f.i.inlined


def setup(c):
    f = functions(c.repo, opaque_mod=("dattri.func.projection",))
    f.fcall(SETUP, "s", model=sym("model"), layer_names=LAYERS)
    i, evs = f.i, f.events("s")
    built = [e for e in evs if e.kind == "substore" and any(x.op == "obj" and i.objs[x.args[0]]["cls"] is not None
             and i.objs[x.args[0]]["cls"].name == "Compressor" for x in alts(e.value))]
    rp = [e for e in evs if e.kind == "call" and last(e) == "random_project"]
    # modules the projections are made for
    mods = set()
    for e in evs:
        if e.kind == "call" and str(e.callee).startswith(BLOCK_PKG) and e.bound and "layer" in e.bound:
            mods |= set(alts(e.bound["layer"]))
    for e in built:
        for m in mods or [None]:
            if m is None:
                c.unknown(R_POS, "setup", "the layer a compressor is made for was not recognised")
                continue
            verdict(c, R_POS, "setup:index", position(i, evs, e.index, m), "a compressor is stored under another index than its layer's", e.loc)
    if not built:
        app = [e for e in evs if e.kind == "call" and last(e) == "append" and e.args and any(
            x.op == "obj" and i.objs[x.args[0]]["cls"] is not None and i.objs[x.args[0]]["cls"].name == "Compressor" for x in alts(e.args[0]))]
        for e in app:
            lids = [l for l in e.loops if l in i.loopinfo]
            it = elem_of(i, lids[-1]) if lids else None
            verdict(c, R_POS, "setup:append", over_layers(it) if it is not None else None, "compressors are listed in the order the model lists its modules, not in the order of the layers", e.loc)
        if not app:
            c.unknown(R_POS, "setup", "no stored compressor was recognised")
    # captured inputs and outputs belong to the layer
    for e in evs:
        if e.kind == "call" and str(e.callee).startswith(BLOCK_PKG) and e.bound and "layer" in e.bound:
            m = e.bound["layer"]
            for p, a in e.bound.items():
                if p == "layer":
                    continue
                for y in alts(a):
                    k = None
                    if y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] == "get" and y.args[1]:
                        k = y.args[1][0]
                    elif y.op in ("sub", "pick") and p in ("layer_input", "pre_activation", "layer_output"):
                        k = y.args[-1]
                    if k is not None and k.op != "const":
                        verdict(c, R_BUILD, f"{last(e)}:{p}", any(same_name(x, k) for x in alts(m)), f"{p} of another layer ({show(k)})", e.loc)
                    elif p in ("layer_input", "pre_activation", "layer_output") and y is not NONE:
                        good = any(same_name(x, z) for x in alts(m) for z in i.expand(y))
                        verdict(c, R_BUILD, f"{last(e)}:{p}", good, f"{p} does not depend on which layer it is for ({show(y)})", e.loc)
    for e in list(evs):
        if e.kind == "call" and last(e) in ("register_forward_hook", "register_forward_pre_hook") and e.args and e.recv is not None:
            n = len(i.events)
            i.call_term(e.args[0], (e.recv, sym("inp"), sym("out")), (), e.node)
            for x in i.events[n:]:
                if x.kind == "substore":
                    good = any(same_name(m, x.index) for m in alts(e.recv))
                    verdict(c, R_BUILD, f"captured:{x.loc}", good, f"what a layer received or returned is stored under {show(x.index)}, not under the layer's name", x.loc)
    # seeds differ by layer
    for e in rp:
        seed = None
        for k, v in list(e.kwargs) + [(None, a) for a in e.args]:
            for y in i.expand(v):
                if y.op == "call" and len(y.args) > 2 and y.args[2]:
                    seed = dict(y.args[2]).get("proj_seed", seed)
        if seed is None:
            continue
        dep = any(y.op == "idx" or y.op == "elem" for y in i.expand(seed))
        verdict(c, R_BUILD, f"{e.fn}:{e.loc}", dep, "every layer gets the same random projection: the seed does not depend on the layer", e.loc)
    c.functions |= i.inlined


def late(c):
    """A function made in a loop that is stored for later reads the loop variable when it is called."""
    for f in c.repo.all_functions():
        if not f.qual.startswith(BLOCK_PKG):
            continue
        for lp in ast.walk(f.node):
            if not isinstance(lp, ast.For):
                continue
            tv = {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)}
            tv |= {x.id for st in lp.body for x in own_nodes(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            named = {}
            for st in lp.body:
                for x in own_nodes(st):
                    if isinstance(x, ast.FunctionDef):
                        named[x.name] = x
                    elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Lambda) and isinstance(x.targets[0], ast.Name):
                        named[x.targets[0].id] = x.value
            kept = []
            for st in lp.body:
                for x in own_nodes(st):
                    vals = []
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (
                            x.func.attr.startswith("register") or x.func.attr in ("append", "submit", "setdefault")):
                        vals = x.args
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                        vals = x.args[2:]
                    elif isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Attribute, ast.Subscript)):
                        vals = [x.value]
                    for v in vals:
                        if isinstance(v, ast.Lambda):
                            kept.append(v)
                        elif isinstance(v, ast.Name) and v.id in named:
                            kept.append(named[v.id])
            for fn in kept:
                ar = fn.args
                own = {y.arg for y in ar.args + ar.kwonlyargs + ar.posonlyargs}
                body = fn.body if isinstance(fn.body, list) else [fn.body]
                names = [y for st in body for y in ast.walk(st) if isinstance(y, ast.Name)]
                own |= {y.id for y in names if isinstance(y.ctx, ast.Store)}
                hit = sorted(({y.id for y in names} - own) & tv)
                if hit:
                    c.bad(R_LATE, f"{f.qual}:{hit[0]}", f"a kept function reads {hit[0]}, which the loop gives a new value: by then it belongs to another layer",
                          f"{f.qual}:{fn.lineno}")
                else:
                    c.ok(R_LATE, f"{f.qual}:{fn.lineno}")


def own_nodes(st):
    """The nodes of a statement without the bodies of functions in it."""
    todo = [st]
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))


# ---------------------------------------------------------------- the attributor

def block(c, s):
    r = s.build(c.repo, extra_init=dict(layer_names=LAYERS), flat=True, loads=True)
    i = r.i
    keys = [k for k in r.ranges if k != "__init__"]
    sets, field = [], set()
    loads = {}
    hm, su = [], []
    for k in keys:
        for e in r.events(k):
            if e.kind == "load":
                loads.setdefault(e.value, []).append((e.seq, e.attr))
            if e.kind == "call" and (last(e) == "set_compressors" and e.args or str(e.callee).startswith(HM) and e.bound and "compressors" in e.bound):
                v = e.args[-1] if last(e) == "set_compressors" else e.bound["compressors"]
                at = [a for q, a in loads.get(v, ()) if q < e.seq]
                sets.append((k, e, v, at[-1] if at else None))
            if e.kind == "setattr" and e.attr == "compressors" and e.base is not r.obj and not any(b is r.obj for b in alts(e.base)):
                at = [a for q, a in loads.get(e.value, ()) if q < e.seq]
                sets.append((k, e, e.value, at[-1] if at else None))
            if e.kind == "call" and e.bound is not None and str(e.callee) in (HM, HM + ".__init__"):
                hm.append((k, e))
            if e.kind == "call" and str(e.callee) == SETUP:
                su.append((k, e))
    names = {a for _, _, _, a in sets}
    for k, e, v, a in sets:
        if a is None:
            c.bad(R_ONE, f"{e.fn}", f"{s.name}: hooks get compressors ({show(v)[:60]}) that are not the ones kept for train and test gradients", e.loc)
        elif len(names - {None}) > 1:
            c.bad(R_ONE, f"{e.fn}", f"{s.name}: hooks for train and test gradients get different compressors ({', '.join(sorted(map(str, names)))})", e.loc)
        else:
            c.ok(R_ONE, f"{s.name}:{e.loc}")
            field.add(a)
    if not sets:
        c.unknown(R_ONE, s.name, "no place that hands compressors to hooks was recognised")
    for k in keys:
        for e in r.events(k):
            if e.kind == "setattr" and e.attr in field and any(b is r.obj for b in alts(e.base)):
                caching = any(f.info is not None and f.info.name == "cache" for f in e.stack) or k.startswith("cache")
                ok = caching or any(none_test(t, v, loads, field, e.seq) for t, v in e.pc)
                if ok:
                    c.ok(R_KEPT, f"{s.name}:{e.loc}")
                else:
                    c.bad(R_KEPT, f"{e.fn}:{e.attr}", f"{s.name}: the compressors of the stored train gradients are replaced", e.loc)
    ref = None
    for what, lst in (("hooks", hm), ("compressors", su)):
        for k, e in lst:
            b = dict(e.bound or {})
            m, l = b.get("model"), b.get("layer_names")
            if m is None and e.args:
                m, l = e.args[0], e.args[1] if len(e.args) > 1 else l
            if m is None or l is None:
                continue
            if ref is None:
                ref = (set(alts(m)), set(alts(l)), what)
            if not (set(alts(m)) & ref[0] and set(alts(l)) & ref[1]):
                c.bad(R_LISTS, f"{e.fn}:{what}", f"{s.name}: {what} are set up for another model or list of layers than {ref[2]}", e.loc)
            else:
                c.ok(R_LISTS, f"{s.name}:{what}:{e.loc}")
    align(c, s, r, keys)
    c.functions |= i.inlined
    c.scenarios.append(s.name)


def none_test(t, v, loads, field, seq):
    """The test says that the field holds nothing."""
    neg = t.op == "not"
    y = t.args[0] if neg else t

    def mine(x):
        return any(a in field and q < seq for q, a in loads.get(x, ()))
    if y.op == "cmp" and y.args[0] in ("is", "is not", "==", "!=") and y.args[2] is NONE:
        return mine(y.args[1]) and (y.args[0] in ("is", "==")) == (v is not neg)
    if y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] == "get":
        return False
    return (v is neg) and mine(y)


def align(c, s, r, keys):
    i = r.i
    layer = {}       # lid -> loop node, for loops over all layers
    for lid, info in i.loopinfo.items():
        it = info["iter"]
        if per_layer(it):
            layer[lid] = info["node"]
    done, dims = set(), set()
    for k in keys:
        for e in r.events(k):
            lids = [l for l in e.loops if l in layer]
            if e.kind == "load" and "dims" in str(e.attr):
                dims.add(e.value)
            if not lids:
                continue
            if e.kind == "subload" and e.index.op == "const" and any(b in dims for b in alts(e.base)) and isinstance(e.index.args[0], int):
                c.bad(R_ALIGN, f"{e.fn}:dims", f"{s.name}: the size of layer {show(e.index)} is used for every layer", e.loc)
            if e.kind == "call" and e.fn.startswith(BLOCK_PKG + "block_projected_if"):
                ix = {}
                for v in (e.recv, *(e.args or ()), *[x for _, x in e.kwargs or ()]):
                    if isinstance(v, T):
                        indices(i, v, layer, ix)
                if last(e) in ("store_preconditioner",) and e.args:
                    a = e.args[0]
                    if any(y.op == "idx" and y.args[0] in layer for y in subterms(a)):
                        ix.setdefault(a, "the number it is stored under")
                    elif all(y.op == "const" or y.op in ("lv", "loopout") and y.args and any(z in layer for z in y.args) for y in alts(a)):
                        ix["BAD"] = f"a layer's preconditioner is stored under {show(a)}, which is not the layer's index"
                bad = [x for x in ix if x == "BAD"]
                if bad:
                    c.bad(R_ALIGN, f"{e.fn}:{last(e)}", f"{s.name}: {ix['BAD']}", e.loc)
                elif len(ix) > 1:
                    c.bad(R_ALIGN, f"{e.fn}:{last(e)}", f"{s.name}: combines values of different layers ({', '.join(show(x) for x in ix)})", e.loc)
                elif ix:
                    c.ok(R_ALIGN, f"{s.name}:{e.loc}")
            if e.kind == "call" and last(e) == "append" and e.recv is not None and lids and e.loops[-1] == lids[-1]:
                lp = layer[lids[-1]]
                nm = e.node.func.value if isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Attribute) else None
                if nm is None or (id(lp), ast.dump(nm)) in done or not isinstance(lp, ast.For):
                    continue
                done.add((id(lp), ast.dump(nm)))
                if made_in(lp, nm):
                    continue
                ways = paths(lp.body, ast.dump(nm), i)
                ns = {n for how, n in ways if how in ("next", "continue")}
                text = ast.unparse(nm)
                if ns - {1}:
                    c.bad(R_ENTRY, f"{e.fn}:{text}", f"{s.name}: a layer may get {' or '.join(str(x) for x in sorted(ns - {1}))} entries in {text}: "
                          "the entries of later layers move", e.loc)
                elif ns:
                    c.ok(R_ENTRY, f"{s.name}:{e.fn}:{text}")


def per_layer(it):
    """The loop visits every layer once, in order."""
    for x in alts(it):
        if over_layers(x):
            return True
        y = x
        if y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] in ("builtins.range", "tqdm.tqdm", "builtins.enumerate", "builtins.zip") and y.args[1]:
            if per_layer(y.args[1][0]):
                return True
        if y.op == "range" and any(isinstance(a, T) and per_layer(a) for a in y.args):
            return True
        if y.op == "dim" and per_layer(y.args[0]):
            return True
        if y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] == "get_compressed_grads":
            return True
    return False


def indices(i, t, layer, out, depth=0):
    """Layer indices a value was selected by."""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen or len(seen) > 4000:
            continue
        seen.add(x)
        if x.op in ("sub", "pick"):
            ind = x.args[-1]
            if x.op == "sub" and ind.op == "tuple" and any(a.op == "slice" for a in ind.args):
                for a in ind.args:
                    if a.op == "slice":
                        l = layer_of(i, a, layer)
                        if l is not None:
                            out.setdefault(l if l[0] != "BAD" else "BAD", l[1]) if isinstance(l, tuple) else out.setdefault(l, "columns")
                todo.append(x.args[0])
                continue
            if ind.op != "slice" and any(y.op == "idx" and y.args[0] in layer for y in subterms(ind)):
                out.setdefault(ind, "entry")
                if x.op == "sub":
                    todo.append(x.args[0])
                continue
        if x.op == "loopout" or x.op == "prev" or x.op == "lv":
            continue
        for a in x.args:
            if isinstance(a, T):
                todo.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    todo.append(b[1] if isinstance(b, tuple) and len(b) == 2 else b)


def subterms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        todo += [y for y in x.args if isinstance(y, T)]
        for y in x.args:
            if isinstance(y, tuple):
                todo += [z for z in y if isinstance(z, T)]
    return out


def prefix(t):
    """The k of sum(dims[:k])."""
    for x in alts(t):
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "builtins.sum" and x.args[1]:
            for y in alts(x.args[1][0]):
                if y.op == "sub" and y.args[1].op == "slice":
                    s = y.args[1].args
                    if s[0] in (None, NONE) or isinstance(s[0], T) and s[0].op == "const" and s[0].args[0] in (None, 0):
                        return s[1]
    return None


def dim_index(t):
    ks = set()
    for x in alts(t):
        if x.op in ("sub", "pick"):
            ks.add(x.args[-1])
    return ks.pop() if len(ks) == 1 else None


def layer_of(i, sl, layer):
    a, b = sl.args[0], sl.args[1]
    if not isinstance(a, T) or not isinstance(b, T):
        return None

    def mentions(t):
        return any(y.op == "idx" and y.args[0] in layer for y in subterms(t))
    if not (mentions(a) or mentions(b)):
        return None
    ka, kb = prefix(a), prefix(b)
    if ka is not None and kb is not None:
        if kb.op == "bin" and kb.args[0] == "+" and kb.args[1] is ka and kb.args[2].op == "const" and kb.args[2].args[0] == 1:
            return ka
        return ("BAD", f"columns from the layers before {show(ka)} to the layers before {show(kb)} are not one layer's")
    if ka is not None:
        for y in alts(b):
            if y.op == "bin" and y.args[0] == "+":
                parts = [y.args[1], y.args[2]]
                rest = [p for p in parts if p is not a and prefix(p) is None]
                if len(rest) == 1:
                    k = dim_index(rest[0])
                    if k is None:
                        return ka
                    if k is not ka:
                        return ("BAD", f"the columns start after layer {show(ka)}'s predecessors but are as wide as layer {show(k)}")
                    return ka
        return ka
    for y in alts(a):
        if y.op == "bin" and y.args[0] == "*" and any(z.op == "idx" and z.args[0] in layer for z in y.args[1:] if isinstance(z, T)):
            return ("BAD", f"the layer's columns start at {show(y)}, as if the layers before it were as wide as it is")
    ia, ib = dim_index(a), dim_index(b)
    if ia is not None and ib is not None:
        return ia
    if b.op == "bin":
        for p in b.args[1:]:
            if p is not a:
                k = dim_index(p)
                if k is not None:
                    return k
    return None


def made_in(lp, nm):
    """The list is created inside the loop body."""
    return isinstance(nm, ast.Name) and any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm.id for t in n.targets)
                                            for st in lp.body for n in ast.walk(st))


def paths(stmts, name, i):
    """{(how the statements end, number of entries added to the list)}"""
    cur = {("next", 0)}
    for st in stmts:
        nxt = set()
        for how, n in cur:
            if how != "next":
                nxt.add((how, n))
                continue
            for h, k in one(st, name, i):
                nxt.add((h, min(n + k, 3)))
        cur = nxt
    return cur


def one(st, name, i):
    if isinstance(st, ast.If):
        k = adds(st.test, name)
        out = paths(st.body, name, i)
        if st.orelse or not known_dims(st.test):
            out = out | paths(st.orelse, name, i)
        return {(h, n + k) for h, n in out}
    if isinstance(st, ast.Continue):
        return {("continue", 0)}
    if isinstance(st, ast.Break):
        return {("break", 0)}
    if isinstance(st, (ast.Return, ast.Raise)):
        return {("leave", 0)}
    if isinstance(st, ast.With):
        return paths(st.body, name, i)
    if isinstance(st, ast.Try):
        out = paths(st.body + st.orelse, name, i)
        for h in st.handlers:
            out = out | paths(h.body, name, i)
        fin = paths(st.finalbody, name, i)
        return {(h if h2 == "next" else h2, n + k) for h, n in out for h2, k in fin}
    if isinstance(st, (ast.For, ast.While)):
        inner = paths(st.body, name, i)
        return {("next", 0)} if all(n == 0 for _, n in inner) else {("next", 2)}
    return {("next", adds(st, name))}


def known_dims(test):
    """The branch is left out only while the layers' sizes are unknown, that is before anything was computed."""
    def dims(n):
        return any(isinstance(x, ast.Attribute) and "dims" in x.attr for x in ast.walk(n))
    if not dims(test):
        return False
    for x in ast.walk(test):
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and dims(x.operand):
            return False
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            a, b, o = x.left, x.comparators[0], x.ops[0]
            if dims(b) and isinstance(o, (ast.Gt, ast.GtE, ast.Eq)) or dims(a) and isinstance(o, (ast.Lt, ast.LtE, ast.Eq, ast.Is)):
                return False        # left out for the layers there are
    return True


def adds(node, name):
    return sum(1 for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append"
               and ast.dump(x.func.value) == name)
