"""C08: tuple, list and dict batches get the same treatment; anything else is a TypeError."""
from __future__ import annotations

from .. import evals as E
from ..drive import FULL, TEST, TRAIN
from ..scen import blocks, table
from ..terms import T, is_const, show, sym
from .c17 import exc_name

R_SAME = "same-computation"
R_DEV = "entries-on-device"
R_TYPE = "type-error-first"
R_RUN = "batch-type-accepted"
LOADERS = {TRAIN: "train_dataloader", TEST: "test_dataloader", FULL: "full_train_dataloader"}
DEVICE = sym("init:device")
ALL = ("TracIn", "TRAK", "IF-CG", "IF-Explicit", "IF-DataInf")          # tuple, list and dict
BASE = ("TracIn", "TRAK", "IF-")                          # device and type check in front of every batch
NEUTRAL = {"to", "detach", "clone", "contiguous", "requires_grad_", "cpu", "cuda"}
QUERIES = {"isinstance", "len", "type", "repr", "str", "format", "hasattr", "callable", "id", "__class__", "keys",
           "items", "values"}


def kinds_for(kind, loaders=LOADERS):
    def f(t):
        if t.op in ("elem", "first") and t.args[0].op == "sym" and t.args[0].args[0].endswith("_dataloader"):
            return kind if t.args[0] in loaders else "tuple"
        return None
    return f


def run(c):
    c.rule(R_RUN, "with batches of every documented type the operation reaches its end and evaluates a model function "
                  "on the batch")
    c.rule(R_SAME, "the functions a batch is given to, the numerical routines its entries or sizes reach, and what is "
                   "applied to the entries on the way are the same for every documented batch type")
    c.rule(R_DEV, "every batch entry a model function is evaluated on was moved to the configured device first")
    c.rule(R_TYPE, "a batch of another type raises a TypeError before anything is computed from it")
    for s in table() + blocks():
        with c.guard(s.name):
            c.scenarios.append(s.name)
            scen(c, s)
    c.need(R_RUN, 20)
    c.need(R_SAME, 20)
    c.need(R_DEV, 15)
    c.need(R_TYPE, 20)


class Unknown(Exception):
    pass


def is_batch(t):
    return t.op in ("elem", "first") and t.args[0] in LOADERS


def trace(r, t):
    """{(loader, what, moved, operations)}: how batches and their entries reach a term."""
    i = r.i
    out, seen = set(), set()
    todo = [(t, (), False)]
    while todo:
        x, ops, moved = todo.pop()
        if not isinstance(x, T) or (x, ops, moved) in seen or len(ops) > 8:
            continue
        seen.add((x, ops, moved))
        if is_batch(x):
            out.add((x.args[0], "batch", moved, ops))
        elif x.op == "elem" and is_batch(x.args[0]) or x.op == "sub" and is_batch(x.args[0]) and \
                x.args[1].op != "slice":
            out.add((x.args[0].args[0], "entry", moved, ops))
        elif x.op == "sub" and any(y.op == "slice" for y in x.args[1:] if isinstance(y, T)):
            todo.append((x.args[0], ("slice",) + ops, moved))
        elif x.op in ("elem", "first") and x.args[0].op == "dictview" and is_batch(x.args[0].args[1]):
            if x.args[0].args[0] != "keys":
                out.add((x.args[0].args[1].args[0], "entry", moved, ops))
        elif x.op == "first" and is_batch(x.args[0]):
            out.add((x.args[0].args[0], "entry", moved, ops))
        elif x.op == "obj":
            for how, v in i.contents.get(x.args[0], ()):
                if how != "key":
                    todo.append((v, ops, moved))
            if i.objs[x.args[0]]["kind"] != "inst":
                for k, v in i.S.heap.get(x.args[0], {}).items():
                    if k != "k*" and isinstance(v, T):
                        todo.append((v, ops, moved))
            if x.args[0] in i.generators:
                todo += [(v, ops, moved) for v in i.generators[x.args[0]][2].values()]
        elif x.op == "lv":
            todo += [(v, ops, moved) for v in i.lvinfo.get(x, ())]
        elif x.op == "dim":
            if x.args[0].op == "obj" and i.objs[x.args[0].args[0]]["kind"] in ("dict", "tuple", "list", "set"):
                ops = ("entries",) + ops
            todo.append((x.args[0], (f"size{show(x.args[1]) if isinstance(x.args[1], T) else x.args[1]}",) + ops, moved))
        elif x.op == "call" and x.args[0].op == "attr":
            f = x.args[0]
            name = f.args[1]
            if E.task_call(x):
                continue
            given = list(x.args[1]) + [v for _, v in x.args[2]]
            if name in ("to", "cuda") and any(DEVICE in i.expand(a) for a in given if isinstance(a, T)):
                todo.append((f.args[0], ops, True))
            elif name in NEUTRAL:
                todo.append((f.args[0], ops, moved))
            else:
                key = name if not given or name in ("apply",) else name + "(" + ",".join(
                    show(a) if isinstance(a, T) and a.op == "const" else "_" for a in given) + ")"
                todo.append((f.args[0], (key,) + ops, moved))
            todo += [(a, ("arg of " + name,) + ops, moved) for a in given]
        elif x.op == "call":
            f = x.args[0]
            given = list(x.args[1]) + [v for _, v in x.args[2]]
            if any(isinstance(a, T) and a.op in ("func", "bound", "partial") for a in given):
                for a in given:
                    if isinstance(a, T) and any(is_batch(y) for y in i.expand(a)):
                        raise Unknown(show(x)[:80])
            if E.callee_funcs(i, f) or f.op == "ext" and f.args[0].startswith("dattri."):
                continue        # a result, not the batch
            name = f.args[0] if f.op == "ext" else f.op
            tr = f.op == "ext" and name.rsplit(".", 1)[-1] in ("tuple", "list", "dict", "iter", "next", "zip")
            todo += [(a, ops if tr else (name,) + ops, moved) for a in given]
        elif x.op in ("phi", "or", "and", "tuple", "partial", "starred"):
            for a in x.args:
                for b in (a if isinstance(a, tuple) else (a,)):
                    if isinstance(b, tuple):
                        b = b[-1]
                    todo.append((b, ops, moved))
        elif x.op == "dictview":
            if x.args[0] != "keys":
                todo.append((x.args[1], ops, moved))
        elif x.op in ("sub", "elem", "first", "pick"):
            todo.append((x.args[0], ops, moved))
        elif x.op in ("ind", "psum", "idx", "const", "sym", "ext", "mod", "class", "func", "bound", "cmp", "not"):
            pass
        elif x.op == "attr":
            todo.append((x.args[0], (x.args[1],) + ops, moved))
        else:
            for a in x.args:
                if isinstance(a, T):
                    todo.append((a, (x.op,) + ops, moved))
    return out


def user_calls(r):
    """Calls of functions the user passed to the constructor (distance functions and the like)."""
    for e in r.events(kind="call"):
        ft = e.d.get("func")
        if ft is None:
            continue
        cands = r.i.expand(ft) if ft.op in ("phi", "or", "partial", "lv") else [ft]
        for x in cands:
            if x.op == "sym" and x.args[0].startswith("init:"):
                yield x.args[0], e
                break


def signature(r):
    """{(what, loader, kind of value, operations): (moved, loc)} over all uses of batches."""
    out = {}

    def put(what, terms, loc):
        for t in terms:
            if not isinstance(t, T):
                continue
            for ld, how, moved, ops in trace(r, t):
                out.setdefault((what, LOADERS[ld], how, ops), []).append((moved, loc))
    for ev in E.evaluations(r):
        how = ev.how if ev.how.startswith("handed") else "apply"
        put((ev.kind, how), list(ev.args) + [v for _, v in (ev.kwargs or ())], ev.e.loc)
    for name, e in user_calls(r):
        put((name, "apply"), list(e.args) + [v for _, v in (e.kwargs or ())], e.loc)
    for e in r.events(kind="call"):
        if isinstance(e.callee, str) and e.callee.startswith("dattri.func.") and e.result is not None and \
                e.result.op == "call" and e.d.get("bound"):
            for k, v in e.bound.items():
                if isinstance(v, T):
                    if v.op == "call" and E.task_call(v):
                        continue
                    put((e.callee.rsplit(".", 1)[1], k), [v], e.loc)
    for e in r.events(kind="substore"):
        if isinstance(e.index, T):
            # how many rows a batch takes up
            for x in r.i.expand(e.index):
                if x.op == "dim":
                    put(("rows", "index"), [x], e.loc)
    return out


def documented(s):
    return ("tuple", "list", "dict") if s.name.startswith(ALL) else ("tuple", "list")


def scen(c, s):
    runs, sigs = {}, {}
    roles = [l for l in (TRAIN, TEST, FULL) if l in s.roles.values()]
    for k in documented(s):
        r = runs[k] = s.build(c.repo, kinds=kinds_for(k))
        c.functions |= r.i.inlined
        dead = [key for key, v in r.results.items() if v is None and key != "__init__"]
        if dead:
            loc = next((e.loc for e in r.events(kind="raise")), None)
            c.bad(R_RUN, f"{s.name}[{k}]", f"with {k} batches {dead[0]} raises on every path", loc)
            continue
        try:
            sigs[k] = signature(r)
        except Unknown as x:
            c.unknown(R_RUN, f"{s.name}[{k}]", f"batch given to an unknown mapping: {x}")
            continue
        # a loader all of whose batches are refused ends its loop without an evaluation
        lost = []
        for l in roles:
            n = LOADERS[l]
            if any(n == q[1] for kk in sigs.values() for q in kk) and not any(q[1] == n for q in sigs[k]):
                lost.append(n)
        if lost:
            loc = next((e.loc for e in r.events(kind="raise")), None)
            c.bad(R_RUN, f"{s.name}[{k}]", f"{k} batches of {', '.join(lost)} are not used: no model function is "
                  f"evaluated on them", loc)
        else:
            c.ok(R_RUN, f"{s.name}[{k}]")
    base = sigs.get("tuple")
    if base is not None:
        for k, sig in sigs.items():
            if k != "tuple":
                compare(c, s, k, base, sig)
    if s.name.startswith(BASE):
        for k, sig in sigs.items():
            device(c, s, k, sig)
        for l in roles:
            if l is FULL and not s.name.startswith(ALL + ("IF-LiSSA", "IF-CG")):
                continue
            other(c, s, l)


def fmt(q):
    what, ld, how, ops = q
    return f"{what[0]} ({what[1]}) on the {how} of {ld}" + (f" through {'.'.join(ops)}" if ops else "")


def loose(q):
    """Key without the operations (what is used where)."""
    return q[:2]


def compare(c, s, k, a, b):
    keys = {loose(q) for q in a} | {loose(q) for q in b}
    for key in sorted(keys, key=str):
        pa = {q[2:] for q in a if loose(q) == key}
        pb = {q[2:] for q in b if loose(q) == key}
        cons = f"{s.name}[{k}]:{key[0][0]}/{key[0][1]}/{key[1]}"
        if pa == pb:
            c.ok(R_SAME, cons)
            continue
        # 'batch' (handed as it is) and 'entry' (rebuilt entry by entry) are the same value
        na, nb = {q[1] for q in pa}, {q[1] for q in pb}
        if na == nb and not any("size0" in o for o in na):
            c.ok(R_SAME, cons)
            continue
        locs = [l for q, v in list(b.items()) + list(a.items()) if loose(q) == key for _, l in v]
        only_a = [q for q in pa if q not in pb]
        only_b = [q for q in pb if q not in pa]
        txt = f"{k} batches are treated differently from tuples in {key[0][0]} ({key[0][1]})"
        if only_a:
            txt += "; only tuples: " + fmt((key[0], key[1]) + min(only_a, key=str))
        if only_b:
            txt += f"; only {k}: " + fmt((key[0], key[1]) + min(only_b, key=str))
        c.bad(R_SAME, cons, txt, locs[0] if locs else None)


def device(c, s, k, sig):
    evs = {}
    for q, uses in sig.items():
        what, ld, how, ops = q
        if what[0] in ("loss", "target") and not any(o.startswith("size") for o in ops):
            for moved, loc in uses:
                evs.setdefault((what[0], ld), []).append((moved, loc, how))
    for (fn, ld), uses in sorted(evs.items()):
        cons = f"{s.name}[{k}]:{fn}/{ld}"
        raw = [u for u in uses if not u[0]]
        if raw:
            c.bad(R_DEV, cons, f"the {fn} function is evaluated on {'an entry' if raw[0][2] == 'entry' else 'a batch'} "
                  f"of {ld} that was not moved to the configured device", raw[0][1])
        else:
            c.ok(R_DEV, cons)


def other(c, s, l):
    for k in ("tensor", "weird"):
        r = s.build(c.repo, kinds=kinds_for(k, {l}))
        c.functions |= r.i.inlined
        cons = f"{s.name}[{LOADERS[l]}={'a tensor' if k == 'tensor' else 'another type'}]"
        hits = []
        raised = False
        und = False
        for e in r.events():
            if e.kind == "raise":
                if exc_name(e.exc, r.i) == "TypeError":
                    raised = True
                continue
            if e.kind != "call":
                continue
            name = str(e.callee).rsplit(".", 1)[-1]
            terms = list(e.args) + [v for _, v in (e.kwargs or ())]
            if name in QUERIES:
                continue
            if e.recv is not None if "recv" in e.d else False:
                terms.append(e.recv)
            if e.d.get("bound"):
                terms += list(e.bound.values())
            opaque = e.result is not None and e.result.op == "call"
            if not opaque:
                continue
            for t in terms:
                if isinstance(t, T) and any(x.op == "elem" and x.args[0] is l for x in r.i.expand(t)):
                    if any(x.op == "unk" for x in r.i.expand(t)):
                        und = True
                    hits.append((e, t))
                    break
        if hits:
            e, t = hits[0]
            c.bad(R_TYPE, cons, f"a batch of {LOADERS[l]} of an unsupported type is used ({show(e.result)[:60]}) instead "
                  f"of raising a TypeError", e.loc)
        elif raised:
            c.ok(R_TYPE, cons)
        else:
            c.bad(R_TYPE, cons, f"a batch of {LOADERS[l]} of an unsupported type raises no TypeError")
