"""C09: nothing a caller owns is modified."""
from __future__ import annotations

import ast

from ..drive import TASK, attributor, functions
from ..scen import BLOCK, DVEMB, FACT, LOGRA, OPAQUE_MODS, blocks, table
from ..terms import NONE, T, const, mk, show, sym
from . import c06

R_BATCH = "batches-unmodified"
R_TASK = "task-state-unmodified"
R_ARG = "arguments-unmodified"

# results that may share storage with the object they are asked of
VIEWS = {"view", "view_as", "reshape", "reshape_as", "flatten", "unflatten", "squeeze", "unsqueeze", "transpose", "t", "permute",
         "detach", "to", "contiguous", "float", "double", "half", "bfloat16", "long", "int", "type", "type_as", "bool", "cpu",
         "cuda", "expand", "expand_as", "narrow", "chunk", "split", "unbind", "diagonal", "requires_grad_", "numpy",
         "swapaxes", "swapdims", "movedim", "select", "unfold", "ravel", "data_ptr", "astype", "detach_", "real", "values",
         "items", "get", "keys", "tensor_split", "hsplit", "vsplit", "pin_memory", "mT", "as_strided", "__getitem__",
         "setdefault", "pop"}
VIEW_FUNCS = {"reshape", "flatten", "squeeze", "unsqueeze", "transpose", "t", "permute", "as_tensor", "from_numpy", "asarray",
              "chunk", "split", "unbind", "narrow", "diagonal", "ravel", "swapaxes", "movedim", "atleast_1d", "atleast_2d",
              "view_as_real", "getattr", "ascontiguousarray", "squeeze_", "broadcast_to", "expand_dims", "deref", "cast",
              "Parameter", "tensor_split", "row"}
VIEW_ATTRS = {"data", "T", "mT", "H", "grad", "real", "imag"}
NO_ALIAS_ATTRS = {"shape", "dtype", "device", "ndim", "batch_size", "requires_grad", "type", "layout", "is_cuda", "itemsize"}
SHALLOW = {"copy", "list", "tuple", "dict", "sorted", "reversed", "enumerate", "zip", "set", "OrderedDict", "iter", "next",
           "chain", "filter", "islice", "model_copy", "values", "items", "dict_values"}
CONTAINER = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "remove", "sort", "reverse",
             "add", "discard", "appendleft", "popleft", "move_to_end", "__setitem__", "__delitem__"}
SHUFFLERS = {"random.shuffle", "numpy.random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop"}
KEEP = {"requires_grad_", "retain_grad_", "share_memory_", "zero_grad_", "_"}
META_ATTRS = {"requires_grad", "grad"}


def run(c):
    c.rule(R_BATCH, "no in-place operation, assignment or mutating call reaches a batch a loader yields, one of its entries, "
                    "or a view of them")
    c.rule(R_TASK, "nothing the task hands out (parameters, checkpoints) is changed in place by an attribution, and the "
                   "task does not change the checkpoints and dictionaries it was given")
    c.rule(R_ARG, "tensors, lists, dictionaries and option objects passed to a public function are not changed, nor are "
                  "views of them")
    for name, build in contexts(c.repo):
        with c.guard(name):
            c.scenarios.append(name)
            r, ann = build(c.repo)
            c.functions |= r.i.inlined
            check(c, name, r, ann)
    c.need(R_BATCH, 20)
    c.need(R_ARG, 20)


SCALAR = ("int", "float", "str", "bool")
USER_MUTABLE = ("model", "module", "optimizer", "scheduler", "net")


def annotations(f):
    """{parameter: 'scalar' | 'object' | 'model' | None}"""
    out = {}
    a = f.node.args
    allp = a.posonlyargs + a.args + a.kwonlyargs
    defaults = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for x in allp + [y for y in (a.vararg,) if y]:
        s = ast.unparse(x.annotation) if x.annotation is not None else ""
        s = s.strip("'\"")
        kind = None
        if x.arg in USER_MUTABLE or "Module" in s or "Optimizer" in s or x.arg.endswith("_model"):
            kind = "model"
        elif "Tensor" in s or "ndarray" in s:
            kind = "tensor"
        elif any(k in s for k in ("List", "Dict", "dict", "list", "Tuple", "tuple", "Params", "Set")) or \
                x is a.vararg:
            kind = "object"
        elif any(k in s for k in SCALAR) or isinstance(defaults.get(x.arg), ast.Constant) and \
                defaults[x.arg].value is not None:
            kind = "scalar"
        out[x.arg] = kind
    return out


def method_ann(repo, ci):
    out = {}
    for k in list(reversed(ci.mro(repo))):
        for f in k.methods.values():
            if not f.name.startswith("_") or f.name == "__init__":
                out.update({p: v for p, v in annotations(f).items() if v})
    return out


def public_functions(repo):
    for f in repo.all_functions():
        if f.cls is None and f.qual.count(".") == f.module.name.count(".") + 1 and not f.name.startswith("_") \
                and not any(k in f.qual for k in (".benchmark.models.", ".benchmark.datasets.", ".compressor.", ".script.")):
            yield f


def contexts(repo):
    out = []
    for s in table() + blocks():
        if s.qual == DVEMB:
            continue

        def b(repo, s=s):
            r = s.build(repo, enter_vmap=True)
            return r, method_ann(repo, r.cls)
        out.append((s.name, b))
    for ft in ("none", "kronecker", "elementwise"):
        def b(repo, ft=ft):
            r = attributor(repo, DVEMB, init=dict(factorization_type=const(ft)), enter_vmap=True)
            r.call("cache_gradients", key="grads")
            r.call("cache", key="cache")
            r.call("attribute", key="main")
            return r, method_ann(repo, r.cls)
        out.append((f"DVEmb.{ft}", b))
    for q in (BLOCK, LOGRA, FACT):
        def b(repo, q=q):
            r = attributor(repo, q, init=dict(layer_names=sym("layers")), opaque_mods=c06.INLINE)
            r.call("cache", full_train_dataloader=c06.FULL)
            r.call("attribute", train_dataloader=sym("train_dataloader"), test_dataloader=sym("test_dataloader"))
            return r, method_ann(repo, r.cls)
        out.append((q.rsplit(".", 1)[-1] + ".compressors", b))
    return out + extra(repo)


def extra(repo):
    out = []
    done = set()
    for n, how in c06.HESSIAN.items():
        done.add("dattri.func.hessian." + n)

        def b(repo, n=n, how=how):
            q = "dattri.func.hessian." + n
            fi = repo.func(q)
            r = functions(repo, enter_vmap=True)
            a = fi.node.args
            kw = {"*": c06.X} if a.vararg else {"x": c06.X} if "x" in [x.arg for x in a.args] else {}
            ft = r.fcall(q, key="make", **kw)
            v = sym("v")
            if how == 0:
                r.apply(ft, c06.X, v, key="main")
            elif how == 3:
                r.apply(ft, c06.X, v, key="main", in_dims=sym("in_dims"))
            else:
                r.apply(ft, v, key="main")
            ann = annotations(fi)
            ann.update(v="tensor", x0="tensor", x1="tensor")
            return r, ann
        out.append(("func.hessian." + n, b))
    for f in public_functions(repo):
        if f.qual in done:
            continue

        def b(repo, f=f):
            r = functions(repo, enter_vmap=True)
            t = r.fcall(f.qual, key="make", **({"*": mk("tuple", sym("arg0"), sym("arg1"))} if f.node.args.vararg else {}))
            ann = annotations(f)
            close(r, t, ann, "c")
            return r, ann
        out.append((f.qual.replace("dattri.", ""), b))

    def b(repo):
        r = attributor(repo, TASK, init={k: sym("init:" + k) for k in ("checkpoints", "loss_func", "target_func", "model")},
                       nonnull=lambda t: t in (sym("init:checkpoints"),) or None)
        ann = annotations(repo.cls(TASK).find(repo, "__init__"))
        for m in sorted(public_methods(repo, repo.cls(TASK))):
            f = repo.cls(TASK).find(repo, m)
            ann.update(annotations(f))
            t = r.call(m)
            close(r, t, ann, m)
        r.task = True
        return r, ann
    out.append(("task", b))
    for ci in repo.all_classes():
        if ci.qual.startswith("dattri.func.projection.") and ci.name != "AbstractProjector" \
                and ci.find(repo, "__init__"):
            def b(repo, ci=ci):
                r = attributor(repo, ci.qual, opaque_mods=(), opaque=(), may_fail=True)
                ann = annotations(ci.find(repo, "__init__") or next(iter(repo.all_functions())))
                for m in sorted(public_methods(repo, ci)):
                    ann.update(annotations(ci.find(repo, m)))
                    r.call(m)
                return r, ann
            out.append((ci.qual.replace("dattri.", ""), b))
    return out


def public_methods(repo, ci):
    return {k for k in ci.methods if not k.startswith("_") and not ci.methods[k].is_static
            and not getattr(ci.methods[k], "is_property", False)}


def close(r, t, ann, key, depth=0):
    """Call the functions a call returned, with unknown arguments."""
    if not isinstance(t, T) or depth > 2:
        return
    for n, x in enumerate(t.args if t.op == "phi" else (t,)):
        if not isinstance(x, T) or x.op != "func" or x.args[0] not in r.i.funcs:
            continue
        a = r.i.funcs[x.args[0]].node.args
        names = [y.arg for y in a.posonlyargs + a.args] + (["arg0", "arg1"] if a.vararg else [])
        for y in names:
            ann.setdefault(y, "tensor" if y.startswith("arg") else None)
        fake = type("F", (), {"node": r.i.funcs[x.args[0]].node})
        ann.update({k: v for k, v in annotations(fake).items() if k in names})
        res = r.apply(x, *[sym(y) for y in names], key=f"{key}.{n}.{depth}")
        close(r, res, ann, f"{key}.{n}", depth + 1)


def roots(r, t, ann, depth=0, seen=None):
    """Caller-owned objects whose storage a term may be (part of)."""
    i = r.i
    out = set()
    seen = set() if seen is None else seen
    todo = [(t, depth)]
    while todo:
        x, d = todo.pop()
        if not isinstance(x, T) or (x, d) in seen or d > 6:
            continue
        seen.add((x, d))
        op = x.op
        if op == "sym":
            n = x.args[0].rsplit(":", 1)[-1]
            if n == "task" or ann.get(n) == "model" or n in USER_MUTABLE:
                continue
            if d == 0 and ann.get(n) == "scalar":
                continue
            out.add((x, d))
        elif op in ("phi", "or", "and"):
            todo += [(a, d) for a in x.args]
        elif op in ("sub", "elem", "first", "pick", "rest", "each"):
            if op == "sub" and len(x.args) > 1 and isinstance(x.args[1], T) and fancy(x.args[1]):
                continue
            todo.append((x.args[0], d + 1))
        elif op == "dictview":
            if x.args[0] != "keys":
                todo.append((x.args[1], d))
        elif op == "lv":
            todo += [(v, d) for v in i.lvinfo.get(x, ())]
        elif op == "attr":
            if x.args[1] in NO_ALIAS_ATTRS:
                continue
            if x.args[0].op == "sym" and x.args[0].args[0] == "task":
                if x.args[1] in ("checkpoints",):
                    out.add((x, d))
                continue
            todo.append((x.args[0], d))
        elif op == "obj":
            if d > 0:
                for how, v in i.contents.get(x.args[0], ()):
                    if how == "key":
                        continue
                    todo.append((v, d - 1 if how in ("elem", "val") else d))
        elif op == "tuple":
            if d > 0:
                todo += [(a, d - 1) for a in x.args if isinstance(a, T)]
        elif op == "call":
            f = x.args[0]
            if f.op == "attr":
                name = f.args[1]
                if f.args[0].op == "sym" and f.args[0].args[0] == "task":
                    if name in ("get_param", "get_checkpoints"):
                        out.add((x, d))
                elif name in SHALLOW and name not in ("values", "items"):
                    if d > 0:
                        todo.append((f.args[0], d))
                elif name in VIEWS or name.endswith("_") and not name.startswith("_"):
                    todo.append((f.args[0], d))
            else:
                name = str(f.args[0] if f.op == "ext" else "").rsplit(".", 1)[-1]
                if name in SHALLOW:
                    if d > 0:
                        todo += [(a, d) for a in x.args[1]]
                elif name in VIEW_FUNCS:
                    todo += [(a, d) for a in x.args[1][:1]]
        elif op in ("starred", "T", "unsq", "rest"):
            todo.append((x.args[0], d))
    return out


def fancy(idx):
    """Indexing that copies: a mask or an index tensor."""
    return idx.op in ("cmp", "not")


def listy(r, t):
    """Is it visibly a list or set (a tensor's sort and add make a new one)?"""
    return any(x.op in ("obj", "tuple") or x.op == "call" and x.args[0].op == "ext" and
               x.args[0].args[0].rsplit(".", 1)[-1] in ("list", "set", "sorted") for x in (t.args if t.op == "phi" else (t,))
               if isinstance(x, T)) or t.op == "sym" and t.args[0].rsplit(":", 1)[-1] in LISTY


LISTY = {"param_shape_list", "layer_name", "layer_names", "checkpoints", "layers", "loo_path", "indices", "train_labels",
         "test_labels"}


def mutations(r):
    """(event, term, what) for every operation that writes into an object."""
    for e in r.events():
        k = e.kind
        if k == "substore":
            yield e, e.base, "assignment to an entry of"
        elif k == "inplace":
            yield e, e.base, f"in-place {e.op}= on"
        elif k == "aug":
            if e.target[0] == "attr":
                yield e, e.target[1], f"assignment to .{e.target[2]} of"
            if not (e.cur.op == "attr" and e.cur.args[1] not in VIEW_ATTRS):
                yield e, e.cur, f"in-place {e.op}= on"
        elif k == "delitem":
            yield e, e.base, "deletion of an entry of"
        elif k in ("setattr", "delattr"):
            if e.attr not in META_ATTRS:
                yield e, e.base, f"assignment to .{e.attr} of"
        elif k == "call":
            n = str(e.callee)
            recv = e.d.get("recv")
            if n.startswith(".") and isinstance(recv, T):
                m = n[1:]
                if m in ("sort", "add") and not listy(r, recv):
                    continue
                if m in CONTAINER or m.endswith("_") and not m.startswith("_") and m not in KEEP:
                    yield e, recv, f".{m}() on"
            elif n in SHUFFLERS or n.startswith("torch.nn.init.") and n.endswith("_"):
                for a in e.args[:1]:
                    yield e, a, f"{n.rsplit('.', 1)[-1]}() on"
            for kk, v in (e.kwargs or ()):
                if kk == "out" and isinstance(v, T):
                    yield e, v, "result written into"


def check(c, name, r, ann):
    bad = set()
    n = {R_BATCH: 0, R_TASK: 0, R_ARG: 0}
    for e, t, what in mutations(r):
        if not isinstance(t, T):
            continue
        for root, d in roots(r, t, ann):
            if d == 0 and guarded(r, e, root):
                continue
            if e.kind == "aug" and what.startswith("in-place") and not tensor(root, ann):
                continue        # rebinds a number
            rule, desc = kind_of(r, root)
            fn = e.fn.replace("dattri.", "")
            cons = f"{fn} {what} {desc}"
            if (rule, cons) not in bad:
                bad.add((rule, cons))
                c.bad(rule, cons, f"{what} {show(t)[:70]}, which may be {desc} ({name})", e.loc)
    for rule in n:
        if not any(b[0] == rule for b in bad):
            c.ok(rule, name)


def tensor(root, ann):
    n = root.args[0] if root.op == "sym" else ""
    return root.op != "sym" or n.endswith("dataloader") or ann.get(n.rsplit(":", 1)[-1]) == "tensor"


def sizes(cond, pol, root):
    """What the length of an object is known to differ from when a condition holds."""
    if cond.op != "cmp" or cond.args[0] not in ("==", "!=") or (cond.args[0] == "!=") != bool(pol):
        return set()
    out = set()
    ab = [a for a in cond.args[1:] if isinstance(a, T)]
    for n, a in enumerate(ab):
        if a.op == "dim" and any(y is root for y in (a.args[0].args if a.args[0].op in ("phi", "or") else (a.args[0],))):
            out.add(ab[1 - n])
    return out


def guarded(r, e, root):
    """The path requires a length that a check in front of it refuses."""
    want = {o for cond, pol in e.pc for o in sizes(cond, pol, root)}
    return bool(want) and any(o in want for x in r.events(kind="raise") if x.seq < e.seq
                              for cond, pol in x.pc for o in sizes(cond, pol, root))


def kind_of(r, root):
    if getattr(r, "task", False):
        return R_TASK, f"the task's {root.args[0].rsplit(':', 1)[-1] if root.op == 'sym' else 'parameters'}"
    if root.op == "sym":
        n = root.args[0]
        if n.endswith("_dataloader") or n.endswith("dataloader"):
            return R_BATCH, f"a batch of {n.rsplit(':', 1)[-1]}"
        return R_ARG, f"the caller's {n.rsplit(':', 1)[-1]}"
    return R_TASK, "the task's parameters"
