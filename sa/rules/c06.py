"""C06: options reach the computation under their own meaning."""
from __future__ import annotations

from .. import evals as E
from ..drive import functions
from ..drive import IF
from ..scen import BLOCK, BLOCK_OPAQUE, BLOCK_PKG, DVEMB, FACT, KNN, LOGRA, OPAQUE_MODS, TRACIN, TRAK, attributor, blocks, table
from ..terms import NONE, T, children, const, mk, show, sym

R_USE = "option-used"
R_DROP = "option-forwarded"
R_NAME = "option-meaning"
R_ROLE = "option-role"

CAST = ("int", "float", "bool", "str", "device", "abs", "Path")


def wrapped(t):
    """Values a term stands for through defaults and conversions that keep its meaning."""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        if x.op in ("phi", "or", "and"):
            todo += list(x.args)
        elif x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].rsplit(".", 1)[-1] in CAST:
            todo += list(x.args[1][:1])
    return out


def terms_of(e):
    """Terms an event makes use of."""
    vs = []
    if e.kind == "call":
        opaque = e.result is None or e.result.op == "call" or str(e.callee).startswith(".")
        if not opaque:
            return []
        vs = list(e.args) + [v for _, v in (e.kwargs or ())] + [e.d.get("recv"), e.d.get("func")]
        vs += list((e.d.get("bound") or {}).values())
    elif e.kind == "iter":
        vs = [e.iterable]
    elif e.kind == "branch":
        vs = [e.cond]
    elif e.kind in ("substore", "inplace", "aug"):
        vs = [e.d.get("base"), e.d.get("index"), e.d.get("value")]
    elif e.kind == "return" and not e.d.get("muted"):
        vs = []
    return [v for v in vs if isinstance(v, T)]


NOT_USE = ("isinstance", "fmt", "cmp is", "cmp is not", "cmp in", "cmp not in", "not", "arg isinstance", "arg str",
           "arg repr", "arg type", "arg warn", "arg info", "arg debug", "arg warning", "arg print", "arg len")


def consequential(tags):
    return [t for t in tags if not any(t == n or t.startswith(n + "#") or t.startswith(n + ".") for n in NOT_USE)]


def sinks(r):
    """{symbol: {tag: loc}}: what is done with a symbol, anywhere in the run."""
    out = {}
    seen = set()

    def put(t, tag, loc):
        for x in wrapped(t):
            if x.op == "sym" or x.op == "attr":
                out.setdefault(x, {}).setdefault(tag, loc)

    def walk(t, loc):
        for x in r.i.expand(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "bin":
                for a in x.args[1:]:
                    if isinstance(a, T):
                        put(a, "bin " + str(x.args[0]), loc)
            elif x.op == "cmp":
                for a in x.args[1:]:
                    if isinstance(a, T):
                        put(a, "cmp " + str(x.args[0]), loc)
            elif x.op == "call":
                f = x.args[0]
                nm = f.args[0] if f.op == "ext" else f.args[1] if f.op == "attr" else f.op
                nm = str(nm).rsplit(".", 1)[-1]
                if nm in CAST:
                    continue
                for n, a in enumerate(x.args[1]):
                    put(a, f"arg {nm}#{n}", loc)
                for k, a in x.args[2]:
                    put(a, f"arg {nm}.{k}", loc)
                if f.op == "attr":
                    put(f.args[0], "method " + f.args[1], loc)
            elif x.op not in ("phi", "or", "and", "obj", "partial", "attr"):
                for a in x.args:
                    for b in (a if isinstance(a, tuple) else (a,)):
                        if isinstance(b, T):
                            put(b, x.op, loc)
    for e in r.events():
        for t in terms_of(e):
            tag = {"iter": "iter", "branch": "branch"}.get(e.kind)
            if tag:
                put(t, tag, e.loc)
                for x in r.i.expand(t):
                    if x.op == "sym" and tag == "iter":
                        put(x, "iter", e.loc)
            elif e.kind == "call":
                cal = str(e.callee).rsplit(".", 1)[-1]
                for k, v in list((e.d.get("bound") or {}).items()) + list(e.kwargs or ()):
                    put(v, f"arg {cal}.{k}", e.loc)
                for n, v in enumerate(e.args):
                    put(v, f"arg {cal}#{n}", e.loc)
                ft = e.d.get("func")
                if ft is not None:
                    put(ft, "called", e.loc)
            else:
                put(t, e.kind, e.loc)
            walk(t, e.loc)
    for k, t in r.results.items():
        if isinstance(t, T) and k != "__init__":
            for x in E.deep(r, t):
                walk(x, None)
    return out


SKIP = {"task", "layer_name", "layer_names", "offload", "self"}
# meaning classes: two options of one class may feed each other, two of different classes may not
CLASSES = {
    "seed": ("seed", "proj_seed"),
    "dim": ("proj_dim", "proj_dim_per_layer"),
    "regularization": ("regularization", "damping", "l2_strength", "lambda_l2"),
    "iterations": ("max_iter", "num_iter", "max_iterations"),
    "epochs": ("epoch", "max_epoch", "num_epoch"),
    "depth": ("recursion_depth",),
    "repeats": ("num_repeat", "num_repeats"),
    "batch size": ("batch_size", "feature_batch_size", "proj_max_batch_size", "max_batch_size"),
    "tolerance": ("tol",),
    "mode": ("mode",),
    "scaling": ("scaling",),
    "norm": ("norm_constant",),
    "type": ("proj_type",),
    "argnums": ("argnums",),
    "top k": ("top_k",),
    "device": ("device",),
    "multiplier": ("grass_multiplier",),
    "neighbours": ("k_neighbors",),
    "collate": ("collate_fn",),
    "dims": ("in_dims",),
    "learning rate": ("learning_rate", "lr"),
}
CLASS = {n: c for c, ns in CLASSES.items() for n in ns}
# the projection of an Arnoldi projector is its Krylov dimension
SAME = {("dim", "iterations"), ("iterations", "dim"), ("dim", "top k"), ("top k", "dim")}


def optname(t):
    """Option a symbol or a field of a parameter object stands for."""
    if t.op == "sym":
        return t.args[0].rsplit(":", 1)[-1]
    if t.op == "attr" and t.args[1] in CLASS and any(x.op == "sym" and "param" in x.args[0] for x in (t.args[0],)):
        return t.args[1]
    return None


def short(n):
    return n.replace("dattri.", "").replace("algorithm.", "")


def run(c):
    c.rule(R_USE, "every option reaches the computation: it is an operand, an argument of a routine, a bound of an "
                  "iteration or decides a branch by its value; a None or type check alone is not a use")
    c.rule(R_DROP, "a routine that takes an option of the same name as the caller's receives the caller's value")
    c.rule(R_NAME, "no option arrives at a parameter that means something else")
    c.rule(R_ROLE, "iteration counts bound loops, tolerances and modes are compared, regularisation is added")
    for s in scens():
        with c.guard(s[0]):
            c.scenarios.append(s[0])
            r, opts = s[1](c)
            c.functions |= r.i.inlined
            judge(c, s[0], r, opts)
    c.need(R_USE, 60)
    c.need(R_NAME, 40)
    c.need(R_DROP, 10)


def init_options(r):
    f = r.cls.find(r.repo, "__init__")
    a = f.node.args
    return {sym("init:" + p): p for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:] if p not in SKIP}


def call_options(r, calls):
    """Options of the analysed public methods themselves."""
    out = {}
    for key, m, given in calls:
        a = r.cls.find(r.repo, m).node.args
        for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]:
            if p not in given and not p.endswith("dataloader"):
                out[sym(f"{m}:{p}")] = p
    return out


FULL = sym("full_train_dataloader")
INLINE = OPAQUE_MODS + (BLOCK_PKG + "offload.", BLOCK_PKG + "core.utils", BLOCK_PKG + "core.hook",
                        BLOCK_PKG + "core.metadata")
X = mk("tuple", sym("x0"), sym("x1"))
HESSIAN = {"hvp": 0, "hvp_at_x": 1, "ihvp_explicit": 0, "ihvp_at_x_explicit": 2, "ihvp_cg": 0, "ihvp_at_x_cg": 2,
           "ihvp_arnoldi": 0, "ihvp_at_x_arnoldi": 2, "ihvp_lissa": 3, "ihvp_at_x_lissa": 2}


EXPLICIT = [
    (BLOCK, [("cache", "cache", dict(full_train_dataloader=FULL)), ("main", "compute_preconditioners", {})],
     dict(opaque_mods=BLOCK_OPAQUE)),
    (IF + "IFAttributorEKFAC", [("main", "cache", dict(full_train_dataloader=FULL))], {}),
    (KNN, [("main", "cache", dict(full_train_dataloader=FULL))], dict(init=dict(task=NONE))),
    (KNN, [("main", "attribute", dict(train_dataloader=sym("train_dataloader"),
                                      test_dataloader=sym("test_dataloader")))], dict(init=dict(task=NONE))),
]


def scens():
    out = []
    for s in table() + blocks():
        if s.qual == DVEMB:
            continue

        def f(c, s=s):
            r = s.build(c.repo, enter_vmap=True)
            return r, {**init_options(r), **call_options(r, s.calls)}
        out.append((s.name, f))
    # an argument given to a method wins over the constructor's setting of the same meaning
    for q, calls, kw in EXPLICIT:
        def f(c, q=q, calls=calls, kw=kw):
            r = attributor(c.repo, q, enter_vmap=True, nonnull=lambda t: True if t.op == "sym" and ":" in t.args[0]
                           and not t.args[0].startswith(":") else None, **kw)
            for key, m, given in calls:
                r.call(m, key=key, **given)
            every = r.events            # an earlier call made without the argument asks for the constructor's
            r.events = lambda key=None, kind=None: every(key or calls[-1][0], kind)
            return r, call_options(r, calls[-1:])
        out.append((f"{q.rsplit('.', 1)[-1]}.{calls[-1][1]}.given", f))
    for ft in (const("none"), const("kronecker"), const("elementwise")):
        def f(c, ft=ft):
            r = attributor(c.repo, DVEMB, init=dict(factorization_type=ft), enter_vmap=True)
            r.call("cache_gradients", key="grads")
            r.call("cache", key="cache")
            r.call("attribute", key="main", train_dataloader=NONE, test_dataloader=sym("test_dataloader"))
            return r, {s: o for s, o in init_options(r).items() if o != "factorization_type"}
        out.append((f"DVEmb.{ft.args[0]}", f))
    for q in (BLOCK, LOGRA, FACT):
        def f(c, q=q):
            r = attributor(c.repo, q, init=dict(layer_names=sym("layers")), opaque_mods=INLINE)
            r.call("cache", full_train_dataloader=FULL)
            return r, init_options(r)
        out.append((q.rsplit(".", 1)[-1] + ".compressors", f))
    for n, how in HESSIAN.items():
        def f(c, n=n, how=how):
            q = "dattri.func.hessian." + n
            fi = c.repo.func(q)
            r = functions(c.repo, enter_vmap=True)
            a = fi.node.args
            opts = {sym(p): p for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                    if p not in ("func", "x", "argnums", "collate_fn", "in_dims")}
            kw = {"*": X} if a.vararg else {"x": X} if "x" in [x.arg for x in a.args] else {}
            ft = r.fcall(q, key="make", **kw)
            v = sym("v")
            if how == 0:
                r.apply(ft, X, v, key="main")
            elif how == 3:
                r.apply(ft, X, v, key="main", in_dims=sym("in_dims"))
            else:
                r.apply(ft, v, key="main")
            return r, opts
        out.append(("func.hessian." + n, f))
    for n in ("hvp", "hvp_at_x"):
        for m in ("rev-rev", "rev-fwd"):
            def f(c, n=n, m=m):
                q = "dattri.func.hessian." + n
                r = functions(c.repo, enter_vmap=True)
                ft = r.fcall(q, key="make", mode=const(m), **({"x": X} if HESSIAN[n] else {}))
                r.apply(ft, *([X] if not HESSIAN[n] else []), sym("v"), key="main")
                return r, {sym("regularization"): "regularization"}
            out.append((f"func.hessian.{n}", f))
    for n in ("random_project", "make_random_projector", "arnoldi_project"):
        def f(c, n=n):
            q = "dattri.func.projection." + n
            r = functions(c.repo, enter_vmap=True)
            ft = r.fcall(q, key="make")
            if n == "make_random_projector":
                ft = mk("attr", ft, "project") if ft is not None else None
            r.apply(ft, sym("features"), key="main")
            a = c.repo.func(q).node.args
            opts = {sym(p): p for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                    if p in CLASS and p != "argnums"}
            if n == "random_project":
                opts = {mk("attr", sym("proj_params"), p): p
                        for p in PROJ + ("feature_batch_size", "device")}
            return r, opts
        out.append(("func.projection." + n, f))
    return out


def judge(c, name, r, opts):
    S = sinks(r)
    where = r.cls.qual if r.cls else name
    for s, o in sorted(opts.items(), key=lambda x: x[1]):
        if name.endswith("make_random_projector") and o in ("feature_batch_size", "grass_multiplier"):
            continue        # used by the projector's methods: the hand-over is checked below
        tags = S.get(s, {})
        for t, d in S.items():          # fields of parameter objects
            if t.op == "attr" and s in r.i.expand(t):
                tags = {**tags, **d}
        use = consequential(tags)
        cons = f"{short(where)} option {o}"
        if use:
            c.ok(R_USE, cons, name)
        else:
            c.bad(R_USE, cons, f"the option `{o}` does not influence the computation ({name}: "
                  + (f"only {', '.join(sorted(tags))}" if tags else "never used") + ")")
    forwarded(c, name, r, opts)
    meaning(c, name, r)
    roles(c, name, r, opts, S)


SYN = {"l2_strength": ("l2_strength", "lambda_l2"), "epoch": ("epoch", "num_epoch"), "max_iter": ("max_iter", "num_iter")}
PROJ = ("proj_dim", "proj_max_batch_size", "proj_seed", "proj_type")
ALIAS = {"proj_dim": ("proj_dim", "proj_dim_per_layer")}


def signature(repo, qual):
    try:
        f = repo.func(qual)
    except Exception:
        return None
    if f is None:
        return None
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def direct(t):
    """Options and parameter-object fields an expression is computed from (not through stored objects)."""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "attr" and x.args[1] in CLASS or x.op == "attr" and x.args[1] in ALIAS["proj_dim"]:
            out.add(x)
        elif x.op == "sym":
            out.add(x)
        elif x.op != "dim":
            todo += list(children(x))
    return out


def reaches(r, v, syms):
    return isinstance(v, T) and any(x in syms for x in r.i.expand(v))


def forwarded(c, name, r, opts):
    by_class = {}
    for s, o in opts.items():
        for p in SYN.get(o, (o,)):
            by_class.setdefault(p, set()).add(s)
    boxes = {s for s, o in opts.items() if o.endswith(("params", "kwargs", "config"))}
    for e in r.events(kind="call"):
        cal = str(e.callee)
        if not cal.startswith("dattri."):
            continue
        given = dict(e.d.get("bound") or {}) or dict(e.kwargs or ())
        if cal.startswith("dattri.params.") and cal.endswith("Params"):
            projection(c, name, r, e, given, boxes)
            continue
        if cal.endswith("Projector.__init__") and "projection" in cal:
            built(c, name, r, e, given, opts)
            continue
        sig = signature(c.repo, cal)
        if sig is None:
            continue
        for p in sig:
            cl = p
            if cl not in by_class or CLASS.get(p, "device") in ("batch size", "device", "dim", "type", "seed"):
                continue
            v = given.get(p)
            cons = f"{short(e.fn)} call of {cal.rsplit('.', 1)[-1]}.{p}"
            if v is None and ("**" in given or "*" in given):
                star = [given[k] for k in ("**", "*") if k in given]
                if any(reaches(r, w, by_class[cl]) for w in star):
                    c.ok(R_DROP, cons, name)
                else:
                    c.unknown(R_DROP, cons, "passed through an unresolved mapping")
            elif v is NONE and (cal in r.i.inlined or p in dict(e.kwargs or ()) or sig.index(p) < len(e.args) or "**" in given):
                continue            # asks the callee for its default
            elif v is None or not reaches(r, v, by_class[cl]):
                c.bad(R_DROP, cons, f"`{p}` of {cal.rsplit('.', 1)[-1]} is "
                      + (f"set to {show(v)[:60]}" if isinstance(v, T) else "left at its default")
                      + f" instead of the caller's {', '.join(sorted(opts[s] for s in by_class[cl]))} ({name})", e.loc)
            else:
                c.ok(R_DROP, cons, name)


def selected(r, e):
    """Is the class of a projector under construction settled at this site?"""
    cls = str(e.callee).rsplit(".", 1)[0]
    for cond, pol in e.pc:
        if cond.op == "cmp" and cond.args[0] in ("==", "is"):
            cs = [a.args[0] for a in cond.args[1:] if isinstance(a, T) and a.op == "class"]
            if cs:
                return (cs[0] == cls) == bool(pol)
    return len({x.callee for x in r.events(kind="call") if x.loc == e.loc and
                str(x.callee).endswith("Projector.__init__")}) == 1


def built(c, name, r, e, given, opts):
    """A projector is built with the caller's dimension, type, seed and device."""
    kinds = {"proj_dim": "proj_dim", "seed": "proj_seed", "proj_type": "proj_type", "device": "device",
             "grass_multiplier": "grass_multiplier", "feature_batch_size": "feature_batch_size"}
    cls = str(e.callee).split(".")[-2]
    for p, cl in kinds.items():
        src = {s for s, o in opts.items() if o == cl}
        sig = signature(c.repo, str(e.callee)) or ()
        if p not in given or p not in sig:
            continue
        if p == "grass_multiplier" and not selected(r, e):
            continue
        v = given[p]
        if len([w for w in wrapped(v) if w.op == "const"]) > 1:
            continue        # one of several, chosen by the caller's value
        if not src or p == "seed" and any(x.op == "call" and any(k == "generator" for k, _ in x.args[2])
                                          for x in r.i.expand(v)):
            continue        # drawn from the seeded generator
        cons = f"{short(e.fn)} construction of {cls} {p}"
        if reaches(r, v, src):
            c.ok(R_DROP, cons, name)
        else:
            c.bad(R_DROP, cons, f"{cls} is built with {p}={show(v)[:50]} instead of the caller's ({name})", e.loc)


def projection(c, name, r, e, given, boxes):
    """Fields of the projection parameters built for a projection come from the user's parameter object."""
    star = given.get("**")
    vals = [v for v in given.values() if isinstance(v, T)]
    if not any(reaches(r, v, boxes) for v in vals):
        return      # a default object
    fn = short(e.fn)
    roots = {}
    for p in PROJ:
        cons = f"{fn} projection parameter {p}"
        v = given.get(p)
        if v is None and isinstance(star, T):
            dumps = [x for x in r.i.expand(star) if x.op == "call" and x.args[0].op == "attr" and
                     x.args[0].args[1] in ("model_dump", "dict")]
            if not dumps or not any(reaches(r, x.args[0].args[0], boxes) for x in dumps):
                c.unknown(R_DROP, cons, "mapping not resolved")
                continue
            lost = [x for x in dumps for k, w in x.args[2]
                    if k in ("exclude", "include") and
                    (any(y.op == "const" and y.args[0] == p for y in r.i.expand(w)) == (k == "exclude"))]
            if lost:
                c.bad(R_DROP, cons, f"the user's {p} is left out of the projection parameters ({name})", e.loc)
            else:
                c.ok(R_DROP, cons, name)
            continue
        if v is None:
            c.bad(R_DROP, cons, f"the user's {p} is dropped: the projection uses the default ({name})", e.loc)
            continue
        ds = direct(v)
        names = {x.args[1] for x in ds if x.op == "attr"} | {optname(x) for x in ds if x.op == "sym"}
        want = ALIAS.get(p, (p,))
        ws = [w.args[0] for w in wrapped(v) if w.op == "const"]
        if p == "proj_type" and ws == ["identity"] or p == "proj_dim" and ws == [-1]:
            continue        # a stage that does nothing
        if any(n in names for n in want) or p == "proj_dim" and any(
                x.op == "attr" and x.args[1] in want for x in r.i.expand(v)):
            c.ok(R_DROP, cons, name)
        else:
            other = sorted(n for n in names if n in CLASS)
            if other:
                c.bad(R_NAME, cons, f"{p} of the projection is computed from {', '.join(other)} ({name})", e.loc)
            else:
                c.bad(R_DROP, cons, f"the user's {p} is replaced by {show(v)[:50]} ({name})", e.loc)
        if p != "proj_dim":
            for x in r.i.expand(v):
                if x in boxes:
                    roots.setdefault(x, set()).add(p)
    if len(boxes) > 1:
        if len(roots) > 1:
            c.bad(R_NAME, f"{fn} projection parameters source",
                  "fields of one projection come from different parameter objects: " + "; ".join(
                      f"{', '.join(sorted(v))} from {optname(k)}" for k, v in roots.items()) + f" ({name})", e.loc)
        for kind in ("sparsifier", "projector"):
            if kind in e.fn.rsplit(".", 1)[-1] and roots:
                wrong = [k for k in roots if kind not in optname(k)]
                if wrong:
                    c.bad(R_NAME, f"{fn} projection parameters source",
                          f"the {kind} is configured from {optname(wrong[0])} ({name})", e.loc)
                else:
                    c.ok(R_NAME, cons, name)


def meaning(c, name, r):
    for e in r.events(kind="call"):
        cal = str(e.callee)
        if not cal.startswith("dattri."):
            continue
        given = dict(e.d.get("bound") or {}) or dict(e.kwargs or ())
        for p, v in given.items():
            if p not in CLASS or not isinstance(v, T):
                continue
            for w in wrapped(v):
                n = optname(w)
                if n not in CLASS:
                    continue
                a, b = CLASS[n], CLASS[p]
                cons = f"{short(e.fn)} call of {cal.rsplit('.', 1)[-1]}.{p}"
                if a != b and (a, b) not in SAME:
                    c.bad(R_NAME, cons, f"the option `{n}` is passed as `{p}` ({name})", e.loc)
                else:
                    c.ok(R_NAME, cons)


ORDER = ("cmp <", "cmp <=", "cmp >", "cmp >=")


def roles(c, name, r, opts, S):
    where = r.cls.qual if r.cls else name
    for s, o in opts.items():
        tags = S.get(s, {})
        cl = CLASS.get(o)
        cons = f"{short(where)} option {o}"
        onward = any(t.startswith("arg ") and "." in t for t in tags)      # handed to a routine by name
        if cl in ("iterations", "depth", "repeats", "epochs"):
            if "iter" in tags or any(t in tags for t in ORDER):
                c.ok(R_ROLE, cons)
            elif not onward and consequential(tags):
                c.bad(R_ROLE, cons, f"`{o}` does not bound an iteration ({name}: {', '.join(sorted(tags))})")
        elif cl == "tolerance":
            if any(t in tags for t in ORDER):
                c.ok(R_ROLE, cons)
            elif not onward and consequential(tags):
                c.bad(R_ROLE, cons, f"`{o}` is not compared with anything ({name}: {', '.join(sorted(tags))})")
        elif cl == "mode":
            if "cmp ==" in tags or "cmp !=" in tags or "cmp in" in tags or "sub" in tags:
                c.ok(R_ROLE, cons)
            elif not onward and consequential(tags):
                c.bad(R_ROLE, cons, f"`{o}` does not select a computation ({name}: {', '.join(sorted(tags))})")
        elif cl == "regularization":
            sign(c, cons, name, r, s, o)
        elif cl == "scaling":
            if "bin /" in tags or any("div" in t for t in tags):
                c.ok(R_ROLE, cons)
            elif not onward and consequential(tags):
                c.bad(R_ROLE, cons, f"`{o}` does not scale ({name}: {', '.join(sorted(tags))})")
    reg = {s for s, o in opts.items() if "l2" in o}      # a penalty in the objective
    for e in r.events(kind="call"):
        if e.callee == ".backward" and reg and isinstance(e.d.get("recv"), T):
            cons = f"{short(e.fn)} objective"
            if reaches(r, e.recv, reg):
                c.ok(R_ROLE, cons, name)
            else:
                c.bad(R_ROLE, cons, f"the differentiated objective does not contain {', '.join(opts[x] for x in reg)} "
                      f"({name})", e.loc)
    depth = {s for s, o in opts.items() if CLASS.get(o) == "depth"}
    rep = {s for s, o in opts.items() if CLASS.get(o) == "repeats"}
    if depth and rep:
        lid = {}
        for e in r.events(kind="iter"):
            for k, ss in (("depth", depth), ("repeat", rep)):
                if reaches(r, e.iterable, ss):
                    lid.setdefault(e.lid, set()).add(k)
        for e in r.events(kind="call"):
            ks = [next(iter(lid[x])) for x in e.loops if x in lid and len(lid[x]) == 1]
            if "depth" in ks and "repeat" in ks:
                cons = f"{short(where)} repeats of the recursion"
                if ks.index("depth") < ks.index("repeat"):
                    c.bad(R_ROLE, cons, "the recursion runs over num_repeat steps and is repeated recursion_depth times",
                          e.loc)
                else:
                    c.ok(R_ROLE, cons)


def factor(t, s):
    """Is t the option, possibly times something?"""
    if s in wrapped(t):
        return True
    if t.op == "bin" and t.args[0] in ("*", "@"):
        return any(isinstance(a, T) and factor(a, s) for a in t.args[1:])
    if t.op == "bin" and t.args[0] == "/":
        return factor(t.args[1], s)
    return False


def shrinks(a, b, s):
    """(… + y) - option * y: a decay of y, written out."""
    if b.op != "bin" or b.args[0] != "*":
        return False
    y = [z for z in b.args[1:] if isinstance(z, T) and not factor(z, s)]
    todo, terms = [a], set()
    while todo:
        x = todo.pop()
        if x.op == "bin" and x.args[0] == "+":
            todo += [z for z in x.args[1:] if isinstance(z, T)]
        elif x.op == "bin" and x.args[0] == "-":
            todo.append(x.args[1])
        else:
            terms.add(x)
    return len(y) == 1 and y[0] in terms


def sign(c, cons, name, r, s, o):
    seen = set()
    found = False
    ts = [v for e in r.events() for v in terms_of(e)] + [v for k, t in r.results.items() if isinstance(t, T)
                                                        and k != "__init__" for v in E.deep(r, t)]
    for t in ts:
        for x in r.i.expand(t):
            if x in seen or x.op != "bin":
                continue
            seen.add(x)
            op, a, b = x.args[0], x.args[1], x.args[2]
            if op == "+" and (factor(a, s) or factor(b, s)):
                found = True
                c.ok(R_ROLE, cons)
            elif op == "-" and factor(b, s) and a.op != "const" and not shrinks(a, b, s) or op == "-" and factor(a, s):
                found = True
                c.bad(R_ROLE, cons, f"`{o}` is subtracted instead of added ({name})")
    for e in r.events():
        if e.kind == "call" and e.callee in (".sub_", ".sub") and any(factor(a, s) for a in e.args if isinstance(a, T)):
            c.bad(R_ROLE, cons, f"`{o}` is subtracted instead of added ({name})", e.loc)
        if e.kind == "aug" and e.d.get("op") == "-" and isinstance(e.d.get("value"), T) and factor(e.d["value"], s):
            c.bad(R_ROLE, cons, f"`{o}` is subtracted instead of added ({name})", e.loc)
