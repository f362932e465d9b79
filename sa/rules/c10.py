"""C10: random projections are determined by their dimensions, type, seed and ensemble index."""
from __future__ import annotations

from ..drive import attributor, functions
from ..scen import BLOCK, BLOCK_PKG, DVEMB, FACT, LOGRA, OPAQUE_MODS, blocks, table
from ..terms import T, const, mk, show, sym
from ..fold import Truth, facts_of
from . import c06

R_GEN = "own-generator"
R_SEED = "seed-and-index"
R_AGAIN = "redrawn-for-another-index"
R_STABLE = "draws-do-not-depend-on-history"
R_GLOBAL = "global-random-state-untouched"
R_SHARE = "one-projection-per-checkpoint"
R_FROM = "seed-sources"

P = "dattri.func.projection."
E1, E2 = sym("ensemble#1"), sym("ensemble#2")

TORCH_DRAWS = {"rand", "randn", "randint", "randperm", "normal", "bernoulli", "multinomial", "poisson", "rand_like", "randn_like",
               "randint_like", "dropout"}
METHOD_DRAWS = {"normal_", "uniform_", "bernoulli_", "random_", "exponential_", "geometric_", "log_normal_", "cauchy_",
                "multinomial", "bernoulli"}
NO_GENERATOR = {"rand_like", "randn_like", "randint_like", "dropout"}
SEEDERS = {"torch.manual_seed", "torch.seed", "torch.random.manual_seed", "torch.cuda.manual_seed",
           "torch.cuda.manual_seed_all", "torch.set_rng_state", "torch.random.set_rng_state", "torch.cuda.set_rng_state",
           "numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate", "torch.random.seed",
           "torch.random.fork_rng", "torch.cuda.seed"}
UNSTABLE = ("builtins.id", "builtins.hash", "time.", "os.getpid", "os.urandom", "uuid.", "secrets.", "random.",
            "numpy.random.", "torch.initial_seed", "torch.seed", "torch.random.", "datetime.", "builtins.object",
            "torch.rand", "torch.get_rng_state", "threading.get_ident")


def run(c):
    c.rule(R_GEN, "every random draw of a projection names a generator, and it is one the projection created")
    c.rule(R_SEED, "that generator is seeded before the draw on every path, from the user's seed and the ensemble index")
    c.rule(R_AGAIN, "projecting for another ensemble index than the remembered one draws again, and remembers the new one")
    c.rule(R_STABLE, "sizes, seeds and generators of the draws of one index are the same whatever was projected before")
    c.rule(R_GLOBAL, "no projection and no attribution draws a projection from, or reseeds, a global random state")
    c.rule(R_SHARE, "training and test representations of one checkpoint go through the same projection")
    c.rule(R_FROM, "the seed given to a projection comes from the user's options and the layer position, nothing else")
    projectors(c)
    factory(c)
    users(c)
    c.need(R_GEN, 6)
    c.need(R_SEED, 6)
    c.need(R_AGAIN, 4)
    c.need(R_SHARE, 4)
    c.need(R_FROM, 6)


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            todo += list(x.args)


def draws(evs):
    """(event, generator term or None, sizes) for every random draw."""
    for e in evs:
        if e.kind != "call":
            continue
        n = str(e.callee)
        last = n.rsplit(".", 1)[-1]
        if n.startswith("torch.") and last in TORCH_DRAWS and n.count(".") <= 2 or \
                n.startswith(".") and last in METHOD_DRAWS:
            g = dict(e.kwargs or ()).get("generator")
            yield e, g, tuple(e.args)
        elif (n.startswith("numpy.random.") or n.startswith("random.")) and last not in ("default_rng", "Generator",
                                                                                          "Random", "RandomState"):
            yield e, None, tuple(e.args)


def generators(r, t, seen=None):
    """The torch.Generator objects a term may be; None marks something else."""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return set()
    seen.add(t)
    if t.op in ("phi", "or", "and"):
        return set().union(*[generators(r, a, seen) for a in t.args])
    if t.op == "lv":
        return set().union(set(), *[generators(r, v, seen) for v in r.i.lvinfo.get(t, ())])
    if t.op == "call":
        f = t.args[0]
        if f.op == "ext" and f.args[0] in ("torch.Generator", "torch._C.Generator"):
            return {t}
        if f.op == "attr" and f.args[1] in ("manual_seed", "clone_state"):
            return generators(r, f.args[0], seen)
    if t.op == "dunder" or t.op == "const":
        return {None}
    return {None}


def contents(r, t, seen=None):
    """Values a term may be picked from."""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    if t.op == "lv":
        for v in r.i.lvinfo.get(t, ()):
            yield from contents(r, v, seen)
    if t.op == "obj":
        for how, v in r.i.contents.get(t.args[0], ()):
            yield from contents(r, v, seen)
    if t.op in ("attr", "call", "pick", "elem", "sub", "phi", "or", "first", "each", "tuple"):
        for a in t.args:
            for x in (a if isinstance(a, tuple) else (a,)):
                if isinstance(x, T) and x.op != "ext":
                    yield from contents(r, x, seen)


def seeding(r, evs):
    """(event, generators, seed terms) for everything that puts a generator into a state."""
    saved = []
    for e in evs:
        if e.kind != "call":
            continue
        n = str(e.callee)
        recv = e.d.get("recv")
        if n == ".manual_seed" and isinstance(recv, T):
            arg = e.args[0] if e.args else dict(e.kwargs or ()).get("seed")
            g = generators(r, recv)
            saved.append((e, g, arg))
            yield e, g, [arg]
        elif n == ".set_state" and isinstance(recv, T):
            g = generators(r, recv)
            arg = e.args[0] if e.args else dict(e.kwargs or ()).get("new_state")
            seeds = []
            for x in contents(r, arg):
                if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "get_state":
                    src = x.args[0].args[0]
                    m = seed_of(src)
                    if m is None:
                        m = next((s for ev, gg, s in reversed(saved) if gg & generators(r, src)), None)
                        # the state must have been taken after seeding
                        first = [v for v in r.events(kind="call") if str(v.callee) == ".get_state" and v.d.get("recv") is src]
                        seeded = [ev.seq for ev, gg, s in saved if gg & generators(r, src)]
                        if not seeded or any(v.seq < min(seeded) for v in first):
                            m = None
                    seeds.append(m)
            yield e, g, seeds


def seed_of(t):
    if isinstance(t, T) and t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "manual_seed":
        return t.args[1][0] if t.args[1] else dict(t.args[2]).get("seed")
    return None


def same_loops(a, b):
    la, lb = tuple(a.loops or ()), tuple(b.loops or ())
    return lb[:len(la)] == la


def canon(t, memo=None):
    """Term without loop numbers and allocation numbers, the second index read as the first."""
    if t is E2:
        return "E"
    if t is E1:
        return "E"
    if isinstance(t, tuple):
        return tuple(canon(x) for x in t)
    if isinstance(t, T):
        if t.op in ("idx", "ind", "index"):
            return "i"
        if t.op == "phi":
            return ("phi", tuple(sorted({str(canon(a)) for a in t.args})))
        if t.op == "obj":
            return "obj"
        if t.op == "lv":
            return ("lv", str(t.args[-1]))
        return (t.op,) + tuple(canon(a) for a in t.args)
    return t


def initial(t):
    """Fixed when the projector is built."""
    for x in subterms(t):
        if x.op == "sym" and not x.args[0].startswith("init:"):
            return False
        if x.op in ("lv", "prev") or x.op == "phi" and any(a.op == "const" for a in x.args):
            return False
    return True


def names_index(cond, e):
    return any(x is e for x in subterms(cond))


KINDS = [("BasicProjector", dict(proj_type=const(k)), n, x) for k in ("normal", "rademacher", "random_mask")
         for n, x in (("one-block", dict(proj_dim=const(50), block_size=const(100))),
                      ("blocks", dict(proj_dim=const(250), block_size=const(100))))] + \
        [("CudaProjector", dict(proj_type=const(k)), "", {}) for k in ("sjlt", "rademacher", "normal", "random_mask", "grass")]


def projectors(c):
    for ci in c.repo.all_classes():
        if not ci.qual.startswith(P) or ci.name.startswith("Abstract") or ci.find(c.repo, "project") is None:
            continue
        todo = [(n, i, x) for q, i, n, x in KINDS if q == ci.name] or [("", {}, {})]
        for n, init, extra in todo:
            name = ".".join(x for x in (ci.name, init["proj_type"].args[0] if init else "", n) if x)
            with c.guard(name):
                c.scenarios.append(name)
                projector(c, ci, name, dict(init, **extra))


def projector(c, ci, name, init):
    f = ci.find(c.repo, "project")
    ens = "ensemble_id" in f.params
    r = attributor(c.repo, ci.qual, init=init, opaque_mods=(), opaque=(), may_fail=True,
                   truth=Truth(facts_of({})))
    keys = ["__init__"]
    for k, e in (("first", E1), ("second", E2)):
        r.call("project", key=k, **({"ensemble_id": e} if ens else {}))
        keys.append(k)
    c.functions |= r.i.inlined
    globals_(c, r, name)
    evs = r.events()
    allseed = list(seeding(r, evs))
    sites = {}
    for k in keys:
        index = {"__init__": sym("init:ensemble_id"), "first": E1, "second": E2}[k]
        for e, g, sizes in draws(r.events(k)):
            n = str(e.callee).rsplit(".", 1)[-1]
            cons = f"{name}: {n}() in {e.fn.rsplit('.', 2)[-2]}.{e.fn.rsplit('.', 1)[-1]}"
            gs = generators(r, g) if g is not None else {None}
            if None in gs or not gs:
                if n in NO_GENERATOR or g is None:
                    c.bad(R_GEN, cons, "draws from the global random state", e.loc)
                else:
                    c.bad(R_GEN, cons, f"draws from {show(g)[:80]}, which is not a generator of the projection's own", e.loc)
                continue
            c.ok(R_GEN, cons)
            start = r.ranges[k][0]
            # seedings of this call that come before the draw on each of its paths
            mine = [(s, seeds) for s, sg, seeds in allseed if s.seq < e.seq and sg & gs and
                    set(s.pc) <= set(e.pc) and (same_loops(s, e) or s.callee == ".manual_seed")]
            here = [x for x in mine if x[0] in r.events(k)]
            last = here or ([] if ens and k != "__init__" else mine)
            if not last and not ens and k == "second":
                continue
            if not last:
                c.bad(R_SEED, cons, "the generator is not seeded before the draw on every path", e.loc)
                continue
            states = [x for x in last if x[0].callee == ".set_state"]
            seeds = [s for _, ss in (states[-1:] or last[-1:]) for s in ss]
            ok = True
            for s in seeds or [None]:
                if s is None:
                    c.bad(R_SEED, cons, "the generator's state is taken before it is seeded", e.loc)
                    ok = False
                    continue
                if not any(x is sym("init:seed") for x in subterms(s)):
                    c.bad(R_SEED, cons, f"the seed {show(s)[:80]} does not depend on the user's seed", e.loc)
                    ok = False
                for x in unstable(s):
                    c.bad(R_SEED, cons, f"the seed depends on {x}, which differs between processes or calls", e.loc)
                    ok = False
            if ens and k != "__init__" and None not in seeds and not any(names_index(s, index) for s in seeds):
                c.bad(R_SEED, cons, f"the seed {show(seeds[0])[:80] if seeds else '?'} does not depend on the ensemble index",
                      e.loc)
                ok = False
            if ok:
                c.ok(R_SEED, cons)
            sites.setdefault((n, e.fn), {}).setdefault(k, []).append((e, sizes, seeds))
    if ens:
        again(c, r, name, sites)
    if name.startswith("Arnoldi") and not sites:
        c.ok(R_GEN, name, "nothing drawn")


def unstable(t):
    for x in subterms(t):
        if x.op == "ext" and any(str(x.args[0]).startswith(u) for u in UNSTABLE):
            yield str(x.args[0])


def again(c, r, name, sites):
    second = {k: v["second"] for k, v in sites.items() if "second" in v}
    drawn = any("__init__" in v or "first" in v for v in sites.values())
    if not drawn:
        return
    if not second:
        c.bad(R_AGAIN, name, "projecting for another ensemble index draws nothing: the earlier projection is kept",
              r.cls.find(r.repo, "project").loc())
        return
    # draws that happen for a new index, whatever is stored
    for (n, fn), evs in second.items():
        free, stuck, memo_bad = [], [], []
        for e, _, _ in evs:
            cond = [(t, b) for t, b in e.pc if not initial(t)]
            idx = [(t, b) for t, b in cond if names_index(t, E2)]
            # what else it depends on, unless another draw happens otherwise
            rest = [(t, b) for t, b in cond if not names_index(t, E2) and not only_features(t) and
                    not any((t, not b) in o.pc for o, _, _ in evs)]
            if rest:
                stuck.append((e, rest))
                continue
            for t, b in idx:
                if not any(x is E1 for x in subterms(t)):
                    memo_bad.append((e, t))
            free.append(e)
        cons = f"{name}: {n}() in {fn.rsplit('.', 1)[-1]}"
        if not free and stuck:
            e, rest = stuck[0]
            c.bad(R_AGAIN, cons, f"drawn only if {show(rest[0][0])[:70]} is {rest[0][1]}: another ensemble index may "
                                 "keep the earlier projection", e.loc)
        elif memo_bad:
            e, t = memo_bad[0]
            c.bad(R_AGAIN, cons, f"the index last projected for is not remembered ({show(t)[:80]})", e.loc)
        else:
            c.ok(R_AGAIN, cons)
    for (n, fn), by in sites.items():
        if "first" in by and "second" in by:
            a = {canon(s) for _, s, _ in by["first"]}
            b = {canon(s) for _, s, _ in by["second"]}
            cons = f"{name}: {n}() in {fn.rsplit('.', 1)[-1]}"
            extra = b - a
            sd = {canon(x) for _, _, ss in by["second"] for x in ss if x is not None and names_index(x, E2)} - \
                 {canon(x) for _, _, ss in by["first"] for x in ss if x is not None and names_index(x, E1)}
            old = [x for _, _, ss in by["second"] for x in ss if x is not None and names_index(x, E2) and names_index(x, E1)]
            if extra:
                c.bad(R_STABLE, cons, "the size of what is drawn for an ensemble index depends on the calls before it",
                      by["second"][0][0].loc)
            elif sd or old:
                c.bad(R_STABLE, cons, "the seed of an ensemble index depends on the calls before it", by["second"][0][0].loc)
            else:
                c.ok(R_STABLE, cons)


def only_features(t):
    return all(x.args[0].startswith(("project:", "init:")) for x in subterms(t) if x.op == "sym") and \
        any(x.op == "sym" for x in subterms(t)) and not any(x.op in ("phi", "lv") for x in subterms(t))


def globals_(c, r, name, only_reseed=False):
    bad = False
    for e in r.events(kind="call"):
        if str(e.callee) in SEEDERS:
            bad = True
            c.bad(R_GLOBAL, f"{e.fn.replace('dattri.', '')}", f"{e.callee} changes the global random state ({name})", e.loc)
    if not bad:
        c.ok(R_GLOBAL, name)


def factory(c):
    """make_random_projector and random_project: every projector is built with the caller's seed."""
    for q, params in (("make_random_projector", {}), ("random_project", {})):
        if q not in {f.name for f in c.repo.all_functions() if f.qual == P + q}:
            continue
        with c.guard(q):
            c.scenarios.append(q)
            r = functions(c.repo)
            t = r.fcall(P + q, key="make", **params)
            close(r, t)
            c.functions |= r.i.inlined
            globals_(c, r, q)
            seeds = seed_leaves(r)
            for e in r.events(kind="call"):
                n = str(e.callee)
                if n.startswith(P) and n.endswith("Projector") or n.endswith("Projector.__init__") and "Abstract" not in n:
                    s = (e.d.get("bound") or {}).get("seed") or dict(e.kwargs or ()).get("seed")
                    if s is None:
                        continue
                    cons = f"{q} builds {n.replace(P, '').replace('.__init__', '')}"
                    judge_seed(c, r, cons, s, seeds, e)
            for e, g, _ in draws(r.events()):
                fn = e.fn.rsplit(".", 1)[-1]
                if any("Projector" in getattr(x.info, "qual", "") for x in e.stack if x.info):
                    continue
                gs = generators(r, g) if g is not None else {None}
                cons = f"{fn}: {str(e.callee).rsplit('.', 1)[-1]}()"
                if None in gs or not gs:
                    c.bad(R_GEN, cons, "draws from the global random state", e.loc)
                    continue
                before = [x for x in seeding(r, r.events()) if x[0].seq < e.seq and x[1] & gs and set(x[0].pc) <= set(e.pc)]
                if not before:
                    c.bad(R_SEED, cons, "the generator is not seeded before the draw", e.loc)
                elif not any(leaf in seeds for s in before[-1][2] for leaf in subterms(s)):
                    c.bad(R_SEED, cons, "the generator is not seeded from the user's seed", e.loc)
                else:
                    c.ok(R_SEED, cons)


def seed_leaves(r):
    out = {sym("proj_seed"), sym("init:seed")}
    for e in r.events():
        for v in e.d.values():
            for t in (v if isinstance(v, tuple) else (v,)):
                for x in subterms(t) if isinstance(t, T) else ():
                    if x.op == "attr" and x.args[1] == "proj_seed":
                        out.add(x)
                    if x.op == "sub" and isinstance(x.args[1], T) and x.args[1] is const("proj_seed"):
                        out.add(x)
    return out


def reach(r, t, depth=0, seen=None):
    """Subterms, through containers and loop variables."""
    seen = set() if seen is None else seen
    for x in subterms(t):
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "lv":
            for v in r.i.lvinfo.get(x, ()):
                yield from reach(r, v, depth + 1, seen)
        if x.op == "obj":
            for how, v in r.i.contents.get(x.args[0], ()):
                yield from reach(r, v, depth + 1, seen)


def judge_seed(c, r, cons, s, seeds, e):
    xs = list(reach(r, s))
    if not any(x in seeds for x in xs):
        drawn = [x for x in xs if x.op == "call" and x.args[0].op == "ext" and str(x.args[0].args[0]).startswith("torch.")]
        seeded = any(str(v.callee) == ".manual_seed" and any(y in seeds for a in v.args for y in subterms(a))
                     for v in r.events(kind="call"))
        if not (drawn and seeded):
            if any(x.op in ("unk",) for x in xs):
                c.unknown(R_FROM, cons, f"seed {show(s)[:80]}", e.loc)
                return
            c.bad(R_FROM, cons, f"the seed {show(s)[:80]} does not depend on the user's seed", e.loc)
            return
    bad = [str(x.args[0]) for x in xs if x.op == "ext" and any(str(x.args[0]).startswith(u) for u in UNSTABLE)
           and not str(x.args[0]).startswith("torch.rand")]
    if bad:
        c.bad(R_FROM, cons, f"the seed depends on {bad[0]}, which differs between processes or calls", e.loc)
        return
    c.ok(R_FROM, cons)


def close(r, t):
    for x in (t.args if isinstance(t, T) and t.op == "phi" else (t,)):
        if isinstance(x, T) and x.op == "func":
            r.apply(x, sym("feature"), key=f"apply{x.args[0]}")


def users(c):
    sigs = {}
    for s in table():
        if s.qual == DVEMB:
            continue
        with c.guard(s.name):
            r = s.build(c.repo)
            c.functions |= r.i.inlined
            c.scenarios.append(s.name)
            globals_(c, r, s.name)
            uses(c, r, s.name, sigs.setdefault(s.qual, {}))
    for ft in ("none", "kronecker", "elementwise"):
        name = "DVEmb." + ft
        with c.guard(name):
            r = attributor(c.repo, DVEMB, init=dict(factorization_type=const(ft)))
            r.call("cache", key="cache")
            r.call("attribute", key="main")
            c.functions |= r.i.inlined
            c.scenarios.append(name)
            globals_(c, r, name)
            uses(c, r, name, sigs.setdefault(name, {}))
    for q in (BLOCK, LOGRA, FACT):
        name = q.rsplit(".", 1)[-1] + ".compressors"
        with c.guard(name):
            r = attributor(c.repo, q, init=dict(layer_names=sym("layers")), opaque_mods=c06.INLINE)
            r.call("cache", full_train_dataloader=c06.FULL)
            r.call("attribute", train_dataloader=sym("train_dataloader"), test_dataloader=sym("test_dataloader"))
            c.functions |= r.i.inlined
            c.scenarios.append(name)
            globals_(c, r, name)
            uses(c, r, name, {})
    for qual, sig in sigs.items():
        short = qual.rsplit(".", 1)[-1]
        if len(sig) > 1:
            (a, (_, la)), (b, (_, lb)) = list(sig.items())[:2]
            c.bad(R_SHARE, short, f"two different projections are used for one checkpoint: {la} and {lb} "
                                  f"differ in {differ(a, b)}", lb)
        elif sig:
            c.ok(R_SHARE, short, f"{next(iter(sig.values()))[0]} uses")


def differ(a, b):
    if a[0] != b[0]:
        return "the ensemble index"
    return "the options: " + ", ".join(sorted({str(k[0]) for k in set(a[1]) ^ set(b[1])}))


def options(r, p):
    """The options of a projection as (name, value) pairs."""
    out = []
    if isinstance(p, T) and p.op == "call":
        for k, v in p.args[2] or ():
            if k not in ("feature_batch_size", "device", "param_shape_list"):
                out.append((k, v))
        for a in p.args[1] or ():
            out.append(("", a))
    elif isinstance(p, T) and p.op == "obj":
        for k, v in sorted((r.i.S.heap.get(p.args[0]) or {}).items(), key=str):
            if k not in ("feature_batch_size", "device"):
                out.append((k, v))
    else:
        out.append(("", p))
    return tuple(out)


def checkpoint_of(r, args):
    out = set()
    for a in args:
        for x in reach(r, a):
            if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("get_param",):
                k = dict(x.args[2]).get("ckpt_idx")
                if k is not None and not (k.op == "const" and k.args[0] is None):
                    out.add(k)
    return out


def replace(t, old, new):
    if t is old:
        return new
    if isinstance(t, tuple):
        return tuple(replace(x, old, new) for x in t)
    if isinstance(t, T):
        return mk(t.op, *[replace(a, old, new) for a in t.args])
    return t


def uses(c, r, name, sigs):
    seeds = seed_leaves(r)
    for e in r.events(kind="call"):
        n = str(e.callee)
        if n == P + "random_project":
            p = (e.d.get("bound") or {}).get("proj_params")
            sd = [v for k, v in options(r, p) if k == "proj_seed"]
            where = e.fn.replace("dattri.algorithm.", "")
            if sd:
                judge_seed(c, r, f"{where} ({name})", sd[0], seeds | {sym("init:" + "proj_params")}, e)
            else:
                whole = [v for k, v in options(r, p) if k in ("", "**")]
                if whole and any(x.op == "sym" and x.args[0].startswith("init:") for v in whole for x in reach(r, v)):
                    c.ok(R_FROM, f"{where} ({name})", "all options of the caller")
                else:
                    c.bad(R_FROM, f"{where} ({name})", "no seed is passed to the projection", e.loc)
            continue
        ft = e.d.get("func")
        made = made_by(ft)
        if made is None:
            continue
        ens = dict(e.kwargs or ()).get("ensemble_id")
        if ens is None:
            ens = e.args[1] if len(e.args) > 1 else const(0)
        ck = checkpoint_of(r, e.args)
        where = e.fn.replace("dattri.algorithm.", "")
        cons = f"{where} ({name})"
        norm = ens
        CK = sym("checkpoint")
        for k in ck:
            norm = replace(norm, k, CK)
        left = [x for x in subterms(norm) if x.op in ("idx", "ind", "index", "lv", "elem", "prev") or
                x.op == "ext" and any(str(x.args[0]).startswith(u) for u in UNSTABLE)]
        if left:
            if ck:
                c.bad(R_SHARE, cons, f"the ensemble index {show(ens)[:60]} is not that of the checkpoint the gradients "
                                     f"come from ({', '.join(show(k) for k in ck)})", e.loc)
            else:
                c.unknown(R_SHARE, cons, f"ensemble index {show(ens)[:60]}", e.loc)
            continue
        c.ok(R_SHARE, cons)
        p = dict(made.args[2]).get("proj_params")
        key = (canon(norm), tuple((k, canon(v)) for k, v in options(r, p)))
        sigs.setdefault(key, (cons, e.loc))


def made_by(t):
    """The random_project call a called value comes from."""
    for x in (t.args if isinstance(t, T) and t.op == "phi" else (t,)):
        if isinstance(x, T) and x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == P + "random_project":
            return x
    return None
